// Type-erased access to the library's hash objects, public API only.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <span>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

#ifdef VERIF_SINGLE_HEADER
#include <cthash-single-header.hpp>
#else
#include <cthash/cthash.hpp>
#endif

namespace vh {

using bytes = std::vector<uint8_t>;

// output area whose end is flush against an unmapped page and which is
// preceded by canary bytes
struct guarded_out {
	static constexpr size_t cap = 65536;
	uint8_t * base{nullptr}; // usable area [base, base+cap), page after it unmapped
	guarded_out();
	uint8_t * place(size_t n); // last n bytes; everything before is canary
	bool intact(size_t n) const;
};
guarded_out & outbuf();

long alloc_count();

struct obj {
	virtual ~obj() = default;
	// returns false if this library type has no such overload
	virtual bool update(int via, const uint8_t * p, size_t n) = 0;
	// via 0: by value, via 1: into a caller's buffer; n: bytes wanted (SHAKE)
	virtual bool final(int via, size_t n, bytes & out, bool & intact) = 0;
	virtual bool update_and_final(int via, const uint8_t * p, size_t n, bytes & out) = 0;
	virtual std::unique_ptr<obj> copy() const = 0;
	virtual std::unique_ptr<obj> move() = 0;
	virtual bool assign(const obj &, bool mv) = 0;
	virtual bool size(uint64_t & out) const = 0;
};

struct alg {
	std::function<std::unique_ptr<obj>(uint64_t seed)> make;
	// one-shot: simple<H>(view) / update_and_final; via selects the flavour
	std::function<bool(int via, uint64_t seed, const uint8_t * p, size_t n, size_t want, bytes & out)> oneshot;
};

std::map<std::string, alg> & registry();

enum : int { V_SPAN_BYTE = 0, V_SV = 1, V_SPAN_UCHAR = 2, V_SPAN_CHAR = 3, V_U8SV = 4, V_SPAN_SCHAR = 5, V_VEC_BYTE = 6, V_STRING = 7, V_VEC_UCHAR = 8, V_VEC_SCHAR = 9, V_SPAN_CHAR8 = 10, V_U8STRING = 11, V_VEC_CHAR = 12, V_SPAN_MUT = 13 };

template <typename H, typename A> constexpr bool can_update = requires(H & h, const A & a) { h.update(a); };

template <typename H, typename A> concept can_update_and_final = requires(H & h, const A & a) { h.update_and_final(a); };

template <typename C> C * as(const uint8_t * p) { return const_cast<C *>(reinterpret_cast<const C *>(p)); }

// (no generic lambdas here: clang 18 crashes on constraints inside them)
template <typename H, typename In> bool feed_one(H & h, const In & in) {
	if constexpr (can_update<H, In>) {
		h.update(in);
		return true;
	} else {
		return false;
	}
}

// feed through one particular input type
template <typename H> bool feed(H & h, int via, const uint8_t * p, size_t n) {
	switch (via) {
		case V_SPAN_BYTE: return feed_one(h, std::span<const std::byte>(as<const std::byte>(p), n));
#ifndef VERIF_LEAN
		case V_SV: return feed_one(h, std::string_view(as<const char>(p), n));
		case V_SPAN_UCHAR: return feed_one(h, std::span<const unsigned char>(p, n));
		case V_SPAN_CHAR: return feed_one(h, std::span<const char>(as<const char>(p), n));
		case V_U8SV: return feed_one(h, std::u8string_view(as<const char8_t>(p), n));
		case V_SPAN_SCHAR: return feed_one(h, std::span<const signed char>(as<const signed char>(p), n));
		case V_VEC_BYTE: return feed_one(h, std::vector<std::byte>(as<const std::byte>(p), as<const std::byte>(p) + n));
		case V_STRING: return feed_one(h, std::string(as<const char>(p), n));
		case V_VEC_UCHAR: return feed_one(h, std::vector<unsigned char>(p, p + n));
		case V_VEC_SCHAR: return feed_one(h, std::vector<signed char>(as<const signed char>(p), as<const signed char>(p) + n));
		case V_SPAN_CHAR8: return feed_one(h, std::span<const char8_t>(as<const char8_t>(p), n));
		case V_U8STRING: return feed_one(h, std::u8string(as<const char8_t>(p), n));
		case V_VEC_CHAR: return feed_one(h, std::vector<char>(as<const char>(p), as<const char>(p) + n));
		case V_SPAN_MUT: return feed_one(h, std::span<std::byte>(as<std::byte>(p), n));
#endif
	}
	return false;
}

template <typename H, size_t... Bytes> struct obj_impl: obj {
	H h;
	explicit obj_impl(H && in): h(std::move(in)) { }
	explicit obj_impl(const H & in): h(in) { }

	bool update(int via, const uint8_t * p, size_t n) override { return feed(h, via, p, n); }

	template <size_t N> bool final_n(size_t n, bytes & out) {
		if (n != N) return false;
		const auto v = h.template final<N * 8u>();
		static_assert(sizeof(v) == N);
		out.assign(reinterpret_cast<const uint8_t *>(v.data()), reinterpret_cast<const uint8_t *>(v.data()) + v.size());
		return true;
	}

	bool final(int via, size_t n, bytes & out, bool & intact) override {
		intact = true;
		if constexpr (sizeof...(Bytes) > 0) {
			(void)via;
			return (final_n<Bytes>(n, out) || ...);
		} else {
			using value_t = decltype(h.final());
			constexpr size_t N = sizeof(value_t);
			if (via == 0) {
				const auto v = h.final();
				out.assign(reinterpret_cast<const uint8_t *>(v.data()), reinterpret_cast<const uint8_t *>(v.data()) + v.size());
			} else {
				uint8_t * p = outbuf().place(N);
				h.final(std::span<std::byte, N>(reinterpret_cast<std::byte *>(p), N));
				intact = outbuf().intact(N);
				out.assign(p, p + N);
			}
			return true;
		}
	}

	template <typename A> bool uaf(const A & in, bytes & out) {
		if constexpr (can_update_and_final<H, A>) {
			const auto v = h.update_and_final(in);
			out.assign(reinterpret_cast<const uint8_t *>(v.data()), reinterpret_cast<const uint8_t *>(v.data()) + v.size());
			return true;
		} else {
			return false;
		}
	}

	bool update_and_final(int via, const uint8_t * p, size_t n, bytes & out) override {
		switch (via) {
			case V_SPAN_BYTE: return uaf(std::span<const std::byte>(as<const std::byte>(p), n), out);
			case V_SV: return uaf(std::string_view(as<const char>(p), n), out);
			case V_SPAN_UCHAR: return uaf(std::span<const unsigned char>(p, n), out);
			case V_U8SV: return uaf(std::u8string_view(as<const char8_t>(p), n), out);
		}
		return false;
	}

	std::unique_ptr<obj> copy() const override { return std::make_unique<obj_impl>(h); }
	std::unique_ptr<obj> move() override { return std::make_unique<obj_impl>(std::move(h)); }
	bool assign(const obj & o, bool mv) override {
		if constexpr (std::is_copy_assignable_v<H>) {
			auto & other = dynamic_cast<const obj_impl &>(o);
			if (mv) {
				h = std::move(const_cast<obj_impl &>(other).h);
			} else {
				h = other.h;
			}
			return true;
		} else {
			return false;
		}
	}
	bool size(uint64_t & out) const override {
		if constexpr (requires { h.size(); }) {
			out = static_cast<uint64_t>(h.size());
			return true;
		} else {
			return false;
		}
	}
};

template <typename H, typename A, typename... S> concept can_simple = requires(const A & a, S... s) { cthash::simple<H>(a, s...); };

template <typename H, typename In, typename... S> bool simple_one(bytes & out, const In & in, S... seed) {
	if constexpr (can_simple<H, In, S...>) {
		const auto v = cthash::simple<H>(in, seed...);
		out.assign(reinterpret_cast<const uint8_t *>(v.data()), reinterpret_cast<const uint8_t *>(v.data()) + v.size());
		return true;
	} else {
		return false;
	}
}

template <typename H, typename... S> bool run_simple(int via, const uint8_t * p, size_t n, bytes & out, S... seed) {
	switch (via) {
		case V_SPAN_BYTE: return simple_one<H>(out, std::span<const std::byte>(as<const std::byte>(p), n), seed...);
#ifndef VERIF_LEAN
		case V_SV: return simple_one<H>(out, std::string_view(as<const char>(p), n), seed...);
		case V_SPAN_UCHAR: return simple_one<H>(out, std::span<const unsigned char>(p, n), seed...);
		case V_SPAN_CHAR: return simple_one<H>(out, std::span<const char>(as<const char>(p), n), seed...);
		case V_U8SV: return simple_one<H>(out, std::u8string_view(as<const char8_t>(p), n), seed...);
		case V_SPAN_SCHAR: return simple_one<H>(out, std::span<const signed char>(as<const signed char>(p), n), seed...);
		case V_VEC_BYTE: return simple_one<H>(out, std::vector<std::byte>(as<const std::byte>(p), as<const std::byte>(p) + n), seed...);
		case V_STRING: return simple_one<H>(out, std::string(as<const char>(p), n), seed...);
#endif
	}
	return false;
}

template <typename H> void add(const char * name) {
	registry()[name] = alg{
		.make = [](uint64_t) -> std::unique_ptr<obj> { return std::make_unique<obj_impl<H>>(H{}); },
		.oneshot = [](int via, uint64_t, const uint8_t * p, size_t n, size_t, bytes & out) { return run_simple<H>(via, p, n, out); }};
}

template <typename H, typename Seed> void add_seeded(const char * name) {
	registry()[name] = alg{
		.make = [](uint64_t seed) -> std::unique_ptr<obj> { return std::make_unique<obj_impl<H>>(H{static_cast<Seed>(seed)}); },
		.oneshot = [](int via, uint64_t seed, const uint8_t * p, size_t n, size_t, bytes & out) { return run_simple<H>(via, p, n, out, static_cast<Seed>(seed)); }};
}

template <typename H, size_t... Bytes> void add_xof(const char * name) {
	registry()[name] = alg{
		.make = [](uint64_t) -> std::unique_ptr<obj> { return std::make_unique<obj_impl<H, Bytes...>>(H{}); },
		.oneshot = {}};
}

// the literal forms of update()
using lit_fn = std::function<bool(const std::string & alg, const std::string & id, uint64_t seed, bytes & msg, bytes & digest)>;

} // namespace vh
