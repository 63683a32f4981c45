// Support for generated translation units: the same computation evaluated by
// the compiler and at run time, and over many containers.
#pragma once
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <list>
#include <memory_resource>
#include <ranges>
#include <span>
#include <string>
#include <string_view>
#include <vector>
#ifdef VERIF_SINGLE_HEADER
#include <cthash-single-header.hpp>
#else
#include <cthash/cthash.hpp>
#endif
// VERIF_NO_CT: everything at run time (to tell whether only constant evaluation is broken)
#ifdef VERIF_NO_CT
#define CT_CONST const
#define CT_STATIC static inline const
#else
#define CT_CONST constexpr
#define CT_STATIC static constexpr
#endif
namespace ct {
using namespace std::string_view_literals;
constexpr uint64_t splitmix(uint64_t & x) {
	uint64_t z = (x += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
// stream number k as everywhere else; k = 0: 0, 1, 2, ...; k = -1: ff ff ...; k = -2: 80 80 ...
template <typename E, size_t N> constexpr std::array<E, N> data(long k) {
	std::array<E, N> r{};
	uint64_t x = static_cast<uint64_t>(k) * 0x100000001B3ull + 12345, v = 0;
	for (size_t i = 0; i != N; ++i) {
		if (i % 8 == 0) v = splitmix(x);
		r[i] = static_cast<E>(k == 0 ? uint8_t(i) : k == -1 ? uint8_t(255) : k == -2 ? uint8_t(128) : uint8_t(v >> (8 * (i % 8))));
	}
	return r;
}
extern FILE * out;
template <typename V> void hex(const V & v) {
	for (auto b: v) std::fprintf(out, "%02x", static_cast<unsigned>(static_cast<unsigned char>(b)));
}
template <typename V> void codes(const V & v) {
	for (auto c: v) std::fprintf(out, "%06lx", static_cast<unsigned long>(static_cast<uint32_t>(c)));
}
template <typename A, typename B> void emit(const char * id, const A & a, const B & b) {
	std::fprintf(out, "%s c", id); hex(a);
	std::fprintf(out, " r"); hex(b); std::fputc('\n', out);
}
// hide a value from the optimiser
template <typename E, size_t N> struct secret {
	E v[N ? N : 1];
	explicit secret(const std::array<E, N> & a) {
		for (size_t i = 0; i != N; ++i) v[i] = a[i];
		asm volatile("" : : "r"(v) : "memory");
	}
};
// one hash computation: E element type, K data, then the sizes of the pieces
template <typename Mk, typename E, long K, size_t... P> struct hash_case {
	static constexpr size_t N = (P + ... + 0u);
	static constexpr std::array<E, N> d = data<E, N>(K);
	static constexpr auto eval(const E * p) {
		auto h = Mk::make();
		size_t o = 0;
		((h.update(std::span<const E>(p + o, P)), o += P), ...);
		return Mk::fin(h);
	}
	CT_STATIC auto ct = eval(d.data());
	static void run(const char * id) {
		secret<E, N> s{d};
		emit(id, ct, eval(s.v));
	}
};
// the same with many pieces, whose sizes Ch lists
template <typename Mk, typename E, long K, typename Ch> struct chain_case {
	static constexpr size_t N = [] { size_t n = 0; for (auto p: Ch::sizes) n += p; return n; }();
	static constexpr std::array<E, N> d = data<E, N>(K);
	static constexpr auto eval(const E * p) {
		auto h = Mk::make();
		for (auto n: Ch::sizes) { h.update(std::span<const E>(p, n)); p += n; }
		return Mk::fin(h);
	}
	CT_STATIC auto ct = eval(d.data());
	static void run(const char * id) {
		secret<E, N> s{d};
		emit(id, ct, eval(s.v));
	}
};
template <typename Mk, typename E, long K, size_t N> struct oneshot_case {
	static constexpr std::array<E, N> d = data<E, N>(K);
	static constexpr auto eval(const E * p) { return Mk::one(std::span<const E>(p, N)); }
	CT_STATIC auto ct = eval(d.data());
	static void run(const char * id) {
		secret<E, N> s{d};
		emit(id, ct, eval(s.v));
	}
};
// one encoding
template <typename Enc, typename CharT, typename E, long K, size_t N> struct enc_case {
	static constexpr std::array<E, N> d = data<E, N>(K);
	static constexpr size_t len(const std::array<E, N> & a) {
		size_t n = 0;
		for (auto c: a | cthash::encode_to<Enc, CharT>) { (void)c; ++n; }
		return n;
	}
	template <size_t L> static constexpr auto eval(const std::array<E, N> & a) {
		std::array<CharT, L + 1> r{};
		size_t i = 0;
		auto v = a | cthash::encode_to<Enc, CharT>;
		for (auto c: v) { if (i < L) r[i] = c; ++i; }
		r[L] = static_cast<CharT>(v.size() + 256 * i);
		return r;
	}
	#ifdef VERIF_NO_CT
	static constexpr size_t L = N * 8 + 16;
#else
	static constexpr size_t L = len(d);
#endif
	CT_STATIC auto ct = eval<L>(d);
	static void run(const char * id) {
		auto a = d;
		asm volatile("" : : "r"(a.data()) : "memory");
		const auto rt = eval<L>(a);
		std::fprintf(out, "%s c", id); codes(ct);
		std::fprintf(out, " r"); codes(rt); std::fputc('\n', out);
	}
};
} // namespace ct
