// Digest values, type-erased (public API only).
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <format>
#include <functional>
#include <iterator>
#include <locale>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#ifdef VERIF_SINGLE_HEADER
#include <cthash-single-header.hpp>
#else
#include <cthash/cthash.hpp>
#endif
namespace vv {
using bytes = std::vector<uint8_t>;
using text = std::vector<long>;
template <typename V> bytes get(const V & v) {
	bytes b;
	for (auto x: v) b.push_back(static_cast<uint8_t>(x));
	return b;
}
template <typename S> text codes(const S & s) {
	text t;
	for (auto c: s) t.push_back(static_cast<long>(static_cast<std::make_unsigned_t<decltype(c)>>(c)));
	return t;
}
template <typename V> V mk(const bytes & b) {
	V v{};
	for (size_t i = 0; i < v.size(); ++i) v[i] = std::byte(b[i]);
	return v;
}
struct ops {
	size_t n;
	std::string enc; // default encoding
	std::function<std::optional<bytes>(int form, int chart, const text &)> parse;
	std::function<bytes(int how)> zero;
	std::function<std::optional<text>(int how, int chart, const bytes &)> print; // default encoding
	std::function<std::optional<text>(int how, int chart, const std::string & enc, const bytes &)> printas;
	std::function<std::array<int, 7>(const bytes &, const bytes &)> cmp;
	std::function<std::vector<bytes>(bool suffix, const bytes &)> cuts;
	std::function<std::optional<text>(int way, int chart, const std::vector<long> & fs, const bytes &)> format;
	std::function<std::optional<text>(int way, int chart, const std::string & enc, const std::vector<long> & fs, const bytes &)> fmtview; // nullopt: rejected
	std::function<std::array<int, 7>(int chart, const std::string & enc, const bytes &, const bytes &, const text &)> fseq;
};
std::map<std::string, ops> & registry(); // defined once: two compilers would name its static differently
template <typename F> auto with_enc(const std::string & e, F f) {
	namespace n = cthash::encoding;
#ifndef VERIF_HEXONLY
	if (e == "base64") return f(n::base64{});
	if (e == "base64_no_padding") return f(n::base64_no_padding{});
	if (e == "base64url") return f(n::base64url{});
	if (e == "base32") return f(n::base32{});
	if (e == "base32_no_padding") return f(n::base32_no_padding{});
	if (e == "z_base32") return f(n::z_base32{});
	if (e == "BASE16") return f(n::base16_uppercase{});
	if (e == "base8") return f(n::base8{});
	if (e == "base4") return f(n::base4{});
	if (e == "base2") return f(n::base2{});
#endif
	return f(n::base16{});
}
template <typename A, typename B> std::array<int, 7> compare(const A & a, const B & b) {
	const auto o = a <=> b;
	return {a == b, a != b, a < b, a <= b, a > b, a >= b, o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 9};
}
template <typename V, typename CharT> std::optional<bytes> parse_one(int form, const text & t) {
	constexpr size_t N = V{}.size();
	if (form == 0) {
		// as if from an array with terminator
		CharT a[2 * N + 1]{};
		for (size_t i = 0; i < 2 * N; ++i) a[i] = static_cast<CharT>(t[i]);
		if constexpr (requires { V(a); }) return get(V(a));
		else return std::nullopt;
	} else {
		cthash::fixed_string<CharT, 2 * N> f{nullptr};
		for (size_t i = 0; i < 2 * N; ++i) f[i] = static_cast<CharT>(t[i]);
		if (form == 1) {
			if constexpr (requires { V(f); }) return get(V(f));
		} else {
			// the type follows from the text
			const auto v = cthash::hash_value(f);
			static_assert(sizeof(v) == N);
			return get(v);
		}
		return std::nullopt;
	}
}
// the stream is used with its formatting state disturbed: it must not matter
template <typename S> void disturb(S & os) {
	os << std::uppercase << std::showbase << std::oct << std::left << std::boolalpha << std::showpos << std::unitbuf;
	os.fill('*');
	os.precision(2);
}
template <typename V, typename CharT> text streamed(const V & v, int how) {
	std::basic_ostringstream<CharT> os;
	if (how == 1) disturb(os);
	os << v;
	return codes(os.str());
}
// three arguments, all the same value
template <typename CharT, typename V> std::optional<text> format_one(const std::vector<long> & fs, const V & v, int way) {
	std::basic_string<CharT> f;
	for (long c: fs) f += static_cast<CharT>(c);
	// nothing readable after the format string
	std::vector<CharT> tight(f.begin(), f.end());
	const std::basic_string_view<CharT> fv(tight.data(), tight.size());
	try {
		auto go = [&](auto args) -> text {
			if (way == 0) return codes(std::vformat(fv, args));
			if (way == 2) return codes(std::vformat(std::locale::classic(), fv, args));
			if (way == 3) {
				// plain pointers, into a buffer that is as large as needed
				std::vector<CharT> o(std::vformat(fv, args).size());
				CharT * const e = std::vformat_to(o.data(), fv, args);
				return codes(std::basic_string_view<CharT>(o.data(), static_cast<size_t>(e - o.data())));
			}
			std::basic_string<CharT> o;
			std::vformat_to(std::back_inserter(o), fv, args);
			return codes(o);
		};
		if constexpr (std::same_as<CharT, char>) return go(std::format_args(std::make_format_args(v, v, v)));
		else return go(std::wformat_args(std::make_wformat_args(v, v, v)));
	} catch (const std::exception &) {
		return std::nullopt;
	}
}
template <typename V, typename CharT> std::optional<text> print_one(int how, const V & v) {
	switch (how) {
		case 0: return codes(to_string(v));
		case 1: return codes(to_fixed_string(v));
		case 2: if constexpr (std::same_as<CharT, char> || std::same_as<CharT, wchar_t>) return streamed<V, CharT>(v, 0); break;
		case 3: if constexpr (std::same_as<CharT, char> || std::same_as<CharT, wchar_t>) return streamed<V, CharT>(v, 1); break;
		case 4: if constexpr (std::same_as<CharT, char> || std::same_as<CharT, wchar_t>) { std::basic_ostringstream<CharT> os; v.print_into(os); return codes(os.str()); } break;
	}
	return std::nullopt;
}
template <typename V, typename CharT, typename E> std::optional<text> printas_one(int how, const V & v) {
	constexpr bool streams = std::same_as<CharT, char> || std::same_as<CharT, wchar_t>;
	switch (how) {
		case 0: return codes(to_string<E, CharT>(v));
		case 1: return codes(to_fixed_string<E, CharT>(v));
		case 2: if constexpr (streams) { std::basic_ostringstream<CharT> os; v.template print_into<E>(os); return codes(os.str()); } break;
		case 7: if constexpr (streams) { std::basic_ostringstream<CharT> os; disturb(os); v.template print_into<E>(os); return codes(os.str()); } break;
#ifndef VERIF_SINGLE_HEADER
		case 3: return codes((v | cthash::encode_to<E, CharT>).to_string());
		case 4: if constexpr (streams) { std::basic_ostringstream<CharT> os; os << (v | cthash::encode_to<E, CharT>); return codes(os.str()); } break;
		case 8: if constexpr (streams) { std::basic_ostringstream<CharT> os; disturb(os); os << (v | cthash::encode_to<E, CharT>); return codes(os.str()); } break;
		case 5:
			if constexpr (std::same_as<CharT, char>) return codes(std::format("{}", v | cthash::encode_to<E, CharT>));
			else if constexpr (std::same_as<CharT, wchar_t>) return codes(std::format(L"{}", v | cthash::encode_to<E, CharT>));
			break;
#endif
		case 6: { text t; for (auto c: v | cthash::encode_to<E, CharT>) t.push_back(static_cast<long>(c)); return t; }
	}
	return std::nullopt;
}
// the fixed string against another one, a string view and a terminated string
template <typename V, typename CharT, typename E> std::array<int, 7> fseq_one(const V & v, const V & w, const text & t) {
	const auto a = to_fixed_string<E, CharT>(v);
	const auto b = to_fixed_string<E, CharT>(w);
	std::basic_string<CharT> s;
	for (long c: t) s += static_cast<CharT>(c);
	const std::basic_string_view<CharT> sv = s;
	const CharT * const z = s.c_str();
	return {a == b, a != b, a == sv, sv == a, a != sv, a == z, z == a};
}
template <typename V> void add(const char * name, const char * enc = "base16") {
	constexpr size_t N = V{}.size();
	static_assert(sizeof(V) == N);
	ops o;
	o.n = N;
	o.enc = enc;
	o.parse = [](int form, int chart, const text & t) -> std::optional<bytes> {
		switch (chart) {
			case 0: return parse_one<V, char>(form, t);
			case 1: return parse_one<V, wchar_t>(form, t);
			case 2: return parse_one<V, char8_t>(form, t);
			case 3: return parse_one<V, char16_t>(form, t);
			default: return parse_one<V, char32_t>(form, t);
		}
	};
	o.zero = [](int how) {
		alignas(V) static unsigned char mem[sizeof(V)];
		std::memset(mem, 0xA5, sizeof mem);
		V * p = nullptr;
		switch (how) {
			case 0: p = ::new (static_cast<void *>(mem)) V; break;
			case 1: p = ::new (static_cast<void *>(mem)) V(); break;
			default: p = ::new (static_cast<void *>(mem)) V{}; break;
		}
		std::launder(p);
		asm volatile("" : : "r"(mem) : "memory");
		bytes b = get(*p);
		return b;
	};
	o.print = [](int how, int chart, const bytes & b) -> std::optional<text> {
		const V v = mk<V>(b);
		switch (chart) {
			case 0: return print_one<V, char>(how, v);
			case 1: return how < 2 ? std::optional<text>{} : print_one<V, wchar_t>(how, v);
			default: return std::nullopt;
		}
	};
	o.printas = [](int how, int chart, const std::string & enc, const bytes & b) {
		const V v = mk<V>(b);
		return with_enc(enc, [&]<typename E>(E) -> std::optional<text> {
			switch (chart) {
				case 0: return printas_one<V, char, E>(how, v);
				case 1: return printas_one<V, wchar_t, E>(how, v);
#ifndef VERIF_FEWCHARS
				case 2: return printas_one<V, char8_t, E>(how, v);
				case 3: return printas_one<V, char16_t, E>(how, v);
				case 4: return printas_one<V, char32_t, E>(how, v);
#endif
				default: return std::nullopt;
			}
		});
	};
	o.cmp = [](const bytes & a, const bytes & b) { return compare(mk<V>(a), mk<V>(b)); };
	o.cuts = [](bool suffix, const bytes & b) {
		const V v = mk<V>(b);
		std::vector<bytes> r;
		[&]<size_t... K>(std::index_sequence<K...>) {
			// of long values, not every length
			constexpr auto at = [](size_t k) { return N <= 100 || k < 3 ? k : k == 3 ? size_t{64} : k == 4 ? size_t{255} : k == 5 ? size_t{256} : k == 6 ? N - 3 : k == 7 ? N - 1 : N; };
			((suffix ? r.push_back(get(v.template suffix<at(K)>())) : r.push_back(get(v.template prefix<at(K)>()))), ...);
		}(std::make_index_sequence<(N <= 100 ? N + 1 : 9)>());
		return r;
	};
	o.format = [](int way, int chart, const std::vector<long> & fs, const bytes & b) {
		const V v = mk<V>(b);
		return chart == 0 ? format_one<char>(fs, v, way) : format_one<wchar_t>(fs, v, way);
	};
	o.fmtview = [](int way, int chart, const std::string & enc, const std::vector<long> & fs, const bytes & b) -> std::optional<text> {
		const V v = mk<V>(b);
		return with_enc(enc, [&]<typename E>(E) -> std::optional<text> {
#ifndef VERIF_SINGLE_HEADER
			if (chart == 0) return format_one<char>(fs, v | cthash::encode_to<E, char>, way);
			return format_one<wchar_t>(fs, v | cthash::encode_to<E, wchar_t>, way);
#else
			return std::nullopt;
#endif
		});
	};
	o.fseq = [](int chart, const std::string & enc, const bytes & b, const bytes & d, const text & t) {
		const V v = mk<V>(b), w = mk<V>(d);
		return with_enc(enc, [&]<typename E>(E) -> std::array<int, 7> {
			switch (chart) {
				case 1: return fseq_one<V, wchar_t, E>(v, w, t);
#ifndef VERIF_FEWCHARS
				case 2: return fseq_one<V, char8_t, E>(v, w, t);
				case 3: return fseq_one<V, char16_t, E>(v, w, t);
				case 4: return fseq_one<V, char32_t, E>(v, w, t);
#endif
				default: return fseq_one<V, char, E>(v, w, t);
			}
		});
	};
	registry()[name] = o;
}
} // namespace vv
