// Type-erased access to the encoded views of the library (public API only).
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#ifdef VERIF_SINGLE_HEADER
#include <cthash-single-header.hpp>
#else
#include <cthash/cthash.hpp>
#endif

namespace ve {
using bytes = std::vector<uint8_t>;
using text = std::vector<long>;

struct iter {
	virtual ~iter() = default;
	virtual std::unique_ptr<iter> copy() const = 0;
	virtual void assign(const iter &) = 0;
	virtual void inc() = 0;
	virtual std::unique_ptr<iter> post() = 0;
	virtual long deref() const = 0;
	virtual bool end() const = 0;
};
struct view {
	virtual ~view() = default;
	virtual std::unique_ptr<iter> begin() = 0;
	virtual text iterate() = 0;
	virtual long size() = 0; // -1: not offered
	virtual bool mutate(size_t k, uint8_t v) = 0;
	virtual bool refill(const bytes & b) = 0; // other content for the viewed container
	virtual void reseat(bool moved) = 0; // replaced by a copy of it, or by what it was moved to
};

template <typename V, typename It> struct iter_impl: iter {
	V * v;
	It it;
	iter_impl(V * v_, It it_): v{v_}, it{std::move(it_)} { }
	std::unique_ptr<iter> copy() const override { return std::make_unique<iter_impl>(v, it); }
	void assign(const iter & o) override { it = dynamic_cast<const iter_impl &>(o).it; }
	void inc() override { auto & r = ++it; if (&r != &it) std::abort(); }
	std::unique_ptr<iter> post() override { return std::make_unique<iter_impl>(v, it++); }
	long deref() const override { return static_cast<long>(*it); }
	bool end() const override {
		bool a = (it == v->end()), b = (v->end() == it), c = (it != v->end());
		if (a != b || a == c) std::abort();
		return a;
	}
};

template <typename T> std::vector<T> conv(const bytes & b) {
	std::vector<T> r;
	for (auto v: b) r.push_back(static_cast<T>(v));
	return r;
}

template <typename C, typename V, bool Const> struct view_impl: view {
	std::unique_ptr<C> data; // what the view looks at
	std::unique_ptr<V> v;
	using VV = std::conditional_t<Const, const V, V>;
	VV & view() { return *v; }
	std::unique_ptr<iter> begin() override {
		using It = decltype(view().begin());
		return std::make_unique<iter_impl<VV, It>>(&view(), view().begin());
	}
	text iterate() override {
		text t;
		for (auto c: view()) t.push_back(static_cast<long>(c));
		return t;
	}
	long size() override {
		if constexpr (requires { view().size(); }) {
			return static_cast<long>(view().size());
		} else {
			return -1;
		}
	}
	void reseat(bool moved) override { v = moved ? std::make_unique<V>(std::move(*v)) : std::make_unique<V>(*v); }
	bool refill(const bytes & b) override {
		if constexpr (std::ranges::range<C>) {
			if (!data) return false;
			const auto t = conv<std::ranges::range_value_t<C>>(b);
			data->assign(t.begin(), t.end());
			return true;
		}
		return false;
	}
	bool mutate(size_t k, uint8_t x) override {
		if constexpr (std::ranges::range<C>) {
			if (!data) return false;
			auto it = std::ranges::begin(*data);
			std::ranges::advance(it, static_cast<ptrdiff_t>(k));
			*it = static_cast<std::remove_reference_t<decltype(*it)>>(x);
			return true;
		}
		return false;
	}
};

// forms of the input
enum : int { F_UCHAR = 0, F_BYTE = 1, F_CHAR = 2, F_SCHAR = 3, F_LIST = 4, F_FLIST = 5, F_SPAN = 6, F_SV = 7, F_RVALUE = 8, F_STRING = 9, F_DEQUE = 10, F_CHAR8 = 11 };

template <typename Enc, typename CharT, bool Const, typename C> std::unique_ptr<view> lvalue(C c) {
	auto d = std::make_unique<C>(std::move(c));
	using V = decltype(std::declval<C &>() | cthash::encode_to<Enc, CharT>);
	auto p = std::make_unique<view_impl<C, V, Const>>();
	p->v.reset(new V(*d | cthash::encode_to<Enc, CharT>));
	p->data = std::move(d);
	return p;
}
// the view is made from an rvalue C over the bytes of keep
template <typename C, typename D, typename V, bool Const> struct owning: view_impl<int, V, Const> { std::unique_ptr<D> k; };
template <typename Enc, typename CharT, bool Const, typename C, typename D> std::unique_ptr<view> owned(D keep) {
	using V = decltype(std::declval<C>() | cthash::encode_to<Enc, CharT>);
	auto p = std::make_unique<owning<C, D, V, Const>>();
	p->k = std::make_unique<D>(std::move(keep));
	p->v.reset(new V(C(*p->k) | cthash::encode_to<Enc, CharT>));
	return p;
}
template <typename Enc, typename CharT, bool Const> std::unique_ptr<view> make(int form, const bytes & b) {
	switch (form) {
		case F_UCHAR: return lvalue<Enc, CharT, Const>(conv<unsigned char>(b));
#ifndef VERIF_LEAN
		case F_BYTE: return lvalue<Enc, CharT, Const>(conv<std::byte>(b));
		case F_CHAR: return lvalue<Enc, CharT, Const>(conv<char>(b));
		case F_SCHAR: return lvalue<Enc, CharT, Const>(conv<signed char>(b));
		case F_LIST: return lvalue<Enc, CharT, Const>(std::list<unsigned char>(b.begin(), b.end()));
		case F_FLIST: return lvalue<Enc, CharT, Const>(std::forward_list<unsigned char>(b.begin(), b.end()));
		case F_DEQUE: return lvalue<Enc, CharT, Const>(std::deque<unsigned char>(b.begin(), b.end()));
		case F_STRING: return lvalue<Enc, CharT, Const>(std::string(b.begin(), b.end()));
		case F_CHAR8: return lvalue<Enc, CharT, Const>(conv<char8_t>(b));
		case F_SPAN: return owned<Enc, CharT, Const, std::span<const std::byte>>(conv<std::byte>(b));
		case F_SV: return owned<Enc, CharT, Const, std::string_view>(std::string(b.begin(), b.end()));
		case F_RVALUE: return owned<Enc, CharT, Const, std::vector<unsigned char>>(b);
#endif
	}
	return nullptr;
}

// the announced size for n bytes (never looked at)
using sizer = std::function<size_t(bool cnst, size_t n)>;
std::map<std::string, sizer> & sizes(); // defined once: two compilers would name its static differently
template <typename Enc> size_t size_of(bool cnst, size_t n) {
	auto v = std::span<const std::byte>(reinterpret_cast<const std::byte *>(alignof(std::max_align_t)), n) | cthash::encode_to<Enc, char>;
	return cnst ? std::as_const(v).size() : v.size();
}

using factory = std::function<std::unique_ptr<view>(int form, int chart, bool cnst, const bytes &)>;
std::map<std::string, factory> & registry(); // defined once: two compilers would name its static differently

template <typename Enc> std::unique_ptr<view> make_any(int form, int chart, bool cnst, const bytes & b) {
	switch (chart) {
		case 0: return cnst ? make<Enc, char, true>(form, b) : make<Enc, char, false>(form, b);
#ifndef VERIF_LEAN
		case 1: return form == 0 ? make<Enc, wchar_t, true>(form, b) : nullptr;
		case 2: return form == 0 ? make<Enc, char8_t, true>(form, b) : nullptr;
		case 3: return form == 0 ? make<Enc, char16_t, true>(form, b) : nullptr;
		case 4: return form == 0 ? make<Enc, char32_t, true>(form, b) : nullptr;
#endif
	}
	return nullptr;
}
} // namespace ve
