// Drives the real chunk-of-bits views and their iterators.
//  V bits padded elem form const hex   new view      b i  begin      c i j  copy      + i  ++      p i j  j = i++
//  d i  "d v:m:p"    e i  "x 0|1"    q i j  "q 0|1"    t  "t v:m:p ..."    z  "z size"    r hex  refill    w moved  replaced by a copy    m k value
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <forward_list>
#include <fstream>
#include <functional>
#include <list>
#include <malloc.h>
#include <map>
#include <memory>
#include <numeric>
#include <span>
#include <sstream>
#include <string>
#include <tuple>
#include <unistd.h>
#include <vector>
#ifdef VERIF_SINGLE_HEADER
#include <cthash-single-header.hpp>
#else
#include <cthash/cthash.hpp>
#endif
using u64 = unsigned long long;
using bytes = std::vector<uint8_t>;
struct iter {
	virtual ~iter() = default;
	virtual std::unique_ptr<iter> copy() const = 0;
	virtual void assign(const iter &) = 0;
	virtual void inc() = 0;
	virtual std::unique_ptr<iter> post() = 0;
	virtual std::string deref() const = 0;
	virtual bool end() const = 0;
	virtual int equal(const iter &) const = 0; // -1: not offered
};
struct view {
	virtual ~view() = default;
	virtual std::unique_ptr<iter> begin() = 0;
	virtual std::string iterate() = 0;
	virtual long size() = 0; // -1: not offered
	virtual void reseat(bool moved) = 0;
	virtual bool mutate(size_t k, u64 v) = 0;
	virtual bool refill(const bytes & b) = 0; // other elements in the viewed container
};
using key = std::tuple<int, int, int>; // bits, padded, element kind
using factory = std::function<std::unique_ptr<view>(int form, bool cnst, const bytes &)>;
std::map<key, factory> & registry();
template <typename R> static std::string show(const R & r) { return std::to_string(u64(r.value)) + ':' + std::to_string(u64(r.missing_bits)) + ':' + std::to_string(u64(r.is_padding())); }

template <typename V, typename It> struct iter_impl: iter {
	V * v;
	It it;
	iter_impl(V * v_, It it_): v{v_}, it{std::move(it_)} { }
	std::unique_ptr<iter> copy() const override { return std::make_unique<iter_impl>(v, it); }
	void assign(const iter & o) override { it = dynamic_cast<const iter_impl &>(o).it; }
	void inc() override { auto & r = ++it; if (&r != &it) std::abort(); }
	std::unique_ptr<iter> post() override { return std::make_unique<iter_impl>(v, it++); }
	std::string deref() const override { return show(*it); }
	bool end() const override {
		bool a = (it == v->end()), b = (v->end() == it), c = (it != v->end());
		if (a != b || a == c) std::abort();
		return a;
	}
	int equal(const iter & o) const override {
		if constexpr (requires(const It & x) { x == x; }) {
			const It & i = dynamic_cast<const iter_impl &>(o).it;
			bool a = (it == i), b = (i == it), c = (it != i);
			if (a != b || a == c) std::abort();
			return a;
		} else {
			return -1;
		}
	}
};
template <typename C> static C container(const bytes & b) {
	using E = typename C::value_type;
	std::vector<E> w;
	for (size_t i = 0; i + sizeof(E) <= b.size(); i += sizeof(E)) {
		u64 v = 0;
		for (size_t j = 0; j != sizeof(E); ++j) v = v << 8 | b[i + j];
		w.push_back(static_cast<E>(v));
	}
	return C(w.begin(), w.end());
}
template <typename C, typename D, typename V, bool Const> struct view_impl: view {
	std::unique_ptr<D> data; // what the view looks at, if it does not own it
	std::unique_ptr<V> v;
	using VV = std::conditional_t<Const, const V, V>;
	VV & get() { return *v; }
	std::unique_ptr<iter> begin() override {
		using It = decltype(get().begin());
		return std::make_unique<iter_impl<VV, It>>(&get(), get().begin());
	}
	std::string iterate() override {
		std::string s;
		for (auto r: get()) s += ' ' + show(r);
		return s;
	}
	long size() override {
		if constexpr (requires { get().size(); }) return static_cast<long>(get().size());
		else return -1;
	}
	void reseat(bool moved) override { v = moved ? std::make_unique<V>(std::move(*v)) : std::make_unique<V>(*v); }
	bool refill(const bytes & b) override {
		if constexpr (std::same_as<C, D>) {
			if (!data) return false;
			*data = container<D>(b);
			return true;
		}
		return false;
	}
	bool mutate(size_t k, u64 x) override {
		if (!data) return false;
		auto it = data->begin();
		std::ranges::advance(it, static_cast<ptrdiff_t>(k));
		*it = static_cast<typename D::value_type>(x);
		return true;
	}
};
template <size_t Bits, bool Pad, typename C, bool Const> static std::unique_ptr<view> make(int form, const bytes & b) {
	constexpr auto act = cthash::chunk_of_bits<Bits, Pad>;
	if (form == 0) { // of an object that lives elsewhere
		using V = decltype(std::declval<C &>() | act);
		auto p = std::make_unique<view_impl<C, C, V, Const>>();
		p->data = std::make_unique<C>(container<C>(b));
		p->v.reset(new V(*p->data | act));
		return p;
	} else if (form == 1) { // of a temporary
		using V = decltype(std::declval<C>() | act);
		auto p = std::make_unique<view_impl<C, C, V, Const>>();
		p->v.reset(new V(container<C>(b) | act));
		return p;
	} else if (form == 2) { // of a constant object
		using V = decltype(std::declval<const C &>() | act);
		auto p = std::make_unique<view_impl<C, C, V, Const>>();
		p->data = std::make_unique<C>(container<C>(b));
		p->v.reset(new V(std::as_const(*p->data) | act));
		return p;
	} else if constexpr (requires(C & c) { c.data(); }) { // of a span over it
		using S = std::span<const typename C::value_type>;
		using V = decltype(std::declval<S>() | act);
		auto p = std::make_unique<view_impl<S, C, V, Const>>();
		p->data = std::make_unique<C>(container<C>(b));
		p->v.reset(new V(S(*p->data) | act));
		return p;
	}
	return nullptr;
}
template <size_t Bits, bool Pad, int Elem, typename C> static void add() {
	if constexpr (std::lcm(Bits, sizeof(typename C::value_type) * 8u) <= 64u) {
		registry()[{int(Bits), Pad, Elem}] = [](int form, bool cn, const bytes & b) { return cn ? make<Bits, Pad, C, true>(form, b) : make<Bits, Pad, C, false>(form, b); };
	}
}
template <size_t Bits, bool Pad> static void adds() {
	add<Bits, Pad, 0, std::vector<uint8_t>>();
	add<Bits, Pad, 3, std::vector<std::byte>>();
	add<Bits, Pad, 4, std::list<uint8_t>>();
	add<Bits, Pad, 11, std::vector<int16_t>>();
	add<Bits, Pad, 20, std::vector<uint32_t>>();
	add<Bits, Pad, 31, std::vector<int64_t>>();
}
#ifdef VERIF_CHUNKS
template <size_t... B> static void addall() { ((adds<B, false>(), adds<B, true>()), ...); }
static const bool registered = (addall<VERIF_CHUNKS>(), true);
#endif
#ifdef VERIF_MAIN
std::map<key, factory> & registry() { static std::map<key, factory> r; return r; }
static std::string out;
static int fd = 1;
static void flush() {
	size_t o = 0;
	while (o < out.size()) { ssize_t r = write(fd, out.data() + o, out.size() - o); if (r <= 0) _exit(9); o += static_cast<size_t>(r); }
	out.clear();
}
static void on_signal(int sig) {
	flush();
	char b[32];
	int n = std::snprintf(b, sizeof b, "X %d\n", sig);
	(void)!write(fd, b, static_cast<size_t>(n));
	_exit(0);
}
int main(int argc, char ** argv) {
	mallopt(M_PERTURB, 0xB5); // fresh memory is not zero
	if (argc < 3) return 9;
	std::ifstream in(argv[1]);
	FILE * f = std::fopen(argv[2], "w");
	if (!in || !f) return 9;
	fd = fileno(f);
	struct sigaction sa{};
	sa.sa_handler = on_signal;
	for (int s: {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
	alarm(argc > 3 ? static_cast<unsigned>(std::atoi(argv[3])) : 300u);
	std::unique_ptr<view> v;
	std::map<int, std::unique_ptr<iter>> its;
	std::string ln;
	while (std::getline(in, ln)) {
		std::istringstream is(ln);
		std::string op;
		int i, j;
		is >> op;
		if (op == "S" || op.empty()) { its.clear(); v.reset(); }
		else if (op == "V") {
			int x, y, z, form, cn;
			std::string hex;
			is >> x >> y >> z >> form >> cn >> hex;
			bytes d;
			for (size_t k = 1; k + 1 < hex.size(); k += 2) d.push_back(static_cast<uint8_t>(std::stoi(hex.substr(k, 2), nullptr, 16)));
			its.clear();
			v = registry().at({x, y, z})(form, cn != 0, d);
			if (!v) return 9;
		}
		else if (op == "b") { is >> i; its[i] = v->begin(); }
		else if (op == "c") { is >> i >> j; if (its.count(j)) its[j]->assign(*its.at(i)); else its[j] = its.at(i)->copy(); }
		else if (op == "+") { is >> i; its.at(i)->inc(); }
		else if (op == "p") { is >> i >> j; auto r = its.at(i)->post(); if (its.count(j)) its[j]->assign(*r); else its[j] = std::move(r); }
		else if (op == "d") { is >> i; out += "d " + its.at(i)->deref() + "\n"; }
		else if (op == "e") { is >> i; out += its.at(i)->end() ? "x 1\n" : "x 0\n"; }
		else if (op == "q") { is >> i >> j; out += "q " + std::to_string(its.at(i)->equal(*its.at(j))) + "\n"; }
		else if (op == "t") { out += "t" + v->iterate() + "\n"; }
		else if (op == "z") { out += "z " + std::to_string(v->size()) + "\n"; }
		else if (op == "w") { is >> i; its.clear(); v->reseat(i != 0); }
		else if (op == "r") {
			std::string hex;
			is >> hex;
			bytes d;
			for (size_t k = 1; k + 1 < hex.size(); k += 2) d.push_back(static_cast<uint8_t>(std::stoi(hex.substr(k, 2), nullptr, 16)));
			its.clear();
			if (!v->refill(d)) return 9;
		}
		else if (op == "m") { size_t k; u64 x; is >> k >> x; its.clear(); if (!v->mutate(k - 1, x)) return 9; }
		else return 9;
		if (out.size() > (1u << 20)) flush();
	}
	flush();
	return 0;
}
#endif
