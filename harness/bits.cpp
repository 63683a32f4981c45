// Drives the real bit buffers and chunk-of-bits views.
//  N out in                     new bit_buffer<out,in>       B cap: new basic_bit_buffer<cap>
//  push v | pop | align | pad   (each followed by "o size free empty full canpop canpush front|-"; align/pad print "r ret" first)
//  pn n v | zn n | on n | fn n  (basic: push, zeros, pop, front) followed by "k size free empty full"
//  K bits padded elem hex       "c size v:f v:f ..."
#include <csignal>
#include <malloc.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <forward_list>
#include <fstream>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#ifdef VERIF_SINGLE_HEADER
#include <cthash-single-header.hpp>
#else
#include <cthash/cthash.hpp>
#endif
inline std::string out;
inline int fd = 1;
static void flush() {
	size_t o = 0;
	while (o < out.size()) { ssize_t r = write(fd, out.data() + o, out.size() - o); if (r <= 0) _exit(9); o += static_cast<size_t>(r); }
	out.clear();
}
static void on_signal(int sig) {
	flush();
	char b[32];
	int n = std::snprintf(b, sizeof b, "X %d\n", sig);
	(void)!write(fd, b, static_cast<size_t>(n));
	_exit(0);
}
using u64 = unsigned long long;
template <typename... T> static void line(const char * k, T... v) {
	out += k;
	((out += ' ', out += std::to_string(static_cast<u64>(v))), ...);
	out += '\n';
}
struct buf {
	virtual ~buf() = default;
	virtual void push(u64) = 0;
	virtual void pushz() = 0;
	virtual void pop() = 0;
	virtual u64 align() = 0;
	virtual u64 pad() = 0;
	virtual void see() = 0;
};
template <size_t O, size_t I> struct buf_impl: buf {
	cthash::bit_buffer<O, I> b{};
	void push(u64 v) override { b.push(static_cast<typename cthash::bit_buffer<O, I>::in_type>(v)); }
	void pushz() override { b.push_empty(); }
	void pop() override { b.pop(); }
	u64 align() override { return b.push_zeros_to_align(); }
	u64 pad() override { return b.push_zeros_for_padding(); }
	void see() override {
		const auto & c = b;
		out += "o";
		for (u64 v: {u64(c.size()), u64(c.unused_size()), u64(c.empty()), u64(c.full()), u64(c.has_bits_for_pop()), u64(c.has_capacity_for_push())}) { out += ' '; out += std::to_string(v); }
		out += c.has_bits_for_pop() ? " " + std::to_string(u64(c.front())) : std::string(" -");
		out += '\n';
	}
};
// the widths the general buffer is driven with
#ifndef VERIF_WIDTHS
#define VERIF_WIDTHS 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 47, 48, 56, 63, 64
#endif
struct bbuf {
	virtual ~bbuf() = default;
	virtual void push(size_t n, u64 v) = 0;
	virtual void zeros(size_t n) = 0;
	virtual void pop(size_t n) = 0;
	virtual u64 front(size_t n) = 0;
	virtual void see() = 0;
};
template <size_t C> struct bbuf_impl: bbuf {
	cthash::basic_bit_buffer<C> b{};
	template <typename F> static void sel(size_t n, F f) {
		const auto one = [&]<size_t N>() { if constexpr (N <= C) { if (n == N) f.template operator()<N>(); } };
		[&]<size_t... N>(std::index_sequence<N...>) { (one.template operator()<N>(), ...); }(std::index_sequence<VERIF_WIDTHS>());
	}
	void push(size_t n, u64 v) override { sel(n, [&]<size_t N>() { b.template push<N>(static_cast<cthash::select_bit_integer_t<N>>(v)); }); }
	void zeros(size_t n) override { b.push_empty_bits(n); }
	void pop(size_t n) override { sel(n, [&]<size_t N>() { b.template pop<N>(); }); }
	u64 front(size_t n) override { u64 r = 0; sel(n, [&]<size_t N>() { r = b.template front<N>(); }); return r; }
	void see() override { const auto & c = b; line("k", c.size(), c.unused_size(), c.empty(), c.full()); }
};
using key = std::pair<int, int>;
inline std::map<key, std::function<std::unique_ptr<buf>()>> bufs;
template <size_t O, size_t I> static void add() { bufs[{int(O), int(I)}] = [] { return std::make_unique<buf_impl<O, I>>(); }; }
inline std::map<int, std::function<std::unique_ptr<bbuf>()>> bbufs;
template <size_t C> static void addb() { bbufs[int(C)] = [] { return std::make_unique<bbuf_impl<C>>(); }; }

// chunk views
using bytes = std::vector<uint8_t>;
inline std::map<std::tuple<int, int, int>, std::function<void(const bytes &, bool)>> chunks;
template <typename V> static void show(V & v) {
	out += "c ";
	if constexpr (requires { v.size(); }) out += std::to_string(u64(v.size())); else out += "-1";
	auto e = v.end();
	for (auto it = v.begin(); !(it == e); ++it) {
		auto r = *it;
		out += ' ' + std::to_string(u64(r.value)) + ':' + std::to_string(u64(r.missing_bits)) + ':' + std::to_string(u64(r.is_padding()));
	}
	out += '\n';
}
template <size_t Bits, bool Pad, typename C> static void chunk(const bytes & b, bool cn) {
	using E = typename C::value_type;
	std::vector<E> w;
	for (size_t i = 0; i + sizeof(E) <= b.size(); i += sizeof(E)) {
		u64 v = 0;
		for (size_t j = 0; j != sizeof(E); ++j) v = v << 8 | b[i + j];
		w.push_back(static_cast<E>(v));
	}
	C c(w.begin(), w.end());
	auto v = c | cthash::chunk_of_bits<Bits, Pad>;
	if (cn) { const auto & cv = v; show(cv); } else show(v);
}
// elem: 20 u32, 21 i32, 22 list<char32_t>, 30 u64, 31 i64; 0 u8, 1 i8, 2 char, 3 byte, 4 list<u8>, 5 forward_list<u8>, 6 char8_t, 10 u16, 11 i16, 12 list<u16>, 13 char16_t
template <size_t Bits, bool Pad> static void addc() {
	if constexpr (std::lcm(Bits, size_t(8)) <= 64) {
		chunks[{int(Bits), Pad, 0}] = chunk<Bits, Pad, std::vector<uint8_t>>;
		chunks[{int(Bits), Pad, 1}] = chunk<Bits, Pad, std::vector<int8_t>>;
		chunks[{int(Bits), Pad, 2}] = chunk<Bits, Pad, std::vector<char>>;
		chunks[{int(Bits), Pad, 3}] = chunk<Bits, Pad, std::vector<std::byte>>;
		chunks[{int(Bits), Pad, 4}] = chunk<Bits, Pad, std::list<uint8_t>>;
		chunks[{int(Bits), Pad, 5}] = chunk<Bits, Pad, std::forward_list<uint8_t>>;
		chunks[{int(Bits), Pad, 6}] = chunk<Bits, Pad, std::deque<char8_t>>;
	}
	if constexpr (std::lcm(Bits, size_t(16)) <= 64) {
		chunks[{int(Bits), Pad, 10}] = chunk<Bits, Pad, std::vector<uint16_t>>;
		chunks[{int(Bits), Pad, 11}] = chunk<Bits, Pad, std::vector<int16_t>>;
		chunks[{int(Bits), Pad, 12}] = chunk<Bits, Pad, std::list<uint16_t>>;
		chunks[{int(Bits), Pad, 13}] = chunk<Bits, Pad, std::vector<char16_t>>;
	}
	if constexpr (std::lcm(Bits, size_t(32)) <= 64) {
		chunks[{int(Bits), Pad, 20}] = chunk<Bits, Pad, std::vector<uint32_t>>;
		chunks[{int(Bits), Pad, 21}] = chunk<Bits, Pad, std::vector<int32_t>>;
		chunks[{int(Bits), Pad, 22}] = chunk<Bits, Pad, std::list<char32_t>>;
	}
	if constexpr (std::lcm(Bits, size_t(64)) <= 64) {
		chunks[{int(Bits), Pad, 30}] = chunk<Bits, Pad, std::vector<uint64_t>>;
		chunks[{int(Bits), Pad, 31}] = chunk<Bits, Pad, std::vector<int64_t>>;
	}
}
template <size_t... B> static void addall() { ((addc<B, false>(), addc<B, true>()), ...); }

// every geometry whose capacity fits the storage
template <size_t O, size_t... I> static void addrow(std::index_sequence<I...>) {
	([] { if constexpr (std::lcm(O, I) <= 64) add<O, I>(); }(), ...);
}
#ifdef VERIF_OUTS
template <size_t... O> static void addrows(std::index_sequence<O...>) { (addrow<O>(std::index_sequence<VERIF_INS>()), ...); }
static void addgeo() { addrows(std::index_sequence<VERIF_OUTS>()); }
#endif

// compiled in several parts, each registering its share
static const bool registered = [] {
#ifdef VERIF_OUTS
	addgeo();
#endif
#ifdef VERIF_CAPS
	[]<size_t... C>(std::index_sequence<C...>) { (addb<C>(), ...); }(std::index_sequence<VERIF_CAPS>());
#endif
#ifdef VERIF_CHUNKS
	addall<VERIF_CHUNKS>();
#endif
	return true;
}();

#ifdef VERIF_MAIN
int main(int argc, char ** argv) {
	mallopt(M_PERTURB, 0xB5); // fresh memory is not zero
	if (argc < 3) return 9;
	std::ifstream in(argv[1]);
	FILE * f = std::fopen(argv[2], "w");
	if (!in || !f) return 9;
	fd = fileno(f);
	struct sigaction sa{};
	sa.sa_handler = on_signal;
	for (int s: {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
	alarm(argc > 3 ? static_cast<unsigned>(std::atoi(argv[3])) : 300u);
	std::unique_ptr<buf> b;
	std::unique_ptr<bbuf> g;
	std::string ln;
	while (std::getline(in, ln)) {
		std::istringstream is(ln);
		std::string op;
		is >> op;
		u64 v; int x, y, z;
		if (op == "S" || op.empty()) { }
		else if (op == "N") { is >> x >> y; b = bufs.at({x, y})(); b->see(); }
		else if (op == "B") { is >> x; g = bbufs.at(x)(); g->see(); }
		else if (op == "push") { is >> v; b->push(v); b->see(); }
		else if (op == "pushz") { b->pushz(); b->see(); }
		else if (op == "pop") { b->pop(); b->see(); }
		else if (op == "align") { line("r", b->align()); b->see(); }
		else if (op == "pad") { line("r", b->pad()); b->see(); }
		else if (op == "pn") { is >> x >> v; g->push(size_t(x), v); g->see(); }
		else if (op == "zn") { is >> x; g->zeros(size_t(x)); g->see(); }
		else if (op == "on") { is >> x; g->pop(size_t(x)); g->see(); }
		else if (op == "fn") { is >> x; line("f", g->front(size_t(x))); }
		else if (op == "K") {
			std::string hex;
			int cn;
			is >> x >> y >> z >> cn >> hex;
			bytes d;
			for (size_t i = 1; i + 1 < hex.size(); i += 2) d.push_back(static_cast<uint8_t>(std::stoi(hex.substr(i, 2), nullptr, 16)));
			auto it = chunks.find({x, y, z});
			if (it == chunks.end()) return 9;
			it->second(d, cn != 0);
		} else return 9;
		if (out.size() > (1u << 20)) flush();
	}
	flush();
	return 0;
}
#endif
