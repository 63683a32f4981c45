// Drives the real digest values; one output line per observation.
//  P type form chart c,c,..  -> "p bytes"    (- if not offered)
//  D type how                -> "p bytes"
//  T type how chart hex      -> "t codes"
//  U type how chart enc hex  -> "t codes"
//  C type hex hex            -> "c 7 numbers"
//  K fn n k hex hex          -> "c 7 numbers"
//  X type s hex              -> "x hex hex .."
//  F type way chart c,c,.. hex     -> "t codes" or "r"
//  G type way chart enc c,c,.. hex -> "t codes" or "r"
//  E type chart enc hex hex c,c,.. -> "c 7 numbers"
#include "valdrv.hpp"
#include <csignal>
#include <malloc.h>
#include <fstream>
#include <unistd.h>
namespace vv {
std::map<std::string, ops> & registry() {
	static std::map<std::string, ops> r;
	return r;
}
}
using namespace vv;
static std::string out;
static int fd = 1;
static void flush() {
	size_t o = 0;
	while (o < out.size()) { ssize_t r = write(fd, out.data() + o, out.size() - o); if (r <= 0) _exit(9); o += static_cast<size_t>(r); }
	out.clear();
}
static void on_signal(int sig) {
	flush();
	char b[32];
	int n = std::snprintf(b, sizeof b, "X %d\n", sig);
	(void)!write(fd, b, static_cast<size_t>(n));
	_exit(0);
}
static bytes unhex(const std::string & s) {
	bytes b;
	for (size_t i = 1; i + 1 < s.size(); i += 2) b.push_back(static_cast<uint8_t>(std::stoi(s.substr(i, 2), nullptr, 16)));
	return b;
}
static text list(const std::string & s) {
	text t;
	std::istringstream is(s);
	std::string x;
	while (std::getline(is, x, ',')) if (!x.empty()) t.push_back(std::stol(x));
	return t;
}
static void put(const char * k, const bytes & b) { out += k; for (auto c: b) { out += ' '; out += std::to_string(int(c)); } out += '\n'; }
static void put(const char * k, const text & t) { out += k; for (auto c: t) { out += ' '; out += std::to_string(c); } out += '\n'; }
template <typename O> static void opt(const char * k, const O & o, const char * none) { if (o) put(k, *o); else { out += none; out += '\n'; } }
using cmpfn = std::function<std::array<int, 7>(const bytes &, const bytes &)>;
static std::map<std::tuple<int, int, int>, cmpfn> shakes;
template <size_t N, size_t K> static void pair() {
	shakes[{128, int(N), int(K)}] = [](const bytes & a, const bytes & b) { return compare(mk<cthash::shake128_value<N>>(a), mk<cthash::shake128_value<K>>(b)); };
	shakes[{256, int(N), int(K)}] = [](const bytes & a, const bytes & b) { return compare(mk<cthash::shake256_value<N>>(a), mk<cthash::shake256_value<K>>(b)); };
}
template <size_t N, size_t... K> static void row(std::index_sequence<K...>) { (pair<N, (K)>(), ...); }
template <size_t... N> static void all() { (row<N>(std::index_sequence<N...>{}), ...); }
int main(int argc, char ** argv) {
	mallopt(M_PERTURB, 0xB5); // fresh memory is not zero
	if (argc < 3) return 9;
	all<8, 16, 24, 32, 64, 72, 128, 256, 264, 512, 1344, 1352, 2048, 4096>();
	std::ifstream in(argv[1]);
	FILE * f = std::fopen(argv[2], "w");
	if (!in || !f) return 9;
	fd = fileno(f);
	struct sigaction sa{};
	sa.sa_handler = on_signal;
	for (int s: {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
	alarm(argc > 3 ? static_cast<unsigned>(std::atoi(argv[3])) : 300u);
	std::string ln;
	while (std::getline(in, ln)) {
		std::istringstream is(ln);
		std::string op, t, h, g;
		int a, b, c;
		is >> op;
		if (op == "S" || op.empty()) { }
		else if (op == "P") { is >> t >> a >> b >> h; opt("p", registry().at(t).parse(a, b, list(h)), "-"); }
		else if (op == "D") { is >> t >> a; put("p", registry().at(t).zero(a)); }
		else if (op == "T") { is >> t >> a >> b >> h; opt("t", registry().at(t).print(a, b, unhex(h)), "-"); }
		else if (op == "U") { is >> t >> a >> b >> g >> h; opt("t", registry().at(t).printas(a, b, g, unhex(h)), "-"); }
		else if (op == "C") { is >> t >> h >> g; const auto r = registry().at(t).cmp(unhex(h), unhex(g)); out += "c"; for (int x: r) out += " " + std::to_string(x); out += '\n'; }
		else if (op == "K") { is >> a >> b >> c >> h >> g; const auto r = shakes.at({a, b, c})(unhex(h), unhex(g)); out += "c"; for (int x: r) out += " " + std::to_string(x); out += '\n'; }
		else if (op == "X") { is >> t >> a >> h; out += "x"; for (const auto & v: registry().at(t).cuts(a != 0, unhex(h))) { out += " x"; for (auto q: v) { char z[3]; std::snprintf(z, 3, "%02x", q); out += z; } } out += '\n'; }
		else if (op == "F") { is >> t >> a >> b >> g >> h; opt("t", registry().at(t).format(a, b, list(g), unhex(h)), "r"); }
		else if (op == "G") { std::string e; is >> t >> a >> b >> e >> g >> h; opt("t", registry().at(t).fmtview(a, b, e, list(g), unhex(h)), "r"); }
		else if (op == "E") { std::string e, w; is >> t >> a >> e >> h >> w >> g; const auto r = registry().at(t).fseq(a, e, unhex(h), unhex(w), list(g)); out += "c"; for (int x: r) out += " " + std::to_string(x); out += '\n'; }
		else return 9;
		if (out.size() > (1u << 20)) flush();
	}
	flush();
	return 0;
}
