// Drives the real encoded views; one output line per observation.
//   E enc form chart const hex  -> "e size codes..."      (size, one iteration; then a second one must be printed equal by the caller's spec)
//   H enc const n               -> "h size"               (announced for n bytes)
//   V enc form const hex        -> a view to work on
//   b i | c i j | a i j | + i | p i j | d i -> "d code" | e i -> "x 0|1" | t -> "t codes" | z -> "z size" | m k v
#include "encdrv.hpp"
#include <csignal>
#include <malloc.h>
#include <fstream>
#include <unistd.h>
namespace ve {
std::map<std::string, sizer> & sizes() {
	static std::map<std::string, sizer> r;
	return r;
}
std::map<std::string, factory> & registry() {
	static std::map<std::string, factory> r;
	return r;
}
}
using namespace ve;
static std::string out;
static int fd = 1;
static void flush() {
	size_t o = 0;
	while (o < out.size()) { ssize_t r = write(fd, out.data() + o, out.size() - o); if (r <= 0) _exit(9); o += static_cast<size_t>(r); }
	out.clear();
}
static void on_signal(int sig) {
	flush();
	char b[32];
	int n = std::snprintf(b, sizeof b, "X %d\n", sig);
	(void)!write(fd, b, static_cast<size_t>(n));
	_exit(0);
}
static bytes unhex(const std::string & s) {
	bytes b;
	for (size_t i = 1; i + 1 < s.size(); i += 2) b.push_back(static_cast<uint8_t>(std::stoi(s.substr(i, 2), nullptr, 16)));
	return b;
}
static void put(const text & t) { for (long c: t) { out += ' '; out += std::to_string(c); } out += '\n'; }
int main(int argc, char ** argv) {
	mallopt(M_PERTURB, 0xB5); // fresh memory is not zero
	if (argc < 3) return 9;
	std::ifstream in(argv[1]);
	FILE * f = std::fopen(argv[2], "w");
	if (!in || !f) return 9;
	fd = fileno(f);
	struct sigaction sa{};
	sa.sa_handler = on_signal;
	for (int s: {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
	alarm(argc > 3 ? static_cast<unsigned>(std::atoi(argv[3])) : 300u);
	std::unique_ptr<view> v;
	std::map<int, std::unique_ptr<iter>> its;
	std::string line;
	while (std::getline(in, line)) {
		std::istringstream is(line);
		std::string op, enc, hex;
		int i, j;
		is >> op;
		if (op == "S" || op.empty()) { its.clear(); v.reset(); }
		else if (op == "E") {
			int form, chart, cn; is >> enc >> form >> chart >> cn >> hex;
			auto w = registry().at(enc)(form, chart, cn, unhex(hex));
			if (!w) return 9;
			out += "e " + std::to_string(w->size());
			put(w->iterate());
		} else if (op == "H") {
			int cn; unsigned long long n; is >> enc >> cn >> n;
			out += "h " + std::to_string(sizes().at(enc)(cn, n)) + "\n";
		} else if (op == "V") {
			int form, cn; is >> enc >> form >> cn >> hex;
			its.clear();
			v = registry().at(enc)(form, 0, cn, unhex(hex));
			if (!v) return 9;
		} else if (op == "b") { is >> i; its[i] = v->begin(); }
		else if (op == "c") { is >> i >> j; if (its.count(j)) its[j]->assign(*its.at(i)); else its[j] = its.at(i)->copy(); }
		else if (op == "+") { is >> i; its.at(i)->inc(); }
		else if (op == "p") { is >> i >> j; auto r = its.at(i)->post(); if (its.count(j)) its[j]->assign(*r); else its[j] = std::move(r); }
		else if (op == "d") { is >> i; out += "d " + std::to_string(its.at(i)->deref()) + "\n"; }
		else if (op == "e") { is >> i; out += its.at(i)->end() ? "x 1\n" : "x 0\n"; }
		else if (op == "t") { out += "t"; put(v->iterate()); }
		else if (op == "z") { out += "z " + std::to_string(v->size()) + "\n"; }
		else if (op == "w") { is >> i; its.clear(); v->reseat(i != 0); }
		else if (op == "r") { is >> hex; its.clear(); if (!v->refill(unhex(hex))) return 9; }
		else if (op == "m") { size_t k; int x; is >> k >> x; its.clear(); if (!v->mutate(k - 1, static_cast<uint8_t>(x))) return 9; }
		else return 9;
		if (out.size() > (1u << 20)) flush();
	}
	flush();
	return 0;
}
