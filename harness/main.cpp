// Executes a command file against the real hash objects and records what
// each public call returned.  One command per line; one output line per
// observation.  A crash, an assertion failure or a hang is recorded as the
// observation "X <signal>" of the command being executed.
#include "hobj.hpp"
#include <atomic>
#include <barrier>
#include <csignal>
#include <malloc.h>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <new>
#include <sstream>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>

using namespace vh;

// ---- allocation counting (whole process; malloc/calloc/realloc/operator new)
static thread_local long g_allocs = 0;
extern "C" void * __libc_malloc(size_t);
extern "C" void * __libc_calloc(size_t, size_t);
extern "C" void * __libc_realloc(void *, size_t);
#ifndef VERIF_SANITIZE
extern "C" void * malloc(size_t n) { ++g_allocs; return __libc_malloc(n); }
extern "C" void * calloc(size_t a, size_t b) { ++g_allocs; return __libc_calloc(a, b); }
extern "C" void * realloc(void * p, size_t b) { ++g_allocs; return __libc_realloc(p, b); }
#endif
long vh::alloc_count() { return g_allocs; }

std::map<std::string, alg> & vh::registry() {
	static std::map<std::string, alg> r;
	return r;
}

guarded_out::guarded_out() {
	uint8_t * m = static_cast<uint8_t *>(mmap(nullptr, cap + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	mprotect(m + cap, 4096, PROT_NONE);
	base = m;
}
uint8_t * guarded_out::place(size_t n) {
	std::memset(base, 0xC3, cap);
	return base + cap - n;
}
bool guarded_out::intact(size_t n) const {
	for (size_t i = 0; i < cap - n; ++i)
		if (base[i] != 0xC3) return false;
	return true;
}
guarded_out & vh::outbuf() {
	static thread_local guarded_out g;
	return g;
}

// ---- input arena with unmapped pages on both sides
struct arena {
	uint8_t * lo{nullptr};
	size_t cap{0};
	void reserve(size_t n) {
		if (n <= cap) return;
		if (lo) munmap(lo - 4096, cap + 8192);
		cap = (n + 4095) / 4096 * 4096 * 2;
		uint8_t * m = static_cast<uint8_t *>(mmap(nullptr, cap + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		if (m == MAP_FAILED) { std::perror("mmap"); _exit(9); }
		mprotect(m, 4096, PROT_NONE);
		mprotect(m + 4096 + cap, 4096, PROT_NONE);
		lo = m + 4096;
	}
	// flush against the upper or the lower guard page
	const uint8_t * put(const uint8_t * p, size_t n, bool upper) {
		reserve(n ? n : 1);
		uint8_t * d = upper ? lo + cap - n : lo;
		if (n) std::memcpy(d, p, n);
		return d;
	}
};

// ---- pseudo-random streams (splitmix64; the check's script knows the same function)
static std::map<long, bytes> g_streams;
static uint64_t splitmix(uint64_t & x) {
	uint64_t z = (x += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
static const bytes & stream(long k, size_t n) {
	auto & b = g_streams[k];
	if (b.size() < n) {
		size_t want = (n + 65535) / 65536 * 65536;
		uint64_t x = static_cast<uint64_t>(k) * 0x100000001B3ull + 12345;
		b.resize(want);
		for (size_t i = 0; i < want; i += 8) {
			uint64_t v = splitmix(x);
			for (size_t j = 0; j < 8; ++j) b[i + j] = static_cast<uint8_t>(v >> (8 * j));
		}
	}
	return b;
}

static bytes unhex(const std::string & s) {
	bytes b;
	for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(static_cast<uint8_t>(std::stoi(s.substr(i, 2), nullptr, 16)));
	return b;
}
static void put_hex(std::string & o, const bytes & b) {
	static const char d[] = "0123456789abcdef";
	for (auto v: b) { o += d[v >> 4]; o += d[v & 15]; }
}

static std::string g_out;
static int g_outfd = 1;
static void flush_out() {
	size_t o = 0;
	while (o < g_out.size()) {
		ssize_t r = write(g_outfd, g_out.data() + o, g_out.size() - o);
		if (r <= 0) _exit(9);
		o += static_cast<size_t>(r);
	}
	g_out.clear();
}
static void on_signal(int sig) {
	flush_out();
	char b[32];
	int n = std::snprintf(b, sizeof b, "X %d\n", sig);
	(void)!write(g_outfd, b, static_cast<size_t>(n));
	_exit(0);
}

// data argument: "s<k>:<off>:<len>" slice of stream k, "x<hex>" literal bytes,
// "r<byte>:<len>" repetition, "n" null pointer and size 0
struct data_ref { const uint8_t * p; size_t n; };
static bytes g_tmp;
static data_ref parse_data(const std::string & a) {
	if (a[0] == 's') {
		long k; unsigned long off, len;
		std::sscanf(a.c_str() + 1, "%ld:%lu:%lu", &k, &off, &len);
		return {stream(k, off + len).data() + off, len};
	} else if (a[0] == 'x') {
		g_tmp = unhex(a.substr(1));
	} else if (a[0] == 'r') {
		unsigned v; unsigned long len;
		std::sscanf(a.c_str() + 1, "%u:%lu", &v, &len);
		g_tmp.assign(len, static_cast<uint8_t>(v));
	} else if (a[0] == 'j') { // j<k>:<a>:<b>,<k>:<a>:<b>...  concatenated slices a..b-1
		std::istringstream in(a.substr(1));
		std::string part;
		g_tmp.clear();
		while (std::getline(in, part, ',')) {
			long k; unsigned long x, y;
			std::sscanf(part.c_str(), "%ld:%lu:%lu", &k, &x, &y);
			const uint8_t * q = stream(k, y).data();
			g_tmp.insert(g_tmp.end(), q + x, q + y);
		}
	} else {
		return {nullptr, 0};
	}
	return {g_tmp.data(), g_tmp.size()};
}
static uint64_t fnv(const bytes & b) {
	uint64_t h = 0xcbf29ce484222325ull;
	for (auto v: b) h = (h ^ v) * 0x100000001b3ull;
	return h ^ b.size();
}

// ---- huge contiguous inputs: one 16 MiB pattern mapped over and over
struct huge {
	static constexpr size_t period = 16u << 20;
	std::string key;
	uint8_t * base{nullptr};
	size_t len{0};
	const uint8_t * get(const std::string & k, size_t n, const std::function<void(uint8_t *)> & fillin) {
		n = (n + period - 1) / period * period;
		if (k == key && n <= len) return base;
		if (base) munmap(base, len);
		int fd = memfd_create("pattern", 0);
		if (fd < 0 || ftruncate(fd, period)) { std::perror("memfd"); _exit(9); }
		uint8_t * w = static_cast<uint8_t *>(mmap(nullptr, period, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		fillin(w);
		munmap(w, period);
		base = static_cast<uint8_t *>(mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		if (base == MAP_FAILED) { std::perror("mmap"); _exit(9); }
		for (size_t o = 0; o < n; o += period)
			if (mmap(base + o, period, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { std::perror("mmap"); _exit(9); }
		close(fd);
		key = k; len = n;
		return base;
	}
	const uint8_t * of_stream(long k, size_t n) {
		return get("s" + std::to_string(k), n, [&](uint8_t * w) { std::memcpy(w, stream(k, period).data(), period); });
	}
	const uint8_t * of_stripe(const std::string & hex, size_t n) {
		bytes b = unhex(hex);
		return get("x" + hex, n, [&](uint8_t * w) { for (size_t i = 0; i < period; ++i) w[i] = b[i % b.size()]; });
	}
};
static huge g_huge;
// "s<k>" or "x<hex>" pattern
static const uint8_t * pattern(const std::string & d, size_t n) {
	return d[0] == 's' ? g_huge.of_stream(std::atol(d.c_str() + 1), n) : g_huge.of_stripe(d.substr(1), n);
}

// objects shared (read only) by the threads of a T block
static std::map<long, std::unique_ptr<obj>> g_shared;

struct worker {
	std::map<long, std::unique_ptr<obj>> objs;
	std::map<long, std::string> names;
	arena ar;
	std::string out;
	unsigned parity{0};
	bool guard{true};
	long effects{0};

	void exec(const std::string & line) {
		std::istringstream in(line);
		std::string op;
		in >> op;
		if (op == "S") { objs.clear(); return; }
		if (op == "G") { in >> guard; return; }
		if (op == "N") { // N id alg seed
			long id; std::string a; uint64_t seed; in >> id >> a >> seed;
			auto it = registry().find(a);
			if (it == registry().end()) { std::fprintf(stderr, "no algorithm %s\n", a.c_str()); _exit(9); }
			objs[id] = it->second.make(seed);
			return;
		}
		if (op == "U") { // U id via data  -> "u 0|1"
			long id; int via; std::string d; in >> id >> via >> d;
			data_ref r = parse_data(d);
			const uint8_t * p = r.p;
			if (r.p && guard) p = ar.put(r.p, r.n, (parity++ & 1) == 0);
			long a0 = g_allocs;
			bool ok = objs.at(id)->update(via, p, r.n);
			long a1 = g_allocs;
			if (via < V_VEC_BYTE || via == V_SPAN_CHAR8 || via == V_SPAN_MUT) effects += a1 - a0;
			out += ok ? "u 1\n" : "u 0\n";
			return;
		}
		if (op == "L") { // L id data len...   several update calls of consecutive pieces
			long id; std::string d; in >> id >> d;
			data_ref r = parse_data(d);
			size_t off = 0, n;
			while (in >> n) {
				const uint8_t * p = guard ? ar.put(r.p + off, n, (parity++ & 1) == 0) : r.p + off;
				long a0 = g_allocs;
				objs.at(id)->update(0, p, n);
				effects += g_allocs - a0;
				off += n;
			}
			return;
		}
		if (op == "F") { // F id via n -> "f hex"
			long id; int via; size_t n; in >> id >> via >> n;
			bytes b; b.reserve(65536); bool intact = true;
			long a0 = g_allocs;
			bool ok = objs.at(id)->final(via, n, b, intact);
			long a1 = g_allocs;
			effects += a1 - a0;
			if (!intact) effects += 1000000;
			if (ok) { out += "f "; put_hex(out, b); out += "\n"; } else out += "f -\n";
			return;
		}
		if (op == "Y") { // Y id via data -> "y hex": update_and_final
			long id; int via; std::string d; in >> id >> via >> d;
			data_ref r = parse_data(d);
			const uint8_t * p = r.p;
			if (r.p && guard) p = ar.put(r.p, r.n, (parity++ & 1) == 0);
			bytes b; b.reserve(64);
			long a0 = g_allocs;
			bool ok = objs.at(id)->update_and_final(via, p, r.n, b);
			effects += g_allocs - a0;
			if (ok) { out += "y "; put_hex(out, b); out += "\n"; } else out += "y -\n";
			return;
		}
		if (op == "R") { // R id k off n0 n1 want: digests of copies fed n more bytes, n0 <= n <= n1
			long id, k; size_t off, n0, n1, want; in >> id >> k >> off >> n0 >> n1 >> want;
			const uint8_t * p = stream(k, off + n1).data() + off;
			out += "r";
			for (size_t n = n0; n <= n1; ++n) {
				auto c = objs.at(id)->copy();
				c->update(0, p, n);
				bytes b; bool intact = true;
				c->final(0, want, b, intact);
				out += ' '; out += std::to_string(fnv(b));
			}
			out += "\n";
			return;
		}
		if (op == "P") { long k; size_t n; in >> k >> n; stream(k, n); return; }
		if (op == "PS") { long o, id; in >> o >> id; g_shared[id] = objs.at(o)->copy(); return; } // publish
		if (op == "Q") { long id, o; in >> id >> o; objs[o] = g_shared.at(id)->copy(); return; }
		if (op == "QF") { // digest of a shared object whose final() is const
			long id; int via; in >> id >> via;
			bytes b; bool intact = true;
			g_shared.at(id)->final(via, 0, b, intact);
			out += "f "; put_hex(out, b); out += "\n";
			return;
		}
		if (op == "H") { // H id pattern off n: one piece, bytes off..off+n-1 of the repeated pattern
			long id; std::string d; size_t off, n; in >> id >> d >> off >> n;
			const uint8_t * p = pattern(d, off + n) + off;
			objs.at(id)->update(0, p, n);
			return;
		}
		if (op == "HC") { // HC id pattern from to maxpiece seed: many pieces
			long id; std::string d; size_t a, b, mx; uint64_t seed; in >> id >> d >> a >> b >> mx >> seed;
			const uint8_t * p = pattern(d, b);
			while (a < b) {
				size_t n = std::min<size_t>(b - a, splitmix(seed) % (mx + 1));
				objs.at(id)->update(0, p + a, n);
				a += n;
			}
			return;
		}
		if (op == "HO") { // HO alg seed via pattern n: one-shot on the first n bytes
			std::string a, d; uint64_t seed; int via; size_t n; in >> a >> seed >> via >> d >> n;
			const uint8_t * p = pattern(d, n);
			bytes b;
			bool ok = registry().at(a).oneshot && registry().at(a).oneshot(via, seed, p, n, 0, b);
			if (ok) { out += "o "; put_hex(out, b); out += "\n"; } else out += "o -\n";
			return;
		}
		if (op == "W") { // W alg seed k n0 n1 want: digests of the prefixes of stream k, each fed as one piece
			std::string a; uint64_t seed; long k; size_t n0, n1, want; in >> a >> seed >> k >> n0 >> n1 >> want;
			const uint8_t * p = stream(k, n1).data();
			out += "r";
			for (size_t n = n0; n <= n1; ++n) {
				auto c = registry().at(a).make(seed);
				c->update(0, p, n);
				bytes b; bool intact = true;
				c->final(0, want, b, intact);
				out += ' '; out += std::to_string(fnv(b));
			}
			out += "\n";
			return;
		}
		if (op == "C") { long a, b; in >> a >> b; objs[b] = objs.at(a)->copy(); return; }
		if (op == "M") { long a, b; in >> a >> b; objs[b] = objs.at(a)->move(); objs.erase(a); return; }
		if (op == "A" || op == "B") { // assignment: b = a  (A copy, B move)
			long a, b; in >> a >> b;
			bool ok = objs.at(b)->assign(*objs.at(a), op == "B");
			if (!ok) { objs[b] = objs.at(a)->copy(); }
			if (op == "B") objs.erase(a);
			out += ok ? "a 1\n" : "a 0\n";
			return;
		}
		if (op == "Z") { // size
			long id; in >> id; uint64_t v = 0;
			bool ok = objs.at(id)->size(v);
			out += ok ? "z " + std::to_string(v) + "\n" : std::string("z -\n");
			return;
		}
		if (op == "D") { long id; in >> id; objs.erase(id); return; }
		if (op == "E") { out += "e " + std::to_string(effects) + "\n"; effects = 0; return; }
		if (op == "O") { // O alg seed via n data -> one-shot digest
			std::string a, d; uint64_t seed; int via; size_t n; in >> a >> seed >> via >> n >> d;
			data_ref r = parse_data(d);
			const uint8_t * p = r.p;
			if (r.p && guard) p = ar.put(r.p, r.n, (parity++ & 1) == 0);
			bytes b; b.reserve(65536);
			long a0 = g_allocs;
			bool ok = registry().at(a).oneshot && registry().at(a).oneshot(via, seed, p, r.n, n, b);
			if (via < V_VEC_BYTE) effects += g_allocs - a0;
			if (ok) { out += "o "; put_hex(out, b); out += "\n"; } else out += "o -\n";
			return;
		}
		std::fprintf(stderr, "bad command: %s\n", line.c_str());
		_exit(9);
	}
};

#ifndef VERIF_NO_MAIN
int main(int argc, char ** argv) {
	mallopt(M_PERTURB, 0xB5); // fresh memory is not zero
	// argv: <command file> <output file> [seconds]
	if (argc < 3) return 9;
	std::ifstream in(argv[1]);
	FILE * f = std::fopen(argv[2], "w");
	if (!in || !f) return 9;
	g_outfd = fileno(f);
	stack_t ss{};
	static char alt[65536];
	ss.ss_sp = alt; ss.ss_size = sizeof alt;
	sigaltstack(&ss, nullptr);
	struct sigaction sa{};
	sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
	for (int s: {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
	alarm(argc > 3 ? static_cast<unsigned>(std::atoi(argv[3])) : 300u);
	worker w;
	std::string line;
	// "T n" ... "T 0": the lines in between are split into n threads by their
	// leading "t<k> " tag and run concurrently; outputs follow in thread order
	while (std::getline(in, line)) {
		if (line.empty()) continue;
		if (line[0] == 'T') {
			int n = std::atoi(line.c_str() + 2);
			std::vector<std::vector<std::string>> ls(static_cast<size_t>(n));
			while (std::getline(in, line) && line[0] != 'T') {
				size_t sp = line.find(' ');
				ls.at(static_cast<size_t>(std::atoi(line.c_str() + 1))).push_back(line.substr(sp + 1));
			}
			std::vector<worker> ws(static_cast<size_t>(n));
			std::barrier<> step(n); // "=" keeps the threads in step
			std::vector<std::thread> ts;
			for (size_t i = 0; i < ws.size(); ++i) ts.emplace_back([&, i] {
				ws[i].guard = false;
				for (auto & c: ls[i]) {
					if (c == "=") step.arrive_and_wait(); else ws[i].exec(c);
				}
				step.arrive_and_drop();
			});
			for (auto & t: ts) t.join();
			for (auto & x: ws) { g_out += x.out; g_out += "t\n"; }
			continue;
		}
		w.exec(line);
		g_out += w.out;
		w.out.clear();
		if (g_out.size() > (1u << 20)) flush_out();
		// keep what a crash handler needs to print
	}
	flush_out();
	return 0;
}
#endif
