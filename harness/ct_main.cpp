#include "ct.hpp"
#include <csignal>
#include <unistd.h>
FILE * ct::out = nullptr;
extern void run_all();
static void on_signal(int sig) {
	std::fprintf(ct::out, "X %d\n", sig);
	std::fflush(ct::out);
	_exit(0);
}
int main(int argc, char ** argv) {
	if (argc < 2) return 9;
	ct::out = std::fopen(argv[1], "w");
	if (!ct::out) return 9;
	for (int s: {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM, SIGTRAP}) std::signal(s, on_signal);
	alarm(200);
	run_all();
	std::fclose(ct::out);
	return 0;
}
