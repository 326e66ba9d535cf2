// Runs a harness function many times, each in a forked child under the scheduler, and writes one JSON
// line per execution: {"id":<seed>,"fam":"<family>","ev":[...]}.
#ifndef RUNNER_H
#define RUNNER_H
#include "vsched.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>

static int r_outfd = -1;
static inline void r_write_all(int fd, const char *p, size_t n) {
	while (n) { ssize_t w = ::write(fd, p, n); if (w <= 0) { if (w < 0 && errno == EINTR) continue; break; } p += w; n -= w; }
}
static inline void r_flush_log() {
	std::string &l = vs_log();
	r_write_all(r_outfd, l.data(), l.size());
	l.clear();
}
[[noreturn]] static inline void r_finish() {
	r_flush_log();
	_exit(0);
}
static inline void r_fatal(VsOutcome o, const std::string &what) {
	std::string w;
	for (char c : what) if (c != '"' && c != '\\' && c >= ' ') w.push_back(c);
	vs_logf("{\"e\":\"%s\",\"what\":\"%s\"}", o == VS_DEADLOCK ? "deadlock" : o == VS_STEPLIMIT ? "livelock" : "misuse", w.c_str());
	r_finish();
}
static inline void r_signal(int sig) {
	vs_stop();
	char b[80];
	r_flush_log();
	int n = snprintf(b, sizeof b, "{\"e\":\"crash\",\"what\":\"signal %d\"}\n", sig);
	r_write_all(r_outfd, b, n);
	_exit(0);
}

// argv: FAMILY FROM TO OUTFILE [JOBS]
static inline int r_main(int argc, char **argv, const std::function<VsConfig(uint64_t, const std::string &)> &cfg,
		const std::function<void(uint64_t, const std::string &)> &one) {
	if (argc < 5) { fprintf(stderr, "usage: %s FAMILY FROM TO OUT [JOBS]\n", argv[0]); return 2; }
	std::string fam = argv[1];
	uint64_t from = strtoull(argv[2], 0, 10), to = strtoull(argv[3], 0, 10);
	std::string out = argv[4];
	int jobs = argc > 5 ? atoi(argv[5]) : 8;
	const bool verbose = getenv("R_VERBOSE");
	std::vector<pid_t> workers;
	for (int j = 0; j < jobs; ++j) {
		pid_t w = fork();
		if (w == 0) {
			FILE *f = fopen((out + "." + std::to_string(j)).c_str(), "w");
			if (!f) _exit(3);
			for (uint64_t s = from + j; s < to; s += jobs) {
				int p[2];
				if (pipe(p)) _exit(3);
				pid_t c = fork();
				if (c == 0) {
					close(p[0]);
					r_outfd = p[1];
					if (!verbose) { int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1); dup2(dn, 2); }
					struct rlimit rl { 120, 120 };
					setrlimit(RLIMIT_CPU, &rl);
					rl = { 0, 0 };
					setrlimit(RLIMIT_CORE, &rl);
					static char alt[65536];
					stack_t ss {}; ss.ss_sp = alt; ss.ss_size = sizeof alt;
					sigaltstack(&ss, nullptr);
					struct sigaction sa {}; sa.sa_handler = r_signal; sa.sa_flags = SA_ONSTACK;
					for (int sg : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGXCPU }) sigaction(sg, &sa, nullptr);
					vs_on_fatal = r_fatal;
					VsConfig cf = cfg(s, fam);
					cf.seed = s * 1000003ull + 17;
					vs_start(cf);
					one(s, fam);
					vs_stop();
					r_finish();
				}
				close(p[1]);
				std::string buf;
				char b[65536];
				ssize_t n;
				while ((n = read(p[0], b, sizeof b)) > 0) buf.append(b, n);
				close(p[0]);
				int st = 0;
				waitpid(c, &st, 0);
				if (!WIFEXITED(st) || WEXITSTATUS(st)) buf += "{\"e\":\"crash\",\"what\":\"status " + std::to_string(st) + "\"}\n";
				for (auto &ch : buf) if (ch == '\n') ch = ',';
				while (!buf.empty() && buf.back() == ',') buf.pop_back();
				fprintf(f, "{\"id\":%llu,\"fam\":\"%s\",\"ev\":[%s]}\n", (unsigned long long)s, fam.c_str(), buf.c_str());
			}
			fclose(f);
			_exit(0);
		}
		workers.push_back(w);
	}
	int rv = 0;
	for (auto w : workers) { int st; waitpid(w, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) rv = 3; }
	// concatenate
	FILE *o = fopen(out.c_str(), "w");
	if (!o) return 3;
	for (int j = 0; j < jobs; ++j) {
		std::string pn = out + "." + std::to_string(j);
		FILE *f = fopen(pn.c_str(), "r");
		if (!f) { rv = 3; continue; }
		char b[65536]; size_t n;
		while ((n = fread(b, 1, sizeof b, f)) > 0) fwrite(b, 1, n, o);
		fclose(f);
		unlink(pn.c_str());
	}
	fclose(o);
	return rv;
}

// a small deterministic generator for programs, independent of the scheduler's choices
struct Rng {
	uint64_t s;
	Rng(uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) { next(); next(); }
	uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545f4914f6cdd1dull >> 11; }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	bool chance(int pct) { return int(below(100)) < pct; }
};

static inline VsConfig r_policy(uint64_t seed, bool mem = true) {
	Rng r(seed ^ 0x5ca1ab1e);
	VsConfig c;
	switch (r.below(4)) {
		case 0: c.policy = 0; c.p_switch = 0.9; break;
		case 1: c.policy = 0; c.p_switch = 0.25; break;
		case 2: c.policy = 1; c.pct_changes = 1 + r.below(5); c.pct_horizon = 100 + r.below(800); break;
		default: c.policy = 2; c.p_switch = 0.1 + 0.05 * r.below(8); break;
	}
	if (r.chance(25)) c.p_spurious = 0.02;
	if (mem && r.chance(50)) c.p_mem = r.chance(50) ? 0.02 : 0.004;
	return c;
}
#endif
