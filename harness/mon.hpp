// Tiny runtime for self-contained monitor programs: deterministic sharded cases,
// violation/coverage reporting on stdout, and the running case printed if a sanitizer kills us.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cinttypes>
#include <csignal>
#include <map>
#include <string>
#include <vector>
#include <exception>
#include <ctime>
#include <sys/time.h>
#include <unistd.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

struct Rng {
	std::uint64_t s;
	explicit Rng(std::uint64_t seed) : s(seed) {}
	std::uint64_t next() { std::uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
	std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
	std::int64_t range(std::int64_t a, std::int64_t b) { return a + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(b - a + 1))); }
	bool chance(int num, int den) { return below(den) < static_cast<std::uint64_t>(num); }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double uni(double a, double b) { return a + (b - a) * unit(); }
	template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct Mon {
	std::uint64_t seed = 1; int shard = 0, nshards = 1; bool thorough = false; long factor = 1; std::time_t deadline = 0;
	std::string onlySection; long only = -1;
	std::uint64_t evals = 0;
	std::map<std::string, std::uint64_t> counters;
	std::map<std::string, int> violSeen;
	std::vector<std::uint64_t> seenHashes;
	int samples = 0;
	static char*& cur() { static char* c = new char[512]{}; return c; }
	std::string section; long idx = 0;

	static void death() { if (cur()[0]) { ::write(2, "\nRUNNING-CASE ", 14); ::write(2, cur(), std::strlen(cur())); ::write(2, "\n", 1); } }
	static void onhang(int s) { static const char a[] = "\nHANG: a case used more than 90 seconds of processor time", b[] = "\nHANG: a case took more than 400 seconds"; if (s == SIGPROF) ::write(2, a, sizeof a - 1); else ::write(2, b, sizeof b - 1); death(); ::_exit(95); }
	// a case that never ends is a violation: cases take milliseconds
	static void watch() { itimerval t{}; t.it_value.tv_sec = 90; ::setitimer(ITIMER_PROF, &t, nullptr); ::alarm(400); }
	static void onsig(int s) { death(); std::signal(s, SIG_DFL); ::raise(s); }
	Mon(int argc, char** argv) {
		for (int i = 1; i < argc; ++i) {
			std::string a = argv[i];
			if (a == "--seed") seed = std::strtoull(argv[++i], nullptr, 0);
			else if (a == "--shard") { shard = std::atoi(argv[++i]); nshards = std::atoi(argv[++i]); }
			else if (a == "--thorough") thorough = true;
			else if (a == "--deadline") deadline = std::atol(argv[++i]);
			else if (a == "--factor") factor = std::atol(argv[++i]);
			else if (a == "--only") { onlySection = argv[++i]; only = std::atol(argv[++i]); }
			else { std::fprintf(stderr, "bad arg %s\n", argv[i]); _exit(8); }
		}
		setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
		if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(&death);
		std::signal(SIGABRT, &onsig); std::signal(SIGPROF, &onhang); std::signal(SIGALRM, &onhang);
	}
	long scale(long q, long t) const { return thorough || q * factor > t ? std::max(q, t) : q * factor; }
	static std::string esc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '\t') o += "\\t"; else if (c == '\n') o += "\\n"; else if (c < 32 || c >= 127) { char b[8]; std::snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; } return o; }
	void viol(const std::string& key, const std::string& detail) {
		if (violSeen[key]++ < 1) { std::printf("V\t%s\t%s\t%s\t%ld\n", esc(key).c_str(), esc(detail).c_str(), section.c_str(), idx); std::fflush(stdout); }
	}
	void count(const std::string& n, std::uint64_t k = 1) { counters[n] += k; }
	void sample(const std::string& s) { if (samples++ < 2) std::printf("S\t%s\n", esc(s).c_str()); }
	// record a distinct non-trivial observation
	void seen(std::uint64_t h) { seenHashes.push_back(h); if (seenHashes.size() > 4096) flushSeen(); }
	void seenBytes(const void* p, std::size_t n, std::uint64_t salt = 0) { std::uint64_t h = 1469598103934665603ULL ^ salt; auto* c = static_cast<const unsigned char*>(p); for (std::size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; } seen(h); }
	void flushSeen() { for (auto h : seenHashes) std::printf("D\t%016" PRIx64 "\n", h); seenHashes.clear(); }
	template <typename F> void run(const char* name, long n, F f) {
		if (!onlySection.empty() && onlySection != name) return;
		section = name;
		std::uint64_t sh = 1469598103934665603ULL; for (const char* c = name; *c; ++c) { sh ^= static_cast<unsigned char>(*c); sh *= 1099511628211ULL; }
		for (long i = (onlySection.empty() ? shard : only); i < n; i += (onlySection.empty() ? nshards : n)) {
			if (deadline != 0 && std::time(nullptr) > deadline) { counters["skipped_for_time"]++; continue; }
			watch(); idx = i; std::snprintf(cur(), 512, "%s %ld", name, i);
			Rng r(seed * 0x9E3779B97F4A7C15ULL ^ sh ^ (static_cast<std::uint64_t>(i) * 0xD1342543DE82EF95ULL)); r.next();
			try { f(r, i); }
			catch (const std::exception& e) { viol(std::string("exception:") + name, e.what()); }
			catch (...) { viol(std::string("exception:") + name, "unknown exception"); }
			++evals; counters[std::string("cases_") + name]++;
		}
	}
	int done() {
		cur()[0] = 0; flushSeen();
		std::printf("E\t%" PRIu64 "\n", evals);
		for (auto& [k, v] : counters) std::printf("C\t%s\t%" PRIu64 "\n", k.c_str(), v);
		std::printf("DONE\n"); std::fflush(stdout);
		return 0;
	}
};
