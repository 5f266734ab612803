// Trace recording shared by the drivers: one history per line,
//   {"cfg":{...},"ev":[{"op":...},...]}
// A crash, failed assertion, sanitizer report or hang inside the library ends the history with a CRASH event.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
extern "C" __attribute__((used)) inline const char* __asan_default_options() {
	return "detect_leaks=0:abort_on_error=1:handle_abort=0:handle_segv=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0:detect_stack_use_after_return=0:allocator_may_return_null=1:print_summary=1";
}
extern "C" __attribute__((used)) inline const char* __ubsan_default_options() { return "abort_on_error=1:halt_on_error=1:handle_abort=0"; }
namespace tr {
inline std::string num(long long v) {
	if (v > 1000000000LL) v = 1000000000LL;
	if (v < -1000000000LL) v = -1000000000LL;
	return std::to_string(v);
}
inline std::string dbl(double d) {
	if (d != d) d = __builtin_nan("");
	uint64_t b;
	if (d != d) b = 0x7ff8000000000000ULL;
	else memcpy(&b, &d, 8);
	return "[" + std::to_string((int32_t)(b >> 32)) + "," + std::to_string((int32_t)(uint32_t)b) + "]";
}
template <class It, class F> std::string arr(It b, It e, F f) {
	std::string s = "[";
	for (It i = b; i != e; ++i) { if (i != b) s += ","; s += f(*i); }
	return s + "]";
}
template <class C> std::string ints(C const& c) { return arr(c.begin(), c.end(), [](long long v) { return num(v); }); }
template <class C> std::string dbls(C const& c) { return arr(c.begin(), c.end(), [](double v) { return dbl(v); }); }
struct Obj {
	std::string s = "{";
	Obj& raw(const char* k, std::string const& v) { if (s.size() > 1) s += ","; s += "\""; s += k; s += "\":"; s += v; return *this; }
	Obj& i(const char* k, long long v) { return raw(k, num(v)); }
	Obj& b(const char* k, bool v) { return raw(k, v ? "true" : "false"); }
	Obj& d(const char* k, double v) { return raw(k, dbl(v)); }
	Obj& str(const char* k, std::string const& v) { return raw(k, "\"" + v + "\""); }
	template <class C> Obj& ia(const char* k, C const& c) { return raw(k, ints(c)); }
	template <class C> Obj& da(const char* k, C const& c) { return raw(k, dbls(c)); }
	std::string end() const { return s + "}"; }
};
inline Obj op(const char* name) { Obj o; o.str("op", name); return o; }

static int fd = -1;
static std::string hist;      // the history being recorded
static bool open_hist = false, first = true;
static std::string pending;   // description of the library call in progress
static volatile sig_atomic_t dying = 0;
inline void put(std::string const& s) { size_t o = 0; while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) _exit(3); o += n; } }
inline void on_crash(int sig) {
	if (dying) _exit(77);
	dying = 1;
	if (!open_hist) { hist = "{\"cfg\":{\"crash\":1},\"ev\":["; first = true; }
	std::string s = hist;
	if (!first) s += ",";
	s += std::string("{\"op\":\"CRASH\",\"signal\":") + std::to_string(sig) + ",\"during\":\"" + pending + "\"}]}\n";
	put(s);
	_exit(77);
}
inline void init() {
	const char* f = getenv("TRACE_OUT");
	fd = open(f ? f : "/dev/stdout", O_WRONLY | O_CREAT | O_APPEND, 0644);
	if (fd < 0) _exit(3);
	static char alt[1 << 16];
	stack_t st; memset(&st, 0, sizeof st); st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, nullptr);
	for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGVTALRM}) {
		struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = on_crash; a.sa_flags = SA_ONSTACK; sigaction(s, &a, nullptr);
	}
}
inline bool thorough() { const char* t = getenv("TIER"); return t && !strcmp(t, "thorough"); }
inline void limit(int seconds) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = seconds; setitimer(ITIMER_VIRTUAL, &t, nullptr); } // CPU time
inline void begin(std::string const& cfg) { hist = "{\"cfg\":" + cfg + ",\"ev\":["; first = true; open_hist = true; limit(thorough() ? 400 : 90); }
inline void about(std::string const& what) { pending = what; }
inline void ev(Obj const& o) { if (!first) hist += ","; first = false; hist += o.end(); }
// dedup: identical histories are recorded once
static std::unordered_set<std::string> seen_hist; static bool dedup = false;
inline void end() { hist += "]}\n"; if (!dedup || seen_hist.insert(hist).second) put(hist); open_hist = false; limit(thorough() ? 400 : 90); pending = ""; }

struct Rand { // splitmix64
	uint64_t s;
	explicit Rand(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 12345) {}
	uint64_t u() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
	int n(int k) { return (int)(u() % (uint64_t)k); }          // [0,k)
	int in(int a, int b) { return a + n(b - a + 1); }           // [a,b]
	double d() { return (double)(u() >> 11) / 9007199254740992.0; } // [0,1)
	bool chance(int num, int den) { return n(den) < num; }
};
// memory never looks the same twice: what the library does not initialise must not matter
inline void dirty(void* p, size_t n) {
	static const unsigned char pat[] = {0x5A, 0x00, 0xDA, 0xFF, 0x3C, 0x01, 0xBF, 0x7F}; static unsigned k = 0;
	memset(p, pat[k++ % sizeof pat], n);
}
inline uint64_t seed() { const char* s = getenv("SEED"); return s ? strtoull(s, nullptr, 10) : 1; }
// The random numbers handed to the library: scripted values first, then pseudo-random ones.
struct Draws {
	std::vector<double> script; size_t pos = 0; Rand r{1}; std::vector<double> used; bool record = false; bool overrun = false; double fill = -1;
	double next() {
		double v;
		if (pos < script.size()) v = script[pos];
		else { overrun = true; v = fill >= 0 ? fill : r.d(); }
		++pos;
		if (record) used.push_back(v);
		return v;
	}
	void reset(uint64_t s) { script.clear(); pos = 0; r = Rand(s); used.clear(); overrun = false; fill = -1; }
	void set(std::vector<double> v) { script = std::move(v); pos = 0; used.clear(); overrun = false; }
};
inline std::vector<std::vector<long>> read_scripts(const char* file) { // one script per line, integers
	std::vector<std::vector<long>> out; FILE* f = fopen(file, "r"); if (!f) _exit(5);
	std::vector<long> cur; int c; std::string tok;
	while ((c = fgetc(f)) != EOF) {
		if (c == ' ' || c == '\n') { if (!tok.empty()) { cur.push_back(atol(tok.c_str())); tok.clear(); } if (c == '\n') { out.push_back(cur); cur.clear(); } }
		else tok += (char)c;
	}
	fclose(f); return out;
}
}
