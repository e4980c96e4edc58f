// Native side of the harness API: concrete inputs from a file, checks evaluated for real.
// File: records separated by "---"; a record is lines "name value" (floats as 8 hex digits, ints decimal); a record that
// has "seed N" draws missing inputs pseudo-randomly and prints them ("IN name value").
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <map>
#include <vector>
#include <exception>
#include <stdexcept>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/wait.h>
extern "C" {
float sym_f32(const char*, float, float); float sym_f32_any(const char*); int sym_int(const char*, int, int); int sym_choice(const char*, int);
void sym_assume(bool); void chk(bool, const char*); void chk_near(double, double, double, const char*); void chk_same(float, float, const char*);
void chk_range(float, float, float, const char*); void out(float, const char*);
}
static std::map<std::string, std::string> in;
static std::map<std::string, int> seen;
static int fails = 0;
static bool draw = false;
static unsigned long long rs = 1;
static unsigned rnd() { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(rs >> 33); }
static std::string key(const char* n) { int k = seen[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
static float bitsf(const std::string& s) { unsigned u = (unsigned)strtoul(s.c_str(), nullptr, 16); float f; memcpy(&f, &u, 4); return f; }
static void missing(const std::string& n) { printf("MISSING %s\n", n.c_str()); fflush(stdout); _exit(3); }
static float getf(const char* n, float lo, float hi, bool any)
{
	std::string k = key(n);
	auto it = in.find(k);
	if (it != in.end()) return bitsf(it->second);
	if (!draw) missing(k);
	float v; unsigned m = rnd() % 16;
	if (any) {
		static const unsigned sp[] = { 0, 0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0xffc00000u, 1, 0x80000001u, 0x7f7fffffu, 0x3f800000u, 0xbf800000u };
		unsigned u = m < 5 ? sp[rnd() % 11] : m < 11 ? 0 : rnd() ^ (rnd() << 16);
		if (m >= 5 && m < 11) v = (float)(rnd() % 2000001) / 1000000.f - 0.5f; else memcpy(&v, &u, 4);
	} else {
		v = m == 0 ? lo : m == 1 ? hi : m == 2 ? (lo <= 0 && hi >= 0 ? 0.f : lo + (hi - lo) * 0.5f) : lo + (hi - lo) * (float)(rnd() % 1000003) / 1000002.f;
		if (v < lo) v = lo; if (v > hi) v = hi; if (v == 0) v = 0;
	}
	unsigned u; memcpy(&u, &v, 4);
	printf("IN %s %08x\n", k.c_str(), u);
	return v;
}
static int geti(const char* n, int lo, int hi)
{
	std::string k = key(n);
	auto it = in.find(k);
	if (it != in.end()) return (int)strtoll(it->second.c_str(), nullptr, 10);
	if (!draw) missing(k);
	int v = (int)(lo + (long long)(((unsigned long long)rnd() * 2147483648ULL + rnd()) % ((unsigned long long)((long long)hi - lo) + 1)));
	if (lo == 0 && hi == 255) {		// characters: mostly hexadecimal digits, so that random strings are often well formed
		unsigned m = rnd() % 32;
		if (m && k == "c0" && m < 16) v = '#';
		else if (m) v = "0123456789abcdefABCDEF"[rnd() % 22];
	}
	printf("IN %s %d\n", k.c_str(), v);
	return v;
}
float sym_f32(const char* n, float lo, float hi) { return getf(n, lo, hi, false); }
float sym_f32_any(const char* n) { return getf(n, 0, 0, true); }
int sym_int(const char* n, int lo, int hi) { return geti(n, lo, hi); }
int sym_choice(const char* n, int k) { return geti(n, 0, k - 1); }
void sym_assume(bool c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); _exit(4); } }
static void res(bool ok, const char* id, const char* fmt, double a, double b, double c)
{
	if (!ok) { ++fails; printf("FAIL %s ", id); } else printf("PASS %s ", id);
	printf(fmt, a, b, c); printf("\n");
}
void chk(bool c, const char* id) { res(c, id, "bool", 0, 0, 0); }
void chk_near(double a, double b, double t, const char* id) { res(fabs(a - b) <= t, id, "near %.17g %.17g tol %.3g", a, b, t); }
void chk_same(float a, float b, const char* id) { res(a == b || (a != a && b != b), id, "same %.9g %.9g", a, b, 0); }
void chk_range(float v, float lo, float hi, const char* id) { res(v >= lo && v <= hi, id, "range %.9g in [%.9g,%.9g]", v, lo, hi); }
void out(float v, const char* id) { unsigned u; memcpy(&u, &v, 4); printf("OUT %s %08x %.9g\n", id, u, v); }
// nondeterministic library input under test: rand() comes from the counterexample
static int nrand = 0;
extern "C" int rand(void) noexcept
{
	std::string n = "rand!" + std::to_string(++nrand); auto it = in.find(n);
	if (it != in.end()) return (int)strtoll(it->second.c_str(), nullptr, 10);
	int v = draw ? (int)(rnd() & 0x7fffffff) : 0;
	if (draw) printf("IN %s %d\n", n.c_str(), v);
	return v;
}
static int one(void (*fn)(int), int shard)
{
	auto s = in.find("seed");
	if (s != in.end()) { draw = true; rs = strtoull(s->second.c_str(), nullptr, 10) * 2654435761ULL + 12345; for (int i = 0; i < 4; ++i) rnd(); }
	try { fn(shard); }
	catch (std::exception* e) { printf("FAIL uncaught exception(ptr): %s\n", e->what()); fails++; }
	catch (std::exception& e) { printf("FAIL uncaught exception: %s\n", e.what()); fails++; }
	catch (...) { printf("FAIL uncaught exception\n"); fails++; }
	printf("DONE fails=%d\n", fails);
	fflush(stdout);
	return fails ? 1 : 0;
}
int main(int argc, char** argv)
{
	if (argc < 4) return 2;
	FILE* f = fopen(argv[3], "r");
	if (!f) return 2;
	std::vector<std::map<std::string, std::string>> recs(1);
	char line[600], n[256], v[256];
	while (fgets(line, sizeof line, f)) {
		if (!strncmp(line, "---", 3)) { recs.emplace_back(); continue; }
		if (line[0] == '#') continue;
		if (sscanf(line, "%255s %255s", n, v) == 2) recs.back()[n] = v;
	}
	fclose(f);
	void* h = dlopen(nullptr, RTLD_NOW);
	auto fn = (void (*)(int))dlsym(h, argv[1]);
	if (!fn) { printf("NOENTRY\n"); return 2; }
	auto nw = (int*)dlsym(h, "n_warm"); auto warm = (void (*)(int))dlsym(h, "warm");
	if (nw && warm) for (int k = 0; k < *nw; ++k) { try { warm(k); } catch (...) {} }
	if (recs.size() == 1) { in = recs[0]; return one(fn, atoi(argv[2])); }
	int bad = 0;
	for (size_t i = 0; i < recs.size(); ++i) {
		printf("CASE %zu\n", i); fflush(stdout);
		pid_t p = fork();
		if (!p) { alarm(20); in = recs[i]; _exit(one(fn, atoi(argv[2]))); }
		int st = 0; waitpid(p, &st, 0);
		if (WIFSIGNALED(st)) { printf("\nCRASH signal %d\n", WTERMSIG(st)); bad = 1; }
		else if (WEXITSTATUS(st)) bad = 1;
	}
	return bad;
}
