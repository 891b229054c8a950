// R18: affinity strings: the set applied is exactly the set named; what is malformed or out of range is rejected.
#include "hvreplay.hpp"
#include <sched.h>
#include <errno.h>
#include "hogl/detail/internal.hpp"
#include "hogl/detail/schedparam.hpp"
using namespace hogl;
static std::set<unsigned> applied; static unsigned napplied; static size_t setbytes;
extern "C" int __wrap_pthread_setaffinity_np(pthread_t, size_t n, const cpu_set_t *s)
{
	applied.clear(); napplied++; setbytes = n;
	for (unsigned i = 0; i < n * 8; i++) if (CPU_ISSET_S(i, n, s)) applied.insert(i);
	return 0;
}
extern "C" int __wrap_pthread_setschedparam(pthread_t, int, const struct sched_param *) { return 0; }
// the reference: 1 accepted, 0 rejected
static bool ref(const std::string &str, std::set<unsigned> &out)
{
	out.clear();
	if (str.compare(0, 5, "list:") == 0) {
		size_t p = 5;
		for (;;) {
			unsigned __int128 v[2]; unsigned k = 0;
			for (;; k++) {
				if (p >= str.size() || !isdigit(str[p])) return false;
				v[k] = 0;
				while (p < str.size() && isdigit(str[p])) { if (v[k] < ((unsigned __int128) 1 << 100)) v[k] = v[k] * 10 + (str[p] - '0'); p++; }
				if (k || p >= str.size() || str[p] != '-') break;
				p++;
			}
			if (!k) v[1] = v[0];
			if (v[0] > v[1] || v[1] >= 256) return false;
			for (unsigned i = v[0]; i <= v[1]; i++) out.insert(i);
			if (p < str.size() && str[p] == ',') p++;
			if (p >= str.size()) return true;
		}
	}
	std::string m = str.compare(0, 5, "mask:") == 0 ? str.substr(5) : str;
	char *e; errno = 0;
	unsigned long long x = strtoull(m.c_str(), &e, 0);
	if (errno || e == m.c_str() || e != m.c_str() + m.size()) return false;
	for (unsigned i = 0; i < 64; i++) if (x >> i & 1) out.insert(i);
	return true;
}
static void one(const std::string &s)
{
	if (s.empty()) return;
	std::set<unsigned> want; bool ok = ref(s, want);
	schedparam sp(0, 0, 0, s);
	napplied = 0;
	CHECK(sp.validate() == ok, "validate() of '%s' is %d", s.c_str(), !ok);
	CHECK(!napplied, "validate() of '%s' changes the affinity", s.c_str());
	bool r = sp.thread_enter("x");
	CHECK(r == ok && napplied == ok, "thread_enter() with '%s': %d, applied %u times", s.c_str(), r, napplied);
	if (ok) {
		std::string a, b; for (unsigned i : applied) a += std::to_string(i) + " "; for (unsigned i : want) b += std::to_string(i) + " ";
		CHECK(applied == want && setbytes >= 32, "'%s' selects %s, it names %s", s.c_str(), a.c_str(), b.c_str());
	}
}
static std::string number(Rng &g) { return g.chance(80) ? std::to_string(g.below(g.pick<unsigned>({ 8, 64, 256, 300 }))) : g.chance(50) ? std::to_string((1ull << 32) * g.below(3) + g.below(4) - 1) : g.pick<std::string>({ "18446744073709551615", "18446744073709551616", "99999999999999999999999", "007", "255", "256", "0", "4294967296" }); }
void search(uint64_t seed)
{
	freopen("/dev/null", "w", stderr);
	Rng g(seed);
	for (const char *s : { "list:", "mask:", "list:0", "list:0-", "list:-1", "list:3-1", "list:0,,1", "list:0,", "list:,", "list:0-255", "list:0-256", "list:255-256", "list: 1", "list:1 ", "list:1-2-3", "0x1", "1", "mask:0x80000000", "mask:0x100000000", "0xffffffffffffffff", "0x8000000000000000", "0x1ffffffffffffffff", "0xr", "mask:0x", "list", "mask", "list:4294967296", "list:0-4294967296", "list:4294967295-4294967296", "list:18446744073709551615", "list:5-5", "list:1-3,2-8,200" }) one(s);
	for (unsigned i = 0; i < 60000; i++) {
		std::string s;
		if (g.chance(50)) {
			s = "list:";
			for (unsigned k = 1 + g.below(5); k; k--) {
				std::string a = number(g);
				s += a;
				if (g.chance(40)) s += "-" + (g.chance(70) ? std::to_string(strtoull(a.c_str(), 0, 10) + g.below(20)) : number(g));
				if (k > 1) s += g.chance(95) ? "," : g.pick<std::string>({ ";", " ", "-", ",,", "" });
			}
		} else {
			char b[40]; uint64_t x = g.next() & (g.chance(50) ? ~0ull : 0xff) << g.below(60);
			snprintf(b, sizeof b, g.pick<const char *>({ "%#lx", "%lu", "0x%lX" }), (unsigned long) (g.chance(30) ? 1ull << g.below(64) : x)); s = b;
			if (g.chance(50)) s = "mask:" + s;
		}
		if (g.chance(10) && s.size()) s[g.below(s.size())] = g.pick<char>({ '-', ',', ' ', 'x', '9', ':' });
		if (g.chance(5)) s += g.pick<std::string>({ ",", "-", " ", "x", "0" });
		one(s);
	}
}
void witness(const Witness &w)
{
	freopen("/dev/null", "w", stderr);
	one("list:" + std::to_string(w.get("cpu")));
	for (const char *k : { "mask", "number" }) { char b[40]; snprintf(b, 40, "0x%lx", (unsigned long) w.get(k)); one(b); one(std::string("mask:") + b); }
	for (unsigned c = 0; c < 64; c++) { char b[40]; snprintf(b, 40, "0x%llx", 1ull << c); one(b); }
}
