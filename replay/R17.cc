// R17: timestamp conversions and arithmetic; the harness is built in both storage formats.
#include "hvreplay.hpp"
#include "hogl/detail/timestamp.hpp"
using namespace hogl;
static const uint64_t G = 1000000000;
#ifdef HOGL_TIMESTAMP_USE_TIMESPEC_FORMAT
static const uint64_t MAXSEC = 0xffffffffull, MAXNS = MAXSEC * G + G - 1;
#else
static const uint64_t MAXSEC = 18446744072ull, MAXNS = ~0ull;
#endif
static void one(uint64_t x, uint64_t y)
{
	x = MAXNS == ~0ull ? x : x % (MAXNS + 1); y = MAXNS == ~0ull ? y : y % (MAXNS + 1);
	timestamp a(x), b(y);
	CHECK(a.to_nsec() == x && (uint64_t) a == x, "to_nsec of %lu is %lu", x, a.to_nsec());
	CHECK(a.to_usec() == x / 1000 && a.to_msec() == x / 1000000 && a.to_sec() == x / G, "to_usec/msec/sec of %lu: %lu %lu %lu", x, a.to_usec(), a.to_msec(), a.to_sec());
	CHECK((a < b) == (x < y) && (a > b) == (x > y) && (a == b) == (x == y), "comparison of %lu and %lu", x, y);
	CHECK(timestamp(x) == a, "equality of %lu", x);
	struct timespec t; a.to_timespec(t);
	CHECK((uint64_t) t.tv_sec == x / G && (uint64_t) t.tv_nsec == x % G, "to_timespec of %lu: %ld %ld", x, t.tv_sec, t.tv_nsec);
	timestamp c(t), d(a); CHECK(c.to_nsec() == x && d.to_nsec() == x, "from_timespec round trip of %lu gives %lu", x, c.to_nsec());
	d = b; CHECK(d.to_nsec() == y, "assignment");
	struct timespec u = { (time_t)(y % (MAXSEC + 1)), (long)(x % G) }; timestamp e(u);
	CHECK(e.to_nsec() == (uint64_t) u.tv_sec * G + u.tv_nsec, "from_timespec %ld %ld gives %lu", u.tv_sec, u.tv_nsec, e.to_nsec());
	uint64_t s = y % (MAXSEC + 1);
	timestamp f; f.from_sec(s); CHECK(f.to_nsec() == s * G, "from_sec %lu gives %lu", s, f.to_nsec());
	f.from_msec(s); CHECK(f.to_nsec() == s * 1000000, "from_msec %lu gives %lu", s, f.to_nsec());
	f.from_usec(s); CHECK(f.to_nsec() == s * 1000, "from_usec %lu gives %lu", s, f.to_nsec());
	CHECK(timestamp().to_nsec() == 0, "default");
	uint64_t hi = std::max(x, y), lo = std::min(x, y);
	timestamp H(hi), L(lo);
	CHECK((H - L).to_nsec() == hi - lo && (H - (uint64_t) lo).to_nsec() == hi - lo, "%lu - %lu gives %lu", hi, lo, (H - L).to_nsec());
	if (hi <= MAXNS - lo) {
		CHECK((H + L).to_nsec() == hi + lo && (H + (uint64_t) lo).to_nsec() == hi + lo, "%lu + %lu gives %lu", hi, lo, (H + L).to_nsec());
		timestamp p(H); p += lo; CHECK(p.to_nsec() == hi + lo, "+= %lu", lo);
	}
	for (int i : {0, 1, -1, (int) y, -(int) (y & 0xffff), 0x7fffffff, (int) 0x80000000}) {
		__int128 v = (__int128) x + i;
		if (v >= 0 && v <= (__int128) MAXNS) { CHECK((a + i).to_nsec() == (uint64_t) v, "%lu + %d gives %lu", x, i, (a + i).to_nsec()); timestamp p(a); p += i; CHECK(p.to_nsec() == (uint64_t) v, "%lu += %d", x, i); }
		v = (__int128) x - i;
		if (v >= 0 && v <= (__int128) MAXNS) CHECK((a - i).to_nsec() == (uint64_t) v, "%lu - %d gives %lu", x, i, (a - i).to_nsec());
	}
	if (x < MAXNS) { timestamp p(a); CHECK((++p).to_nsec() == x + 1 && p.to_nsec() == x + 1, "++"); }
	if (x > 0) { timestamp p(a); CHECK((--p).to_nsec() == x - 1 && p.to_nsec() == x - 1, "--"); }
}
#ifndef HV_SECOND
void r17_other_search(uint64_t);
void r17_other_witness(uint64_t, uint64_t);
void witness(const Witness &w)
{
	uint64_t x = w.has("a.sec") ? w.get("a.sec") * G + w.get("a.nsec") : w.has("ts.sec") ? w.get("ts.sec") * G + w.get("ts.nsec") : w.get("a", w.get("ts", w.get("x", w.get("sec") * G + w.get("nsec"))));
	uint64_t y = w.has("b.sec") ? w.get("b.sec") * G + w.get("b.nsec") : w.get("b", w.get("sec"));
	one(x, y); one(y, x);
	r17_other_witness(x, y);
}
void search(uint64_t seed)
#else
void r17_other_witness(uint64_t x, uint64_t y) { one(x, y); one(y, x); }
void r17_other_search(uint64_t seed)
#endif
{
	Rng g(seed);
	std::vector<uint64_t> v = {0, 1, 999, 1000, 999999, 1000000, G - 1, G, G + 1, 4294967295ull, 4294967296ull, MAXNS, MAXNS - 1, MAXNS / 2, 1ull << 63, 4 * G, 5 * G - 1, 1700000000ull * G + 123456789};
	for (auto a : v) for (auto b : v) one(a, b);
	for (unsigned k = 0; k < 200000; k++) { uint64_t x = g.next() >> g.below(64), y = g.chance(30) ? x + g.below(2000) - 1000 : g.next() >> g.below(64); one(x, y); }
#ifndef HV_SECOND
	r17_other_search(seed);
#endif
}
