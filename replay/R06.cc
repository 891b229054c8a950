// R06: posting against an independent description: gate, header, arguments, lock, order of a shared ring.
#include "hvreplay.hpp"
#include "hogl/detail/ringbuf.hpp"
#include "hogl/detail/post.hpp"
#include "hogl/post.hpp"
#include "hogl/area.hpp"
using namespace hogl;
static uint64_t clk = 0;
static timestamp tick(const timesource *) { timestamp t; t.from_nsec(__sync_add_and_fetch(&clk, 1000)); return t; }
static uint64_t other_clk = 0;
static timestamp tick2(const timesource *) { timestamp t; t.from_nsec(other_clk += 77); return t; }
static const unsigned NS = 700;
static const char *sect[NS + 1];
static struct Init { Init() { for (unsigned k = 0; k < NS; k++) sect[k] = strdup(("S" + std::to_string(k)).c_str()); } } init_;
static bool lockfree(ringbuf *r) { if (pthread_mutex_trylock(&r->_mutex)) return false; pthread_mutex_unlock(&r->_mutex); return true; }
static void call(int way, ringbuf *r, const area *a, unsigned s, unsigned n, uint64_t x, const char *str)
{
	arg A0, A1, A2;
	if (n > 0) A0 = arg((unsigned long) x);
	if (n > 1) A1 = arg(str);
	if (n > 2) A2 = arg((int) (x >> 7));
	tls *t = 0;
	if (way == 1 || way == 3) { tls::_ring = r; }
	switch (way) {
	case 0: post(r, a, s, A0, A1, A2); break;
	case 1: post(a, s, A0, A1, A2); break;
	case 2: post_unlocked(r, a, s, A0, A1, A2); break;
	case 3: post_unlocked(a, s, A0, A1, A2); break;
	case 4: push(r, a, s, A0, A1, A2); break;
	case 5: push_unlocked(r, a, s, A0, A1, A2); break;
	case 6: { argpack ap; ap.populate(A0, A1, A2, arg(), arg(), arg(), arg(), arg(), arg(), arg(), arg(), arg(), arg(), arg(), arg(), arg()); post_impl::locked(r, a, s, ap); } break;
	case 7: { argpack ap; ap.populate(A0, A1, A2, arg(), arg(), arg(), arg(), arg(), arg(), arg(), arg(), arg(), arg(), arg(), arg(), arg()); post_impl::unlocked(r, a, s, ap); } break;
	}

}
static void run(Rng &g, int way, unsigned flags, unsigned cap, unsigned nrec, bool verbose)
{
	const bool gated = way < 4;
	area a("AREA", sect);
	ringbuf::options o; o.capacity = cap; o.prio = 0; o.flags = flags | ringbuf::IMMORTAL; o.record_tailroom = 256;
	ringbuf r("R", o);
	timesource src("tick", tick), src2("tick2", tick2);
	r.timesource(&src);
	if (g.chance(30)) r.timesource(&src2), r.timesource(&src);
	unsigned inring = 0; uint64_t seq = r._seqnum, drop = r._dropcnt; 
	for (unsigned i = 0; i < nrec; i++) {
		unsigned s = g.chance(50) ? g.below(5) : g.below(NS), n = g.below(4); uint64_t x = g.next();
		std::string str(g.below(20), 'a' + g.below(26));
		bool on = g.chance(60);
		for (unsigned k = 0; k < 5; k++) if (g.chance(50)) a.enable(k); else a.disable(k);
		if (on) a.enable(s); else a.disable(s);
		uint64_t c0 = clk, c2 = other_clk;
		unsigned tail = r._tail;
		call(way, &r, &a, s, n, x, str.c_str());
		CHECK(lockfree(&r), "way %d flags %x: ring lock still held after a post", way, flags);
		CHECK(other_clk == c2, "another time source was asked");
		if (gated && !on) {
			CHECK(clk == c0 && r._seqnum == seq && r._tail == tail && r._dropcnt == drop, "way %d flags %x: posting to a disabled section changed the ring (seq %lu drop %lu)", way, flags, (unsigned long) r._seqnum, (unsigned long) r._dropcnt);
			continue;
		}
		CHECK(r._seqnum == seq + 1, "way %d flags %x section %s: sequence number %lu after %lu", way, flags, on ? "on" : "off", (unsigned long) r._seqnum, (unsigned long) seq);
		CHECK(clk == c0 + 1000, "way %d: %lu time stamps for one record", way, (unsigned long) (clk - c0) / 1000);
		record *rec = (record *) ((uint8_t *) r._rec_top + ((size_t) tail << r._rec_shift));
		CHECK(rec->area == &a && rec->section == s && rec->timestamp.to_nsec() == clk && rec->seqnum == (seq & ((1ull << 52) - 1)), "way %d flags %x: header area %p section %u/%u time %lu/%lu seq %lu/%lu", way, flags, (void *) rec->area, (unsigned) rec->section, s,
			(unsigned long) rec->timestamp.to_nsec(), (unsigned long) clk, (unsigned long) rec->seqnum, (unsigned long) seq);
		for (unsigned k = 0; k < n; k++) {
			unsigned want = k == 0 ? arg::UINT64 : k == 1 ? arg::CSTR : arg::INT32;
			CHECK(rec->get_arg_type(k) == want, "way %d: argument %u has type %u", way, k, rec->get_arg_type(k));
		}
		CHECK(rec->get_arg_type(n) == arg::NONE, "way %d: %u arguments stored as more", way, n);
		if (n > 0) CHECK(rec->get_arg_val64(0) == x, "way %d: value %lx, expected %lx", way, (unsigned long) rec->get_arg_val64(0), (unsigned long) x);
		if (n > 1 && str.size()) { unsigned l; const uint8_t *d = rec->get_arg_data(1, l); CHECK(std::string((const char *) d, l) == str, "way %d: string '%.*s', expected '%s'", way, (int) l, d, str.c_str()); }
		if (n > 2) CHECK((int) rec->get_arg_val32(2) == (int) (x >> 7), "way %d: value of argument 2", way);
		seq++;
		if (r._tail == tail) { CHECK(r._dropcnt == drop + 1, "way %d: neither committed nor dropped", way); drop++; }
		else { inring++; CHECK(r._dropcnt == drop, "committed and dropped"); CHECK(r._tail == ((tail + 1) & r._capacity), "tail moved by more than one"); }
		CHECK(inring || cap < 2, "empty ring dropped");
		if (g.chance(70)) while (!r.empty()) { r._head = (r._head + 1) & r._capacity; }
	}
	r._head = r._tail;
}
struct Job { ringbuf *r; area *a; unsigned n; unsigned id; int way; };
static void *worker(void *p)
{
	Job *j = (Job *) p;
	for (unsigned i = 0; i < j->n; i++) call(j->way, j->r, j->a, j->id % 5, 1, ((uint64_t) j->id << 32) | i, "");
	return 0;
}
static void shared_ring(Rng &g, int way, unsigned nthr, unsigned per)
{
	area a("AREA", sect);
	for (unsigned k = 0; k < 5; k++) a.enable(k);
	ringbuf::options o; o.capacity = 4096; o.prio = 0; o.flags = ringbuf::SHARED | ringbuf::IMMORTAL; o.record_tailroom = 128;
	ringbuf r("R", o);
	timesource src("tick", tick); r.timesource(&src);
	uint64_t s0 = r._seqnum;
	Job j[8]; pthread_t t[8];
	for (unsigned k = 0; k < nthr; k++) { j[k].r = &r; j[k].a = &a; j[k].n = per; j[k].id = k; j[k].way = way; pthread_create(&t[k], 0, worker, &j[k]); }
	for (unsigned k = 0; k < nthr; k++) pthread_join(t[k], 0);
	CHECK(r.size() == nthr * per, "way %d: %u records for %u posts from %u threads on a shared ring", way, r.size(), nthr * per, nthr);
	uint64_t next[8] = { 0 }, last = 0;
	for (unsigned i = 0; i < nthr * per; i++) {
		record *rec = (record *) ((uint8_t *) r._rec_top + ((size_t) i << r._rec_shift));
		CHECK(rec->seqnum == s0 + i, "way %d: record %u of a shared ring has sequence number %lu", way, i, (unsigned long) rec->seqnum);
		CHECK(rec->timestamp.to_nsec() > last, "way %d: time stamps of a shared ring go back at record %u", way, i);
		last = rec->timestamp;
		uint64_t x = rec->get_arg_val64(0); unsigned id = x >> 32;
		CHECK(id < nthr && (uint32_t) x == next[id] && rec->section == id % 5, "way %d: record %u of a shared ring is torn or out of order (%lx)", way, i, (unsigned long) x);
		next[id]++;
	}
	r._head = r._tail;
}
static const unsigned FL[] = { 0, ringbuf::SHARED, ringbuf::SHARED | ringbuf::REUSABLE, ringbuf::REUSABLE };
void witness(const Witness &w)
{
	Rng g(w.get("section") + w.get("tail") * 31 + 1);
	for (int way = 0; way < 8; way++) for (unsigned f : FL) run(g, way, f, 8, 200, true);
}
void search(uint64_t seed)
{
	Rng g(seed);
	for (int k = 0; k < 40; k++)
		for (int way = 0; way < 8; way++) for (unsigned f : FL) run(g, way, f, 2u << g.below(5), 60, false);
	for (int k = 0; k < 60; k++) shared_ring(g, g.pick({ 0, 0, 1, 4, 6 }), 2 + g.below(6), 400);
}
