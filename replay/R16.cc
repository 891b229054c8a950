// R16: flush and time source change requests against a scripted reader and against a real engine driven from the request's own waiting loop.
#include "registry.hpp"
#include "hogl/flush.hpp"
#include "hogl/timesource.hpp"
static std::function<void()> sleep_hook;
static uint64_t slept;
static unsigned sleeps;
extern "C" int __wrap_usleep(useconds_t n)
{
	slept += n;
	CHECK(++sleeps < 20000, "the request does not return");
	if (sleep_hook) sleep_hook();
	return 0;
}
static bool flush_ack_seen(record *r) { return r->argval[0].u64 == 0x7e7f; }
// a request against a scripted reader
static void scripted(Rng &g, unsigned to, bool change, unsigned flags, unsigned cap, unsigned fill, unsigned popchance, unsigned ackchance, bool tlsv)
{
	ringbuf::options o; o.capacity = cap; o.prio = 0; o.flags = flags & 7; o.record_tailroom = 128;
	ringbuf &r = *new ringbuf("r", o);
	timesource ts("ts", tick), nts("new", tick);
	r.timesource(&ts);
	r.hold();
	area pa("P", sec_a); pa.enable();
	for (unsigned i = 0; i < fill && r.room(); i++) hogl::post_unlocked(&r, &pa, 0U, "x %d", (int) i);
	uint64_t seq0 = r._seqnum, drop0 = r._dropcnt; unsigned tail0 = r._tail; uint64_t t0 = tnow;
	record *sp = 0; bool committed = false, acked = false;
	slept = 0; sleeps = 0;
	timesource *want = g.chance(30) && tlsv ? 0 : &nts;
	auto look = [&]() {
		if (!committed && r._tail != tail0) {
			committed = true;
			CHECK(r._tail == ((tail0 + 1) & r._capacity), "more than one record was stored");
			sp = r.get_record(tail0);
			CHECK(sp->special() && sp->argtype == (change ? 1u : 0u), "the request is not stored as a special record of its kind");
			CHECK(sp->seqnum == seq0 && r._seqnum == seq0 + 1, "sequence number %lu", (unsigned long) sp->seqnum);
			CHECK((uint64_t) sp->timestamp > t0 && (uint64_t) sp->timestamp <= tnow, "time stamp");
			CHECK(!flush_ack_seen(sp), "stored as acknowledged already");
			if (change) CHECK(sp->argval[1].u64 == (uint64_t) (want ? want : &default_timesource), "the new time source is not in the record");
		}
	};
	sleep_hook = [&]() {
		CHECK(locks_held == !!(flags & ringbuf::SHARED), "%d locks held while waiting", locks_held);
		look();
		if (g.chance(popchance)) {
			unsigned n = g.below(4);
			while (n-- && ((r._head + 1) & r._capacity) != tail0) r._head = (r._head + 1) & r._capacity;
		}
		if (committed && !acked && g.chance(ackchance)) { acked = true; sp->ack(); }
	};
	bool ret;
	if (tlsv) {
		ringbuf *keep = tls::_ring; tls::_ring = &r;
		ret = change ? change_timesource(want, to) : flush(to);
		tls::_ring = keep;
	} else ret = change ? change_timesource(&r, want, to) : flush(&r, to);
	sleep_hook = nullptr;
	look();
	CHECK(!locks_held, "the lock is kept");
	if (ret) CHECK(committed && (acked || (change && !to)), "success without acknowledgement (stored %d, acked %d)", committed, acked);
	else CHECK(slept >= to, "timeout after %lu of %u us", (unsigned long) slept, to);
	CHECK(r._dropcnt == drop0, "the request was dropped");
	CHECK(r._seqnum - seq0 <= 1, "%lu sequence numbers used", (unsigned long) (r._seqnum - seq0));
	if (r.immortal()) { r._refcnt = 0; delete &r; } else { r.release(); }
}
struct RingFmt : public format {
	std::map<std::string, uint64_t> out; area *a = 0;
	void process(ostrbuf &, const data &d) override
	{
		CHECK(d.record->area != 0, "a special record is shown in the log");
		if (d.record->area == a) out[d.ring_name]++;
	}
};
static void live(Rng &g, bool tso)
{
	RingFmt f; NullOut out(f);
	timesource t0("t0", tick), t1("t1", tick), t2("t2", tick), *ts[] = { &t0, &t1, &t2 };
	engine::options o = engine::default_options;
	o.tso_buffer_capacity = g.pick<unsigned>({ 4, 16, 64 }); o.features = tso ? 0 : engine::DISABLE_TSO; o.timesource = &t0;
	engine *e = new engine(out, o);
	ringbuf *keep = tls::_ring; tls::_ring = &default_ring;
	area *a = f.a = new area("POST", sec_a); a->enable();
	std::vector<ringbuf *> rings; std::map<std::string, uint64_t> posted;
	timesource *cur = &t0;
	auto add = [&]() {
		ringbuf::options ro; ro.capacity = g.pick<unsigned>({ 4, 8, 32 }); ro.prio = g.below(5); ro.flags = g.chance(50) ? ringbuf::SHARED : 0; ro.record_tailroom = 128;
		std::string n = std::string(1, 'a' + g.below(26)) + std::to_string(rings.size());
		ringbuf *r = e->add_ring(n.c_str(), ro);
		CHECK(r->timesource() == e->_timesource && e->_timesource == cur, "a ring registered later does not use the current time source");
		rings.push_back(r);
	};
	add(); add();
	unsigned seen = 0; std::vector<std::string> order;
	auto post = [&]() {
		ringbuf *r = rings[g.below(rings.size())];
		unsigned t = r->_tail;
		hogl::post(r, a, 0U, "x");
		if (r->_tail != t) posted[r->name()]++;
	};
	for (unsigned i = 0; i < 25; i++) {
		unsigned n = g.below(12);
		while (n--) post();
		if (g.chance(10)) add();
		unsigned pc = g.pick<unsigned>({ 100, 60, 10, 0 });
		ringbuf *r = rings[g.below(rings.size())];
		sleep_hook = [&]() { if (g.chance(pc)) e->process_rings(); };
		slept = 0; sleeps = 0;
		unsigned to = g.pick<unsigned>({ 0, 1000, 5000, 100000 });
		if (g.chance(60)) {
			bool ret = flush(r, to);
			if (ret) CHECK(f.out[r->name()] == posted[r->name()], "flush succeeded with %lu of %lu records output", (unsigned long) f.out[r->name()], (unsigned long) posted[r->name()]);
			else CHECK(slept >= to, "timeout after %lu of %u us", (unsigned long) slept, to);
		} else {
			timesource *nt = ts[g.below(3)];
			unsigned tail = r->_tail;
			bool ret = change_timesource(r, nt, to);
			if (!ret) CHECK(slept >= to, "timeout after %lu of %u us", (unsigned long) slept, to);
			bool stored = r->_tail != tail;
			if (ret && to) for (auto x : rings) CHECK(x->timesource() == nt && e->_timesource == nt, "acknowledged, but ring %s uses %s", x->name(), x->timesource()->name());
			if (stored) { e->process_rings(); e->process_rings(); cur = nt; }
			for (auto x : rings) CHECK(x->timesource() == cur && e->_timesource == cur, "ring %s uses %s after the change to %s", x->name(), x->timesource()->name(), cur->name());
		}
		sleep_hook = nullptr;
	}
	for (unsigned i = 0; i < 4; i++) e->process_rings();
	for (auto r : rings) CHECK(f.out[r->name()] == posted[r->name()], "ring %s: %lu of %lu output", r->name(), (unsigned long) f.out[r->name()], (unsigned long) posted[r->name()]);
	for (auto r : rings) r->release();
	delete e; delete a;
	tls::_ring = keep;
}
// the acknowledgement of a time source change comes after every ring has it: watched at every lock operation of the engine
static void watched(Rng &g)
{
	RingFmt f; NullOut out(f);
	timesource t0("t0", tick), t1("t1", tick);
	engine::options o = engine::default_options;
	o.tso_buffer_capacity = 16; o.features = g.chance(50) ? 0 : engine::DISABLE_TSO; o.timesource = &t0;
	engine *e = new engine(out, o);
	ringbuf *keep = tls::_ring; tls::_ring = &default_ring;
	std::vector<ringbuf *> rings;
	for (unsigned k = 0; k < 4; k++) {
		ringbuf::options ro; ro.capacity = 8; ro.prio = k; ro.flags = 0; ro.record_tailroom = 128;
		rings.push_back(e->add_ring(("r" + std::to_string(k)).c_str(), ro));
	}
	ringbuf *r = rings[g.below(4)];
	unsigned tail = r->_tail;
	slept = 0; sleeps = 0; sleep_hook = nullptr;
	CHECK(change_timesource(r, &t1, 0), "not accepted");
	record *sp = r->get_record(tail);
	auto look = [&]() { if (flush_ack_seen(sp)) for (auto x : rings) CHECK(x->timesource() == &t1 && e->_timesource == &t1, "acknowledged before ring %s was switched", x->name()); };
	bool added = false;
	sync_hook = [&]() {
		look();
		if (!added && g.chance(30)) {
			added = true;
			ringbuf::options ro; ro.capacity = 8; ro.prio = 0; ro.flags = 0; ro.record_tailroom = 128;
			rings.push_back(e->add_ring("new", ro));
		}
	};
	for (unsigned i = 0; i < 3; i++) e->process_rings();
	sync_hook = nullptr;
	CHECK(flush_ack_seen(sp), "never acknowledged");
	look();
	for (auto x : rings) x->release();
	delete e;
	tls::_ring = keep;
}
static void one(uint64_t seed)
{
	Rng g(seed);
	unsigned cap = g.pick<unsigned>({ 2, 4, 16 });
	scripted(g, g.pick<unsigned>({ 0, 1, 999, 1000, 1001, 2500, 20000, 1000000 }), g.chance(50), g.below(8), cap, g.chance(50) ? 64 : g.below(cap), g.pick<unsigned>({ 0, 3, 30, 100 }), g.pick<unsigned>({ 0, 3, 40, 100 }), g.chance(40));
	live(g, seed & 1);
	watched(g);
}
void witness(const Witness &w)
{
	for (unsigned i = 0; i < 300; i++) {
		Rng g(i + 1);
		unsigned to = w.get("timeout", 1000);
		if (to > 5000000) to = 5000000;
		scripted(g, to, i & 1, w.get("ring.flags", 1), 4, (i & 2) ? 64 : 2, (i & 4) ? 40 : 0, (i & 8) ? 40 : 0, i & 16);
		one(i * 31 + w.get("rec", 1));
	}
}
void search(uint64_t seed)
{
	for (unsigned i = 0; i < 1500; i++) { one(seed * 10007 + i); if (i % 8 == 0) registry_run(seed * 77 + i, 4 + i % 30, i % 16 == 0); }
	default_ring.reset();
}
