// R07: every stored record is output exactly once, per ring in order, never before an older held one; slots are not reused before their record is out.
#include "engine.hpp"
static void run(Rng &g, unsigned cap, unsigned nrings, unsigned rcap, unsigned rounds, bool tso, bool monotone, bool reent)
{
	Sim s; SimOut out(s);
	engine::options o = engine::default_options;
	o.tso_buffer_capacity = cap; o.features = tso ? 0 : engine::DISABLE_TSO;
	timesource clk("sim", fixed_clock);
	o.timesource = &clk;
	engine *e = new engine(out, o);
	s.e = e; s.tso = tso; s.monotone = monotone;
	if (g.chance(40)) { e->_internal_area->disable(internal::TSOFULLMARK); s.fullmark = false; }
	if (g.chance(40)) { e->_internal_area->disable(internal::DROPMARK); s.dropmark = false; }
	for (unsigned k = 0; k < nrings; k++) {
		ringbuf::options ro; ro.capacity = rcap; ro.prio = g.below(5); ro.flags = 0; ro.record_tailroom = 128;
		std::string nm = "R" + std::to_string(k);
		ringbuf *r = e->add_ring(nm.c_str(), ro);
		s.rings.push_back(r); s.names.push_back(nm);
	}
	s.stored.resize(nrings); for (auto v : { &s.expect, &s.marks, &s.drops, &s.missing, &s.last_ts, &s.pendmark }) v->resize(nrings, 0);
	s.havemark.resize(nrings, false);
	uint64_t t = 1000;
	auto post1 = [&]() {
		int r = g.below(nrings);
		uint64_t ts = t += 1 + g.below(50);
		if (g.chance(70)) { ts = t - g.below(400) % t; }
		if (monotone && ts <= s.last_ts[r]) ts = s.last_ts[r] + 1;
		if (!monotone && g.chance(20)) ts = g.below(3);
		s.last_ts[r] = std::max(ts, s.last_ts[r]);
		s.post(r, ts);
	};
	if (reent) s.during = [&]() { if (g.chance(30)) post1(); };
	auto grow = [&]() {
		ringbuf::options ro; ro.capacity = rcap; ro.prio = g.below(5); ro.flags = g.chance(30) ? ringbuf::SHARED : 0; ro.record_tailroom = 128;
		// names sort before and after the ones there are
		std::string nm = std::string(1, 'A' + g.below(26)) + "x" + std::to_string(s.rings.size());
		ringbuf *r = e->add_ring(nm.c_str(), ro);
		s.rings.push_back(r); s.names.push_back(nm);
		nrings++;
		s.stored.resize(nrings); for (auto v : { &s.expect, &s.marks, &s.drops, &s.missing, &s.last_ts, &s.pendmark }) v->resize(nrings, 0);
		s.havemark.resize(nrings, false);
	};
	for (unsigned i = 0; i < rounds; i++) {
		if (g.chance(15)) grow();
		unsigned n = g.below(3) ? g.below(2 * rcap + 2) : g.below(nrings * rcap * 2 + 1);
		for (unsigned k = 0; k < n; k++) post1();
		s.round();
		for (unsigned k = 0; k < nrings; k++)
			for (auto &q : s.stored[k]) {
				// still in the ring: its slot must not be free
				bool in = false;
				ringbuf *r = s.rings[k];
				for (unsigned h = (r->_head + 1) & r->_capacity; h != r->_tail; h = (h + 1) & r->_capacity)
					if (r->get_record(h)->seqnum == q.seq) { in = true; break; }
				CHECK(in, "ring %u: record %lu neither output nor in the ring", k, (unsigned long) q.id);
			}
	}
	s.during = nullptr;
	unsigned left = 0; for (auto &q : s.stored) left += q.size();
	unsigned maxr = left + 3;
	for (unsigned i = 0; i < maxr; i++) { s.round(); }
	for (unsigned k = 0; k < nrings; k++) {
		CHECK(s.stored[k].empty(), "ring %u: %u records never output (capacity %u tso %d)", k, (unsigned) s.stored[k].size(), cap, (int) tso);
		CHECK(s.rings[k]->empty(), "ring %u: slots not given back", k);
		if (tso) {
			if (s.dropmark) CHECK(s.marks[k] == s.missing[k], "ring %u: announced %lu drops, %lu records missing", k, (unsigned long) s.marks[k], (unsigned long) s.missing[k]);
			uint64_t tail_lost = s.rings[k]->_seqnum - s.expect[k];
			CHECK(s.missing[k] + tail_lost == s.drops[k] && s.rings[k]->_dropcnt == s.drops[k], "ring %u: %lu posts dropped, %lu gaps seen, drop count %lu", k, (unsigned long) s.drops[k], (unsigned long) s.missing[k], (unsigned long) s.rings[k]->_dropcnt);
		}
	}
	if (tso) {
		uint64_t m = 0; for (auto x : s.missing) m += x;
		CHECK(e->_stats.recs_dropped == m, "drop statistic %lu, %lu missing", (unsigned long) e->_stats.recs_dropped, (unsigned long) m);
	}
	for (auto r : s.rings) r->release();
	delete e;
}
void search(uint64_t seed)
{
	for (unsigned i = 0; i < 1500; i++) {
		Rng g(seed * 7919 + i);
		unsigned cap = g.chance(60) ? 1 + g.below(9) : 1 + g.below(70);
		unsigned rcap = 2u << g.below(5);
		run(g, cap, 1 + g.below(5), rcap, 1 + g.below(8), g.chance(80), g.chance(70), g.chance(50));
	}
}
void witness(const Witness &w)
{
	Rng g(w.get("tso.capacity", 1));
	for (unsigned i = 0; i < 300; i++) {
		Rng g(i + 1);
		run(g, 1 + w.get("tso.capacity", 1) % 64, 1 + w.get("rings", 2) % 6, 8, 4, true, g.chance(70), g.chance(50));
	}
}
