// A real engine driven round by round from one thread, with a recording format as its output.
#pragma once
#include "hvreplay.hpp"
#include "hogl/detail/internal.hpp"
#include "hogl/detail/engine.hpp"
#include "hogl/detail/ringbuf.hpp"
#include "hogl/detail/output.hpp"
#include "hogl/detail/ostrbuf-null.hpp"
#include "hogl/post.hpp"
#include "hogl/area.hpp"
using namespace hogl;
extern "C" int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*)(void *), void *) { *t = 0; return 0; }
extern "C" int __wrap_pthread_join(pthread_t, void **) { return 0; }
static uint64_t now_ns;
static timestamp fixed_clock(const timesource *) { timestamp t; t.from_nsec(now_ns); return t; }
struct Rec { uint64_t id, seq, ts; int ring; bool out; };
struct Sim : public hogl::format {
	engine *e = 0;
	std::vector<ringbuf *> rings;
	std::vector<std::string> names;
	std::vector<std::deque<Rec>> stored;          // committed and not yet output, per ring
	std::vector<uint64_t> expect, marks, drops, missing, last_ts;
	std::vector<uint64_t> pendmark;               // drop mark seen, record not yet
	std::vector<bool> havemark;
	std::function<void()> during;
	uint64_t ids = 0, outn = 0;
	bool monotone = true, dropmark = true, tso = true, fullmark = true;
	area *a;
	int injected_full = 0;
	static const char *sect[];
	Sim() { a = new area("SIM", sect); a->enable(); }
	~Sim() { delete a; }
	void post(int r, uint64_t ts)
	{
		ringbuf *g = rings[r];
		unsigned tail = g->_tail; uint64_t seq = g->_seqnum;
		now_ns = ts;
		uint64_t id = ++ids;
		hogl::post_unlocked(g, a, 0U, "id %llu", (unsigned long) id);
		CHECK(g->_seqnum == seq + 1, "post used %lu sequence numbers", (unsigned long) (g->_seqnum - seq));
		if (g->_tail != tail) stored[r].push_back(Rec { id, seq, ts, r, false });
		else drops[r]++;
	}
	int find(const char *n) { for (unsigned k = 0; k < names.size(); k++) if (names[k] == n) return k; return -1; }
	void process(ostrbuf &, const data &d) override
	{
		const record *r = d.record;
		std::string nm = d.ring_name;
		if (r->area == e->_internal_area) {
			if (r->section == internal::DROPMARK) {
				int k = find(d.ring_name);
				CHECK(k >= 0, "drop mark for unknown ring %s", d.ring_name);
				CHECK(dropmark, "drop mark while drop marks are disabled");
				CHECK(!havemark[k], "ring %d: gap announced twice", k);
				havemark[k] = true; pendmark[k] = r->argval[1].u64; marks[k] += r->argval[1].u64;
				CHECK(!strcmp((const char *) r->argval[0].u64, "dropped %llu record(s)"), "drop mark text");
			} else if (r->section == internal::TSOFULLMARK) {
				CHECK(fullmark, "full mark while disabled");
				injected_full++;
			}
			return;
		}
		int k = find(d.ring_name);
		CHECK(k >= 0, "record from unknown ring %s", d.ring_name);
		CHECK(r->area == a, "garbage record output for ring %d", k);
		uint64_t id = r->argval[1].u64;
		CHECK(!stored[k].empty(), "ring %d: record %lu output although nothing is stored", k, (unsigned long) id);
		Rec w = stored[k].front();
		CHECK(w.id == id, "ring %d: record %lu output instead of %lu (lost, repeated or out of order)", k, (unsigned long) id, (unsigned long) w.id);
		CHECK(r->seqnum == w.seq && r->timestamp == timestamp(w.ts), "ring %d record %lu changed while held", k, (unsigned long) id);
		uint64_t gap = w.seq - expect[k];
		if (tso) {
			if (dropmark) CHECK((gap != 0) == havemark[k] && (!gap || pendmark[k] == gap), "ring %d record %lu: %lu missing, announced %d (%lu)", k, (unsigned long) id, (unsigned long) gap, (int) havemark[k], (unsigned long) pendmark[k]);
			missing[k] += gap;
		}
		havemark[k] = false; expect[k] = w.seq + 1;
		if (tso && monotone)
			for (unsigned i = e->_tso._head; i < e->_tso._tail; i++)
				CHECK(!(e->_tso._entry[i].timestamp < timestamp(w.ts)), "record %lu of ring %d (%lu) output while an older one (%lu) is held", (unsigned long) id, k, (unsigned long) w.ts, (unsigned long) (uint64_t) e->_tso._entry[i].timestamp);
		stored[k].pop_front();
		outn++;
		if (during) during();
	}
	void round()
	{
		for (unsigned k = 0; k < rings.size(); k++) havemark[k] = false;
		unsigned m = 0;
		for (auto &q : stored) m += q.size();
		e->process_rings();
	}
};
const char *Sim::sect[] = { "S0", "S1", 0 };
struct SimOut : public output { SimOut(format &f) : output(f) { init(new ostrbuf_null(64u)); } };
