// R01: the ring behaves as a FIFO queue of capacity-1 records.
#include "hvreplay.hpp"
#include "hogl/detail/ringbuf.hpp"
using namespace hogl;
static void walk(ringbuf *r, Rng &g, unsigned ops)
{
	unsigned C = r->capacity();
	std::deque<uint64_t> q;
	uint64_t next = 1;
	unsigned drops = r->dropcnt();
	auto consistent = [&](const char *w) {
		CHECK(r->size() == q.size(), "after %s: capacity %u size() %u, %zu unread", w, C, r->size(), q.size());
		CHECK(r->room() == C - 1 - q.size(), "after %s: capacity %u room() %u, %zu unread", w, C, r->room(), q.size());
		CHECK(r->empty() == q.empty(), "after %s: capacity %u empty() with %zu unread", w, C, q.size());
		CHECK(r->dropcnt() == drops, "after %s: drop count %lu expected %u", w, (unsigned long) r->dropcnt(), drops);
	};
	for (unsigned k = 0; k < ops; k++) {
		unsigned op = g.below(8);
		if (op < 4) {
			if (q.size() == C - 1 && r->blocking()) continue;
			record *rec = r->push_begin();
			rec->seqnum = next; rec->timestamp = timestamp(~next);
			// content fills the whole slot
			memset((uint8_t *) rec + record::header_size(), (int) next & 255, r->record_tailroom());
			bool full = q.size() == C - 1;
			r->push_commit(g.chance(50));
			if (full) drops++; else q.push_back(next);
			next++;
			consistent("push");
		} else if (op < 6) {
			record *rec = r->pop_begin();
			if (q.empty()) { CHECK(!rec, "pop_begin on an empty ring of capacity %u returned a record", C); continue; }
			CHECK(rec, "pop_begin returned nothing with %zu unread (capacity %u)", q.size(), C);
			CHECK(rec->seqnum == q.front() && rec->timestamp.to_nsec() == ~q.front(), "capacity %u: popped record %lu, expected %lu", C, (unsigned long) rec->seqnum, (unsigned long) q.front());
			uint8_t *d = (uint8_t *) rec + record::header_size();
			for (unsigned b = 0; b < r->record_tailroom(); b++)
				CHECK(d[b] == (uint8_t) q.front(), "capacity %u: content of record %lu damaged at byte %u", C, (unsigned long) q.front(), b);
			r->pop_commit(g.chance(50));
			q.pop_front();
			consistent("pop");
		} else {
			ringbuf::pop_iterator it(r);
			if (g.chance(30)) it.reset();
			if (g.chance(30)) it.ring(r);
			unsigned n = g.below(q.size() + 2), seen = 0;
			size_t snap = q.size();
			std::vector<record *> recs;
			// pushes during the walk do not show up in the snapshot
			while (seen < n) {
				if (g.chance(20) && q.size() < C - 1) { record *rec = r->push_begin(); rec->seqnum = next; rec->timestamp = timestamp(~next);
					memset((uint8_t *) rec + record::header_size(), (int) next & 255, r->record_tailroom()); r->push_commit(); q.push_back(next); next++; }
				record *rec = it.next();
				if (seen >= snap) { CHECK(!rec, "iterator went past its snapshot of %zu (capacity %u)", snap, C); break; }
				CHECK(rec, "iterator ended after %u of %zu (capacity %u)", seen, snap, C);
				CHECK(rec->seqnum == q[seen] && rec->timestamp.to_nsec() == ~q[seen], "iterator record %u is %lu expected %lu (capacity %u)", seen, (unsigned long) rec->seqnum, (unsigned long) q[seen], C);
				recs.push_back(rec);
				seen++;
			}
			CHECK(r->size() == q.size(), "iterating consumed records (capacity %u)", C);
			if (!recs.empty() && g.chance(60)) { unsigned j = g.below(recs.size()); it.rewind(recs[j]); seen = j + 1; }
			if (g.chance(70)) { it.commit(g.chance(50)); for (unsigned j = 0; j < seen; j++) q.pop_front(); }
			consistent("iterator");
		}
	}
	for (;;) { record *x = r->pop_begin(); if (!x) break; CHECK(!q.empty() && x->seqnum == q.front(), "drain out of order"); q.pop_front(); r->pop_commit(); }
	CHECK(q.empty(), "records lost: %zu", q.size());
}
struct Two { ringbuf *r; uint64_t n; };
static void *writer(void *a)
{
	Two *t = (Two *) a;
	for (uint64_t i = 1; i <= t->n; ) {
		record *rec = t->r->push_begin();
		uint64_t d = t->r->dropcnt();
		rec->seqnum = i; rec->timestamp = timestamp(i * 3); rec->argval[0].u64 = i * 7;
		t->r->push_commit();
		if (t->r->dropcnt() == d) i++;
	}
	return 0;
}
static void threads(unsigned cap, uint64_t n)
{
	ringbuf::options o = { cap, 0, 0, 128 };
	ringbuf *r = new ringbuf("TWO", o);
	r->hold();
	Two t = { r, n };
	pthread_t th; pthread_create(&th, 0, writer, &t);
	uint64_t e = 1; unsigned k = 0;
	while (e <= n) {
		if (k++ & 1) {
			record *rec = r->pop_begin();
			if (!rec) continue;
			CHECK(rec->seqnum == e && rec->timestamp.to_nsec() == e * 3 && rec->argval[0].u64 == e * 7, "two threads: record %lu torn or out of order", (unsigned long) e);
			r->pop_commit(); e++;
		} else {
			ringbuf::pop_iterator it(r); record *rec;
			while ((rec = it.next())) {
				CHECK(rec->seqnum == e && rec->timestamp.to_nsec() == e * 3 && rec->argval[0].u64 == e * 7, "two threads: record %lu torn or out of order", (unsigned long) e);
				e++;
			}
			it.commit();
		}
	}
	pthread_join(th, 0);
	r->release();
}
static void one(uint64_t seed, unsigned cap, unsigned room, unsigned flags, unsigned ops)
{
	Rng g(seed);
	ringbuf::options o = { cap, 0, flags, room };
	ringbuf *r = new ringbuf("R", o);
	r->hold();
	walk(r, g, ops);
	r->release();
}
void witness(const Witness &w)
{
	// put a small ring into the state of the counterexample and walk on from there
	unsigned C = w.get("ring.mask", 7) & 1023; unsigned cap = 1; while (cap < C + 1 || cap < 2) cap <<= 1;
	for (unsigned turn = 0; turn < 4; turn++) {
		Rng g(turn + 1);
		ringbuf::options o = { cap, 0, (unsigned) w.get("ring.flags") & 1, 128 };
		ringbuf *r = new ringbuf("W", o); r->hold();
		r->_head = w.get("ring.head") & (cap - 1); r->_tail = (r->_head + 1) & (cap - 1); r->_dropcnt = w.get("ring.dropcnt") & 0xffff;
		walk(r, g, 20 * cap);
		r->release();
	}
}
void search(uint64_t seed)
{
	Rng g(seed);
	for (unsigned k = 0; k < 400; k++)
		one(g.next(), g.pick({2u, 4u, 8u, 16u, 64u, 3u, 5u, 100u}), g.pick({0u, 64u, 128u, 129u, 200u, 1000u}), g.pick({0u, 1u, 8u, 9u}), 600);
	for (unsigned c : {2u, 4u, 64u, 1024u}) threads(c, 100000);
}
