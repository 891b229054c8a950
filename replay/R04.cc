// R04: forced schedules of a blocking ring: the reader makes room at every synchronisation point of the writer and vice versa.
#include "hvreplay.hpp"
#include "hogl/detail/ringbuf.hpp"
#include <atomic>
#include <time.h>
using namespace hogl;
static thread_local int role = 0;               // 1 writer, 2 reader
static std::atomic<int> wpoint(0), rpoint(0), wstop(-1), rstop(-1);
static std::atomic<bool> wreached(false), rreached(false), wgo(false), rgo(false), wdone(false), rdone(false);
static void pause_until(std::atomic<bool> &f, unsigned ms) { for (unsigned i = 0; i < ms * 20 && !f; i++) usleep(50); }
static void point()
{
	if (role == 1 && wpoint++ == wstop) { wreached = true; pause_until(wgo, 150); }
	if (role == 2 && rpoint++ == rstop) { rreached = true; pause_until(rgo, 150); }
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *); int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { point(); return __real_pthread_mutex_lock(m); }
int __real_pthread_mutex_unlock(pthread_mutex_t *); int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { point(); return __real_pthread_mutex_unlock(m); }
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *); int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { point(); return __real_pthread_cond_wait(c, m); }
int __real_pthread_cond_signal(pthread_cond_t *); int __wrap_pthread_cond_signal(pthread_cond_t *c) { point(); return __real_pthread_cond_signal(c); }
}
static ringbuf *R;
static void put(uint64_t x) { record *r = R->push_begin(); r->clear(); r->argval[0].u64 = x; r->seqnum = R->inc_seqnum(); R->push_commit(); }
static bool get(uint64_t &x) { record *r = R->pop_begin(); if (!r) return false; x = r->argval[0].u64; R->pop_commit(); return true; }
static uint64_t wfrom, wn;
static void *writer(void *) { role = 1; for (uint64_t i = 0; i < wn; i++) put(wfrom + i); wdone = true; return 0; }
static uint64_t rnext; static unsigned rbatch;
static void *reader(void *)
{
	role = 2;
	uint64_t x;
	for (unsigned k = 0; k < rbatch && get(x); k++) { CHECK(x == rnext, "record %lu read, expected %lu", (unsigned long) x, (unsigned long) rnext); rnext++; }
	R->unblock();
	rdone = true;
	return 0;
}
static ringbuf *mk(unsigned cap)
{
	ringbuf::options o; o.capacity = cap; o.prio = 0; o.flags = ringbuf::BLOCKING | ringbuf::IMMORTAL; o.record_tailroom = 128;
	return new ringbuf("R", o);
}
// ring full; writer posts one more; reader makes room exactly once
static void forced(unsigned cap, unsigned batch, int ws, int rs, bool reader_first)
{
	R = mk(cap);
	uint64_t n = 0;
	while (R->room()) put(n++);
	rnext = 0; rbatch = batch; wfrom = n; wn = 1;
	wpoint = rpoint = 0; wstop = reader_first ? -1 : ws; rstop = rs;
	wreached = rreached = wgo = rgo = wdone = rdone = false;
	pthread_t w, r;
	if (!reader_first) {
		pthread_create(&w, 0, writer, 0);
		for (int i = 0; i < 200 && !wreached && !wdone; i++) usleep(100);    // not reached: it sleeps in the wait
		pthread_create(&r, 0, reader, 0);
		for (int i = 0; i < 400 && !rdone && !rreached; i++) usleep(100);
		wgo = true;
		for (int i = 0; i < 100 && !wdone && rreached; i++) usleep(100);
		rgo = true;
	} else {
		pthread_create(&r, 0, reader, 0);
		for (int i = 0; i < 200 && !rreached && !rdone; i++) usleep(100);
		pthread_create(&w, 0, writer, 0);
		for (int i = 0; i < 100 && !wdone; i++) usleep(100);
		rgo = true;
	}
	for (int i = 0; i < 20000 && !(wdone && rdone); i++) usleep(100);
	CHECK(rdone, "capacity %u: the reader never returned from announcing room (writer paused at point %d, reader at %d)", cap, ws, rs);
	CHECK(wdone, "capacity %u: the reader made room for %u and announced it, the writer never resumed (writer paused at its synchronisation point %d, reader at %d)", cap, batch, ws, rs);
	pthread_join(w, 0); pthread_join(r, 0);
	CHECK(R->_dropcnt == 0, "a blocking ring dropped");
	uint64_t x;
	while (get(x)) { CHECK(x == rnext, "record %lu read, expected %lu", (unsigned long) x, (unsigned long) rnext); rnext++; }
	CHECK(rnext == n + 1, "%lu of %lu records came out", (unsigned long) rnext, (unsigned long) n + 1);
	delete R;
}
static void stress(unsigned cap, uint64_t n, unsigned batch)
{
	R = mk(cap);
	wstop = rstop = -1; wdone = false; wfrom = 0; wn = n; rnext = 0;
	pthread_t w; pthread_create(&w, 0, writer, 0);
	unsigned idle = 0;
	while (rnext < n) {
		uint64_t x; unsigned k = 0;
		for (; k < batch && get(x); k++) { CHECK(x == rnext, "record %lu read, expected %lu", (unsigned long) x, (unsigned long) rnext); rnext++; }
		if (k) { R->unblock(); idle = 0; }
		else if (++idle > 2000000) FAIL("capacity %u: no record for a long time after %lu of %lu: the writer sleeps in a ring with room %u", cap, (unsigned long) rnext, (unsigned long) n, R->room());
		else if (idle > 1000000) usleep(1);
	}
	pthread_join(w, 0);
	CHECK(R->_dropcnt == 0 && R->empty(), "dropped %lu", (unsigned long) R->_dropcnt);
	delete R;
}
static void all()
{
	for (unsigned cap : { 2u, 8u }) for (unsigned b : { 1u, 5u }) {
		for (int ws = -1; ws < 5; ws++) for (int rs = -1; rs < 5; rs++) forced(cap, b, ws, rs, false);
		for (int rs = 0; rs < 5; rs++) forced(cap, b, -1, rs, true);
	}
}
void witness(const Witness &) { all(); }
void search(uint64_t seed)
{
	all();
	Rng g(seed);
	for (int k = 0; k < 30; k++) stress(2u << g.below(6), 5000, 1 + g.below(20));
	// a ring that does not block refuses and counts
	ringbuf::options o; o.capacity = 4; o.prio = 0; o.flags = ringbuf::IMMORTAL; o.record_tailroom = 128;
	R = new ringbuf("N", o);
	for (int i = 0; i < 10; i++) put(i);
	CHECK(R->_dropcnt == 7 && R->size() == 3, "non-blocking ring of 4: dropped %lu, holds %u", (unsigned long) R->_dropcnt, R->size());
	delete R;
}
