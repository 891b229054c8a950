// R02: geometry of a constructed ring.
#include "hvreplay.hpp"
#include "hogl/detail/ringbuf.hpp"
using namespace hogl;
static void one(unsigned cap, unsigned room, unsigned flags, unsigned prio)
{
	ringbuf::options o = { cap, prio, flags, room };
	char nm[16]; strcpy(nm, "RING");
	ringbuf *r = new ringbuf(nm, o);
	nm[0] = 'x';
	CHECK(!strcmp(r->name(), "RING"), "name is not a private copy");
	unsigned C = r->capacity();
	CHECK(C >= cap && (C & (C - 1)) == 0 && C < 2ull * cap, "capacity %u for requested %u", C, cap);
	CHECK(r->record_tailroom() >= room && r->record_tailroom() >= record::argval_size(), "tail room %u for requested %u", r->record_tailroom(), room);
	CHECK(r->record_size() == record::header_size() + r->record_tailroom(), "record size %u tail room %u", r->record_size(), r->record_tailroom());
	CHECK(r->empty() && r->size() == 0 && r->room() == C - 1, "not empty after construction: size %u room %u", r->size(), r->room());
	CHECK(r->seqnum() == 0 && r->dropcnt() == 0, "counters not zero");
	CHECK(r->_flags == flags && r->refcnt() == 0 && !r->_block_active, "flags/refcnt");
	CHECK(r->prio() == (prio > 9999 && (int) prio > 0 ? 9999 : (int) prio), "priority %d for requested %u", r->prio(), prio);
	uint8_t *base = (uint8_t *) r->get_record(0);
	for (size_t b = 0; b < (size_t) C * r->record_size(); b++) CHECK(base[b] == 0, "storage not zeroed");
	for (unsigned i = 0; i < C; i++) {
		record *x = r->get_record(i);
		CHECK((uint8_t *) x == base + (size_t) i * r->record_size(), "slot %u of %u misplaced", i, C);
		CHECK(r->get_index(x) == i, "index of slot %u is %u", i, r->get_index(x));
		memset((void *) x, 0x5a, r->record_size());
	}
	r->hold();
	record *a = r->push_begin(); (void) a; r->push_commit();
	r->_seqnum = 5; r->_dropcnt = 7; r->_head = 1 & r->_capacity; 
	r->reset();
	CHECK(r->empty() && r->size() == 0 && r->seqnum() == 0 && r->dropcnt() == 0 && r->_tail < C && r->_head < C, "reset left size %u seq %lu drop %lu", r->size(), (unsigned long) r->seqnum(), (unsigned long) r->dropcnt());
	if (r->shared()) { CHECK(pthread_mutex_trylock(&r->_mutex) == 0, "reset left the ring locked"); pthread_mutex_unlock(&r->_mutex); }
	r->release();
}
void witness(const Witness &w)
{
	uint64_t c = w.get("capacity", 16), t = w.get("tailroom", 128);
	if (c >= 2 && c <= (1 << 16) && t <= (1 << 16) && c * (t + 200) < (1u << 28)) one(c, t, w.get("flags"), w.get("prio"));
}
void search(uint64_t seed)
{
	Rng g(seed);
	for (unsigned c = 2; c < 70; c++) one(c, 128, 0, 0);
	for (unsigned t = 0; t < 700; t++) one(4, t, 1, 0);
	for (unsigned k = 0; k < 2000; k++) one(2 + g.below(1u << g.below(11)), g.below(1u << g.below(12)), g.below(16), g.pick({0u, 1u, 9998u, 9999u, 10000u, 20000u}));
}
