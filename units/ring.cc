// Forces emission of the inline members of the real headers; contains no logic of its own.
#include "hogl/detail/ringbuf.hpp"
using namespace hogl;
#define KEEP(n, ...) __attribute__((used)) auto hv_keep_##n = __VA_ARGS__;
typedef ringbuf::pop_iterator pit;
KEEP(1, &ringbuf::get_record) KEEP(2, &ringbuf::get_index) KEEP(3, &ringbuf::commit_head) KEEP(4, &ringbuf::commit_tail)
KEEP(5, &ringbuf::size) KEEP(6, &ringbuf::room) KEEP(7, &ringbuf::empty) KEEP(8, &ringbuf::capacity) KEEP(9, &ringbuf::record_size)
KEEP(10, &ringbuf::record_tailroom) KEEP(11, &ringbuf::inc_seqnum) KEEP(12, &ringbuf::inc_dropcnt) KEEP(13, &ringbuf::timestamp)
KEEP(14, &ringbuf::hold) KEEP(15, &ringbuf::release) KEEP(16, &ringbuf::lock) KEEP(17, &ringbuf::unlock) KEEP(18, &ringbuf::block) KEEP(19, &ringbuf::unblock)
KEEP(20, &ringbuf::push_begin) KEEP(21, &ringbuf::push_commit) KEEP(22, &ringbuf::pop_begin) KEEP(23, &ringbuf::pop_commit)
KEEP(24, &ringbuf::orphan) KEEP(25, &ringbuf::shared) KEEP(26, &ringbuf::immortal) KEEP(27, &ringbuf::reusable) KEEP(28, &ringbuf::blocking)
KEEP(29, &ringbuf::refcnt) KEEP(30, &ringbuf::seqnum) KEEP(31, &ringbuf::dropcnt) KEEP(32, &ringbuf::prio)
KEEP(33, &pit::next) KEEP(34, &pit::rewind) KEEP(35, &pit::commit) KEEP(36, &pit::reset)
KEEP(37, (ringbuf* (pit::*)()) &pit::ring) KEEP(38, (void (pit::*)(ringbuf*)) &pit::ring) KEEP(39, &pit::valid) KEEP(40, &pit::invalidate)
KEEP(41, &pit::const_ring)
extern "C" {
__attribute__((used)) void hv_pit_ctor(void *p, ringbuf *r) { new (p) ringbuf::pop_iterator(r); }
__attribute__((used)) void hv_pit_ctor0(void *p) { new (p) ringbuf::pop_iterator(); }
}
