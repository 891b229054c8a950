// Forces emission of the inline members of the real header; contains no logic of its own.
#include "hogl/detail/timestamp.hpp"
#include <new>
using namespace hogl;
typedef timestamp T;
#define KEEP(n, ...) __attribute__((used)) auto hv_keep_##n = __VA_ARGS__;
KEEP(1, (bool (T::*)(const T&) const) &T::operator<) KEEP(2, &T::operator>) KEEP(3, &T::operator==) KEEP(4, &T::operator=)
KEEP(5, &T::from_timespec) KEEP(6, &T::to_timespec) KEEP(7, &T::from_nsec) KEEP(8, &T::to_nsec) KEEP(9, &T::from_usec) KEEP(10, &T::to_usec)
KEEP(11, &T::from_msec) KEEP(12, &T::to_msec) KEEP(13, &T::from_sec) KEEP(14, &T::to_sec) KEEP(15, &T::operator uint64_t)
KEEP(16, (void (T::*)(uint64_t)) &T::operator+=) KEEP(17, (void (T::*)(int)) &T::operator+=) KEEP(18, &T::operator++) KEEP(19, &T::operator--)
KEEP(20, (T (T::*)(uint64_t) const) &T::operator+) KEEP(21, (T (T::*)(uint64_t) const) &T::operator-)
KEEP(22, (T (T::*)(int) const) &T::operator+) KEEP(23, (T (T::*)(int) const) &T::operator-)
KEEP(24, (T (T::*)(const T&) const) &T::operator+) KEEP(25, (T (T::*)(const T&) const) &T::operator-)
extern "C" {
__attribute__((used)) void hv_ts_copy(void *p, const T *o) { new (p) T(*o); }
__attribute__((used)) void hv_ts_u64(void *p, uint64_t v) { new (p) T(v); }
__attribute__((used)) void hv_ts_def(void *p) { new (p) T(); }
__attribute__((used)) void hv_ts_tspec(void *p, const timespec *o) { new (p) T(*o); }
}
