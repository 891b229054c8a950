// Forces emission of the inline members of the real headers; contains no logic of its own.
#include "hogl/detail/ringbuf.hpp"
#include "hogl/detail/post.hpp"
#include "hogl/post.hpp"
#include <new>
using namespace hogl;
#define KEEP(n, ...) __attribute__((used)) auto hv_keep_##n = __VA_ARGS__;
KEEP(1, &record::copy_cstr) KEEP(2, &record::copy_data) KEEP(3, &record::copy_xdump) KEEP(4, &record::set_arg)
KEEP(5, (void (record::*)(unsigned, const argpack &)) &record::set_args) KEEP(6, &record::get_arg_data) KEEP(7, &record::get_arg_type)
KEEP(8, &record::get_arg_val32) KEEP(9, &record::get_arg_val64)
KEEP(11, (void (record::*)(uint32_t, uint64_t, uint64_t)) &record::special) KEEP(12, (bool (record::*)()) &record::special) KEEP(13, &record::ack) KEEP(14, &record::acked) KEEP(15, &record::clear)
KEEP(20, &argpack::nargs) KEEP(21, &argpack::set_arg) KEEP(22, &argpack::populate) KEEP(23, &argpack::get_arg_type)
typedef arg A; KEEP(30, (void (record::*)(unsigned, A,A,A,A,A,A,A,A,A,A,A,A,A,A,A,A)) &record::set_args)
extern "C" {
#define CT(n, T) __attribute__((used)) void hv_arg_##n(void *p, T x) { new (p) arg(x); }
CT(bool, bool) CT(u8, uint8_t) CT(u16, uint16_t) CT(i16, short) CT(char, char) CT(u32, unsigned) CT(i32, int) CT(ul, unsigned long) CT(l, long) CT(ull, unsigned long long) CT(ll, long long)
CT(ptr, void *) CT(vptr, volatile void *) CT(dbl, double) CT(flt, float) CT(cstr, const char *) CT(gstr, const arg_gstr &) CT(xd, const arg_xdump &) CT(raw, const arg_raw &) CT(str, const std::string &)
__attribute__((used)) void hv_arg_none(void *p) { new (p) arg(); }
__attribute__((used)) void hv_mk_gstr(void *p, const char *s) { new (p) arg_gstr(s); }
__attribute__((used)) void hv_mk_raw(void *p, const void *s, unsigned n) { new (p) arg_raw(s, n); }
__attribute__((used)) void hv_mk_xdump(void *p, const void *s, unsigned n, uint8_t t, uint8_t bw, uint8_t pr, uint8_t lw, char d) { new (p) arg_xdump(s, n, t, bw, pr, lw, d); }
__attribute__((used)) void hv_mk_argpack(void *p) { new (p) argpack(); }
__attribute__((used)) void hv_mk_record(void *p) { new (p) record(); }
__attribute__((used)) void hv_post_r(ringbuf *r, const area *a, unsigned s, __hogl_long_arg_list(16)) { post(r, a, s, __hogl_short_arg_list(16)); }
__attribute__((used)) void hv_post_t(const area *a, unsigned s, __hogl_long_arg_list(16)) { post(a, s, __hogl_short_arg_list(16)); }
__attribute__((used)) void hv_postu_r(ringbuf *r, const area *a, unsigned s, __hogl_long_arg_list(16)) { post_unlocked(r, a, s, __hogl_short_arg_list(16)); }
__attribute__((used)) void hv_postu_t(const area *a, unsigned s, __hogl_long_arg_list(16)) { post_unlocked(a, s, __hogl_short_arg_list(16)); }
__attribute__((used)) void hv_push(ringbuf *r, const area *a, unsigned s, __hogl_long_arg_list(16)) { push(r, a, s, __hogl_short_arg_list(16)); }
__attribute__((used)) void hv_pushu(ringbuf *r, const area *a, unsigned s, __hogl_long_arg_list(16)) { push_unlocked(r, a, s, __hogl_short_arg_list(16)); }
}
