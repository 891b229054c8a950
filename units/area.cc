// Forces emission of the inline members of the real headers; contains no logic of its own.
#include "hogl/detail/area.hpp"
#include "hogl/detail/mask.hpp"
#include <new>
using namespace hogl;
#define KEEP(n, ...) __attribute__((used)) auto hv_keep_##n = __VA_ARGS__;
KEEP(1, &bitmap::resize) KEEP(2, (void (bitmap::*)()) &bitmap::set) KEEP(3, (void (bitmap::*)(unsigned, bool)) &bitmap::set) KEEP(4, &bitmap::test)
KEEP(5, (void (bitmap::*)()) &bitmap::reset) KEEP(6, (void (bitmap::*)(unsigned)) &bitmap::reset) KEEP(7, &bitmap::size)
KEEP(11, &area::name) KEEP(12, &area::section_name) KEEP(13, &area::count) KEEP(14, &area::size) KEEP(15, &area::test)
KEEP(16, (void (area::*)()) &area::set) KEEP(17, (void (area::*)()) &area::reset) KEEP(18, (void (area::*)(unsigned, bool)) &area::set)
KEEP(19, (void (area::*)(unsigned)) &area::reset) KEEP(20, (void (area::*)()) &area::enable) KEEP(21, (void (area::*)(unsigned, bool)) &area::enable)
KEEP(22, (void (area::*)()) &area::disable) KEEP(23, (void (area::*)(unsigned)) &area::disable) KEEP(24, &area::operator!=)
KEEP(25, (void (mask::*)(area *) const) &mask::apply)
extern "C" {
__attribute__((used)) void hv_bm_ctor(void *p, unsigned n) { new (p) bitmap(n); }
__attribute__((used)) void hv_bm_copy(void *p, const bitmap *o) { new (p) bitmap(*o); }
__attribute__((used)) void hv_bm_dtor(bitmap *p) { p->~bitmap(); }
}
