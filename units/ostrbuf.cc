// Forces emission of the inline members of the real output buffer headers; hv_sb stands for any derived buffer.
#include "hogl/detail/internal.hpp"
#include "hogl/detail/ostrbuf.hpp"
#include "hogl/detail/ostrbuf-null.hpp"
using namespace hogl;
extern "C" {
void hv_do_flush(void *, const uint8_t *, size_t);
bool hv_failed(const void *);
const char *hv_error(const void *);
}
struct hv_sb : public ostrbuf {
	hv_sb() : ostrbuf(0) {}
	void do_flush(const uint8_t *d, size_t n) override { hv_do_flush(this, d, n); }
	bool failed() const override { return hv_failed(this); }
	const char *error() const override { return hv_error(this); }
};
#define KEEP(n, ...) __attribute__((used)) auto hv_keep_##n = __VA_ARGS__;
KEEP(1, (void (ostrbuf::*)()) &ostrbuf::flush) KEEP(2, (void (ostrbuf::*)(const uint8_t *, size_t)) &ostrbuf::flush) KEEP(3, (void (ostrbuf::*)(const uint8_t *, size_t)) &ostrbuf::push_back)
KEEP(4, (void (ostrbuf::*)(const char *, size_t)) &ostrbuf::push_back) KEEP(5, (void (ostrbuf::*)(const char *)) &ostrbuf::push_back) KEEP(6, (void (ostrbuf::*)(const std::string &)) &ostrbuf::push_back)
KEEP(7, (void (ostrbuf::*)(char)) &ostrbuf::push_back) KEEP(8, &ostrbuf::reset) KEEP(9, &ostrbuf::capacity) KEEP(10, &ostrbuf::size) KEEP(11, &ostrbuf::head)
extern "C" {
__attribute__((used)) void hv_sb_ctor(void *p) { new (p) hv_sb(); }
__attribute__((used)) void hv_null_ctor(void *p, unsigned n) { new (p) ostrbuf_null(n); }
__attribute__((used)) void hv_null_ctor2(void *p, const char *e) { new (p) ostrbuf_null(e); }
}
