// a stand-in format (its header and footer are events) and a stand-in scheduling parameter object
#include "hogl/detail/internal.hpp"
#include "hogl/detail/ostrbuf.hpp"
#include "hogl/detail/record.hpp"
#include "hogl/detail/format.hpp"
using namespace hogl;
extern "C" {
void hv_fmt_header(void *, const char *, bool);
void hv_fmt_footer(void *, const char *);
void hv_sb2_flush(void *, const uint8_t *, size_t);
void hv_sb2_delete(void *);
}
struct hv_fmt : public format {
	void process(ostrbuf &, const format::data &) override {}
	void header(ostrbuf &s, const char *n, bool f) override { hv_fmt_header(&s, n, f); }
	void footer(ostrbuf &s, const char *n) override { hv_fmt_footer(&s, n); }
};
struct hv_sb2 : public ostrbuf {
	hv_sb2() : ostrbuf(0) {}
	void do_flush(const uint8_t *d, size_t n) override { hv_sb2_flush(this, d, n); }
	~hv_sb2() { hv_sb2_delete(this); }
};
extern "C" {
__attribute__((used)) void hv_fmt_ctor(void *p) { new (p) hv_fmt(); }
__attribute__((used)) void hv_sb2_ctor(void *p) { new (p) hv_sb2(); }
}
