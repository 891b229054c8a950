// R05: captured arguments against an independent description of the stored record.
#include "hvreplay.hpp"
#include "hogl/detail/ringbuf.hpp"
#include "hogl/detail/post.hpp"
#include "hogl/post.hpp"
using namespace hogl;
struct Src { unsigned type; uint64_t val; std::string data; unsigned len; bool null; arg_xdump *xd; };
static arg mk(Src &s)
{
	switch (s.type) {
	case arg::UINT32: return arg((unsigned) s.val);
	case arg::INT32: return arg((int) s.val);
	case arg::UINT64: return arg((unsigned long) s.val);
	case arg::INT64: return arg((long) s.val);
	case arg::POINTER: return arg((void *) s.val);
	case arg::DOUBLE: { double d; memcpy(&d, &s.val, 8); return arg(d); }
	case arg::CSTR: return s.null ? arg((const char *) 0) : s.len & 1 ? arg(s.data) : arg(s.data.c_str());
	case arg::GSTR: { arg_gstr g((const char *) s.val); return arg(g); }
	case arg::XDUMP: return arg(*s.xd);
	case arg::RAW: { arg_raw r(s.data.data(), s.data.size()); return arg(r); }
	}
	return arg();
}
// expected content of the record buffer
static void expect(std::vector<Src> &a, std::vector<uint8_t> &buf, std::vector<bool> &def, unsigned room, uint64_t &types)
{
	unsigned off = a.size() * 8;
	types = 0;
	auto put32 = [&](unsigned o, uint32_t x) { for (int i = 0; i < 4; i++) { buf[o + i] = x >> (8 * i); def[o + i] = true; } };
	for (unsigned i = 0; i < a.size(); i++) {
		types |= (uint64_t) a[i].type << (4 * i);
		unsigned left = room - off;
		std::string pay; bool store = true;
		if (a[i].type == arg::CSTR) {
			std::string s = a[i].null ? "" : a[i].data;
			if (s.empty() || !left) { put32(8 * i, 0); put32(8 * i + 4, 0); continue; }
			if (s.size() > left - 1) {
				s = s.substr(0, left - 1);
				if (s.size() > 3) s.replace(s.size() - 3, 3, ">>>");
			}
			put32(8 * i, off); put32(8 * i + 4, s.size());
			pay = s; pay.push_back(0);
		} else if (a[i].type == arg::RAW) {
			pay = a[i].data.substr(0, left);
			put32(8 * i, off); put32(8 * i + 4, pay.size());
		} else if (a[i].type == arg::XDUMP) {
			pay = std::string((const char *) &a[i].xd->fmt, 4) + a[i].data;
			pay = pay.substr(0, left);
			if (pay.size() < 4) { put32(8 * i, 0); put32(8 * i + 4, 0); continue; }
			put32(8 * i, off); put32(8 * i + 4, pay.size());
		} else {
			put32(8 * i, a[i].val);
			if (a[i].type != arg::UINT32 && a[i].type != arg::INT32) put32(8 * i + 4, a[i].val >> 32);
			continue;
		}
		for (unsigned k = 0; k < pay.size(); k++) { buf[off + k] = pay[k]; def[off + k] = true; }
		off += pay.size();
	}
}
static void one(std::vector<Src> a, unsigned room)
{
	unsigned n = a.size();
	for (auto &s : a) if (s.type == arg::XDUMP) s.xd = new arg_xdump(s.data.data(), s.data.size(), s.val & 255, (s.val >> 8) & 15, (s.val >> 12) & 15, (s.val >> 16) & 255, (s.val >> 24) & 255);
	arg A[16]; for (unsigned i = 0; i < n; i++) A[i] = mk(a[i]);
	for (int way = 0; way < 2; way++) {
		uint8_t *mem = (uint8_t *) malloc(record::header_size() + room);   // exactly the slot: the sanitizer watches both ends
		memset(mem, 0xA5, record::header_size() + room);
		record *r = (record *) mem;
		if (way == 0)
			r->set_args(room, A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7], A[8], A[9], A[10], A[11], A[12], A[13], A[14], A[15]);
		else {
			argpack ap;
			unsigned c = ap.populate(A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7], A[8], A[9], A[10], A[11], A[12], A[13], A[14], A[15]);
			unsigned ec = 0; for (auto &s : a) ec += s.type == arg::CSTR || s.type == arg::XDUMP || s.type == arg::RAW;
			CHECK(!c == !ec, "populate counts %u of %u complex arguments", c, ec);
			CHECK(ap.nargs() == n, "pack has %u of %u arguments", ap.nargs(), n);
			r->set_args(room, ap);
		}
		std::vector<uint8_t> buf(room, 0xA5); std::vector<bool> def(room, false);
		uint64_t types;
		expect(a, buf, def, room, types);
		CHECK(r->argtype == types, "way %d: types %lx, expected %lx", way, (unsigned long) r->argtype, (unsigned long) types);
		const uint8_t *p = (const uint8_t *) r->argval;
		for (unsigned k = 0; k < room; k++) {
			bool upper = k < 8 * n && !def[k];   // upper half of a 32 bit value: unspecified
			if (!upper) CHECK(p[k] == buf[k], "way %d: payload byte %u is %02x, expected %02x (room %u, %u args)", way, k, p[k], buf[k], room, n);
		}
		for (unsigned k = 0; k < 24; k++) CHECK(mem[k] == 0xA5, "header byte %u written", k);
		for (unsigned i = 0; i < n; i++) {
			CHECK(r->get_arg_type(i) == a[i].type, "get_arg_type");
			unsigned l; const uint8_t *d = r->get_arg_data(i, l);
			CHECK(d == (uint8_t *) r->argval + r->argval[i].data.offset && l == r->argval[i].data.len, "get_arg_data");
			CHECK(r->get_arg_val64(i) == r->argval[i].u64 && r->get_arg_val32(i) == r->argval[i].u32, "get_arg_val");
		}
		free(mem);
	}
	for (auto &s : a) if (s.type == arg::XDUMP) delete s.xd;
}
static Src mksrc(unsigned type, uint64_t val, unsigned len, Rng &g)
{
	Src s; s.type = type; s.val = val; s.len = len; s.null = type == arg::CSTR && !len && (val & 1); s.xd = 0;
	if (type == arg::CSTR || type == arg::XDUMP || type == arg::RAW)
		for (unsigned k = 0; k < len; k++) s.data.push_back(type == arg::CSTR ? 1 + g.below(255) : g.below(256));
	return s;
}
template <class T> static void ct(T x, unsigned type, uint64_t val, const char *n)
{
	arg a(x);
	uint64_t m = type == arg::UINT32 || type == arg::INT32 ? 0xffffffff : ~0ull;
	CHECK(a.type == type && (a.val & m) == (val & m), "arg(%s) has type %u value %lx", n, a.type, (unsigned long) a.val);
}
static void ctors(Rng &g)
{
	for (int k = 0; k < 200; k++) {
		uint64_t x = k < 8 ? (uint64_t) (k - 4) : g.next() >> g.below(64);
		ct((bool) (x & 1), arg::UINT32, x & 1, "bool"); ct((uint8_t) x, arg::UINT32, (uint8_t) x, "uint8_t"); ct((uint16_t) x, arg::UINT32, (uint16_t) x, "uint16_t");
		ct((int16_t) x, arg::INT32, (int16_t) x, "short"); ct((char) x, arg::INT32, (char) x, "char"); ct((unsigned) x, arg::UINT32, (unsigned) x, "unsigned"); ct((int) x, arg::INT32, (int) x, "int");
		ct((unsigned long) x, arg::UINT64, x, "unsigned long"); ct((long) x, arg::INT64, x, "long"); ct((unsigned long long) x, arg::UINT64, x, "unsigned long long"); ct((long long) x, arg::INT64, x, "long long");
		ct((void *) x, arg::POINTER, x, "void *"); ct((volatile void *) x, arg::POINTER, x, "volatile void *");
		double d = (double) (int64_t) x / 3; uint64_t u; memcpy(&u, &d, 8); ct(d, arg::DOUBLE, u, "double");
		float f = (float) d; d = f; memcpy(&u, &d, 8); ct(f, arg::DOUBLE, u, "float");
	}
}
static Rng G(7);
void witness(const Witness &w)
{
	ctors(G);
	uint64_t room = w.get("tailroom", 256);
	if (room < 128) room = 128;
	if (room > 5000) room = 128 + room % 5000;
	std::vector<Src> a;
	unsigned n = w.has("nargs") ? w.get("nargs") : w.has("i") ? w.get("i") + 1 : 4;
	if (n > 16) n = 16;
	uint64_t at = w.get("argtype");
	for (unsigned i = 0; i < n; i++) {
		unsigned t = (at >> (4 * i)) & 15;
		if (i + 1 == n && w.has("arg.type")) t = w.get("arg.type");
		if (!t || t > arg::RAW) t = 1 + i % arg::RAW;
		a.push_back(mksrc(t, w.get("arg.val", i), std::min<uint64_t>(w.get("len", 20), 6000), G));
	}
	one(a, room);
}
void search(uint64_t seed)
{
	Rng g(seed); G = g;
	ctors(g);
	for (unsigned n = 0; n <= 16; n++)
		for (unsigned t = 1; t <= arg::RAW; t++)
			for (unsigned d = 0; d < 12; d++) {   // the last argument meets every small amount of room
				std::vector<Src> a;
				for (unsigned i = 0; i + 1 < n; i++) a.push_back(mksrc(arg::INT64, g.next(), 0, g));
				if (n) {
					unsigned room = 128;
					if (t == arg::CSTR || t == arg::RAW || t == arg::XDUMP) {
						if (n >= 2) a[0] = mksrc(arg::RAW, 0, room - 8 * n - d > room ? 0 : room - 8 * n - d, g);
						a.push_back(mksrc(t, g.next(), g.below(16), g));
					} else
						a.push_back(mksrc(t, g.next(), 0, g));
				}
				one(a, 128);
			}
	for (int k = 0; k < 20000; k++) {
		unsigned room = 128 + g.below(g.pick({1, 10, 200, 2000}));
		unsigned n = g.below(17);
		std::vector<Src> a;
		for (unsigned i = 0; i < n; i++) {
			unsigned t = 1 + g.below(arg::RAW);
			if (g.chance(30)) t = g.pick({(unsigned) arg::CSTR, (unsigned) arg::XDUMP, (unsigned) arg::RAW});
			a.push_back(mksrc(t, g.next() >> g.below(64), g.chance(10) ? room : g.below(g.pick({1, 5, 10, 40, 300})), g));
		}
		one(a, room);
	}
}
