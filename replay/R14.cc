// R14: reference counts, retirement, thread-local bindings and activation of real rings and engines.
#include "registry.hpp"
#include <stdexcept>
#include "hogl/engine.hpp"
static void nesting(Rng &g)
{
	Rng r(g.next());
	{
		World w(r, true);
		ringbuf *base = tls::_ring;
		std::vector<tls *> st; std::vector<ringbuf *> prev;
		std::map<ringbuf *, int> before;
		for (unsigned i = 0; i < 30; i++) {
			ringbuf *cur = tls::ring();
			if (g.chance(60) && st.size() < 6) {
				std::string n(1, 'a' + g.below(4));
				ringbuf::options o; o.capacity = 16; o.prio = 0; o.flags = g.pick<unsigned>({ 0, ringbuf::SHARED, ringbuf::REUSABLE }); o.record_tailroom = 128;
				int rc = cur->refcnt();
				tls *t;
				if (g.chance(30)) { ringbuf *x = new ringbuf(n.c_str(), o); x->hold(); t = new tls(x, w.e); } else t = new tls(n.c_str(), o, w.e);
				if (t->valid()) {
					CHECK(cur->refcnt() >= rc + 1, "previous ring not held: %d then %d", rc, cur->refcnt());
					st.push_back(t); prev.push_back(cur);
				} else {
					CHECK(tls::ring() == cur && cur->refcnt() == rc, "a failed binding changed something");
					delete t;
					CHECK(tls::ring() == cur && cur->refcnt() == rc, "destroying a failed binding changed something");
				}
			} else if (!st.empty()) {
				delete st.back(); st.pop_back();
				CHECK(tls::ring() == prev.back(), "previous binding not restored");
				prev.pop_back();
			}
			if (g.chance(40)) w.e->process_rings();
			for (auto p : prev) CHECK(p->refcnt() > 0, "count of a bound ring is %d", p->refcnt());
		}
		while (!st.empty()) { delete st.back(); st.pop_back(); CHECK(tls::ring() == prev.back(), "previous binding not restored"); prev.pop_back(); }
		CHECK(tls::ring() == base, "binding not restored");
		w.finish();
	}
	default_ring.reset();
}
static void activation(Rng &g)
{
	CountFmt f; NullOut out(f);
	unsigned keep = default_ring._flags;
	int rc = default_ring.refcnt();
	unsigned fl = g.below(8);
	default_ring._flags = fl;
	bool good = (fl & ringbuf::SHARED) && (fl & ringbuf::IMMORTAL), ok = true;
	engine::options o = engine::default_options; o.tso_buffer_capacity = 16;
	try { activate(out, o); } catch (std::logic_error &) { ok = false; }
	CHECK(ok == good, "activate() with default ring flags %u: %d", fl, ok);
	if (ok) {
		CHECK(default_ring.refcnt() == rc + 2, "default ring count %d", default_ring.refcnt());
		bool again = true; try { activate(out, o); } catch (std::logic_error &) { again = false; }
		CHECK(!again && default_ring.refcnt() == rc + 2, "second activate() accepted");
		if (g.chance(50)) { default_engine->process_rings(); }
		deactivate();
	}
	CHECK(default_ring.refcnt() == rc && !default_engine, "default ring count %d", default_ring.refcnt());
	deactivate();
	CHECK(default_ring.refcnt() == rc, "second deactivate() did something");
	default_ring._flags = keep;
	default_ring.reset();
}
static void counts(Rng &g)
{
	ringbuf::options o; o.capacity = 16; o.prio = 0; o.flags = g.below(16); o.record_tailroom = 128;
	ringbuf *r = new ringbuf("r", o);
	int n = 0;
	for (unsigned i = 0; i < 40; i++) {
		if (g.chance(50) || n == 0) { CHECK(r->hold() == r, "hold"); n++; } else {
			if (n == 1 && !r->immortal()) continue;
			r->release(); n--;
		}
		CHECK(r->refcnt() == n && r->orphan() == (n == 1), "count %d, expected %d, orphan %d", r->refcnt(), n, r->orphan());
	}
	size_t b = __sanitizer_get_current_allocated_bytes();
	bool im = r->immortal();
	while (n--) r->release();
	size_t a = __sanitizer_get_current_allocated_bytes();
	CHECK((a < b) == !im, "after the last release: freed %d, immortal %d", a < b, im);
	if (im) delete r;
}
void search(uint64_t seed)
{
	registry_run(seed, 3, false);	// warm up
	for (unsigned i = 0; i < 1200; i++) {
		Rng g(seed * 7919 + i);
		registry_run(seed * 10007 + i, 4 + i % 40, i % 2);
		if (i % 4 == 0) nesting(g);
		if (i % 8 == 0) activation(g);
		counts(g);
	}
}
void witness(const Witness &w) { for (unsigned i = 0; i < 200; i++) { Rng g(w.get("ring", 1) + i); counts(g); nesting(g); activation(g); registry_run(g.next(), 20, i % 2); } }
