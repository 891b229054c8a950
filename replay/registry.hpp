// A real engine without its thread; the registries are driven op by op, and at any synchronisation point of an
// operation another thread's operation may be carried out.
#pragma once
#include "hvreplay.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include "hogl/detail/internal.hpp"
#include "hogl/detail/engine.hpp"
#include "hogl/detail/ringbuf.hpp"
#include "hogl/detail/output.hpp"
#include "hogl/detail/ostrbuf-null.hpp"
#include "hogl/detail/refcount.hpp"
#include "hogl/post.hpp"
#include "hogl/area.hpp"
#include "hogl/tls.hpp"
using namespace hogl;
static std::function<void()> sync_hook;
static int locks_held;
extern "C" {
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*)(void *), void *) { *t = 0; return 0; }
int __wrap_pthread_join(pthread_t, void **) { return 0; }
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
static void sync_point() { if (sync_hook && !locks_held) sync_hook(); }
static bool alloc_sync;
void *__real__Znwm(size_t n);
void *__wrap__Znwm(size_t n) { if (alloc_sync) sync_point(); return __real__Znwm(n); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { sync_point(); locks_held++; return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { sync_point(); int r = __real_pthread_mutex_trylock(m); if (!r) locks_held++; return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); locks_held--; sync_point(); return r; }
}
static uint64_t tnow = 1000;
static timestamp tick(const timesource *) { timestamp t; t.from_nsec(tnow += 7); return t; }
struct CountFmt : public format {
	uint64_t out = 0; area *a = 0;
	void process(ostrbuf &, const data &d) override { if (d.record->area == a) out++; }
};
struct NullOut : public output { NullOut(format &f) : output(f) { init(new ostrbuf_null(64u)); } };
static const char *sec_a[] = { "A", "B", "C", 0 }, *sec_b[] = { "A", "B", 0 }, *sec_c[] = { "A", "X", "C", 0 }, *sec_d[] = { "A", "B", "CC", 0 }, *sec_e[] = { "A", "", "C", 0 }, *sec_f[] = { "a", "B", "C", 0 };
struct World {
	Rng &g;
	CountFmt f; NullOut out; engine *e;
	timesource ts0, ts1, ts2;
	area *pa;
	uint64_t posted = 0;
	std::vector<std::pair<std::string, ringbuf *>> handles;
	std::vector<ringbuf *> immortals;
	std::map<std::string, std::pair<const area *, const char **>> areas;
	bool on = true, hook_ref = false, acted = false, acted_now = false, hook_engine = false, inflight = false;
	int hook_left = 0;
	mask m_on, m_off;
	World(Rng &r, bool tso) : g(r), out(f), ts0("t0", tick), ts1("t1", tick), ts2("t2", tick), m_on(".*", 0), m_off("!.*", 0)
	{
		engine::options o = engine::default_options;
		o.tso_buffer_capacity = 64; o.features = tso ? 0 : engine::DISABLE_TSO; o.timesource = &ts0; o.default_mask = m_on;
		e = new engine(out, o);
		f.a = pa = new area("POST", sec_a); pa->enable();
		// posts of the engine go to a ring nobody reads
		tls::_ring = &default_ring;
	}
	unsigned owners(ringbuf *r) { unsigned n = 0; for (auto &h : handles) n += h.second == r; return n; }
	ringbuf *registered(const std::string &n) { auto i = e->_ring_map.find(n); return i == e->_ring_map.end() ? 0 : i->second; }
	ringbuf *add(const std::string &n, unsigned flags)
	{
		acted = false;
		ringbuf::options o; o.capacity = 64; o.prio = g.below(5); o.flags = flags; o.record_tailroom = 128;
		ringbuf *was = registered(n);
		unsigned own = was ? owners(was) : 0, rc = was ? was->refcnt() : 0;
		size_t bytes = __sanitizer_get_current_allocated_bytes();
		ringbuf *r = e->add_ring(n.c_str(), o);
		size_t bytes2 = __sanitizer_get_current_allocated_bytes();
		if (r) {
			handles.push_back({ n, r });
			if ((r->_flags & ringbuf::IMMORTAL) && std::find(immortals.begin(), immortals.end(), r) == immortals.end()) immortals.push_back(r);
		}
		if (!acted && !inflight) {
			CHECK(registered(n) != 0, "%s is not registered after add_ring", n.c_str());
			if (was) {
				CHECK(registered(n) == was, "%s: the registered ring was replaced", n.c_str());
				bool want = was->shared() || (was->reusable() && !own);
				CHECK(!!r == want, "%s (flags %u, %u owners): returned %d", n.c_str(), was->_flags, own, !!r);
				CHECK(was->refcnt() == (int) rc + !!r, "%s: reference count %u became %d", n.c_str(), rc, was->refcnt());
				CHECK(bytes == bytes2, "add_ring of a taken name leaks %ld bytes (flags %u)", (long) (bytes2 - bytes), flags);
			} else {
				CHECK(r && r == registered(n) && !strcmp(r->name(), n.c_str()) && r->_flags == flags && r->refcnt() == 2, "%s: new ring not returned as requested", n.c_str());
			}
		}
		return r;
	}
	void find(const std::string &n)
	{
		acted = false;
		ringbuf *was = registered(n);
		ringbuf *r = e->find_ring(n.c_str());
		if (!acted) CHECK(r == was, "find_ring(%s)", n.c_str());
		if (r) handles.push_back({ n, r });
	}
	void addext(const std::string &n)
	{
		ringbuf::options o; o.capacity = 64; o.prio = 1; o.flags = 0; o.record_tailroom = 128;
		ringbuf *r = new ringbuf(n.c_str(), o);
		r->hold();
		acted = false;
		bool was = registered(n), ok = e->add_ring(r);
		if (!acted) CHECK(ok == !was, "add_ring(ring %s) returned %d", n.c_str(), ok);
		CHECK((registered(n) == r) == ok && (acted || r->refcnt() == 1 + ok), "add_ring(ring %s) returned %d: registered %d count %d", n.c_str(), ok, registered(n) == r, r->refcnt());
		if (ok) handles.push_back({ n, r }); else r->release();
	}
	void addarea(const std::string &n, const char **s)
	{
		acted = false;
		auto i = areas.find(n);
		size_t bytes = __sanitizer_get_current_allocated_bytes();
		alloc_sync = true;
		area *a = e->add_area(n.c_str(), s);
		alloc_sync = false;
		size_t bytes2 = __sanitizer_get_current_allocated_bytes();
		if (i == areas.end()) {
			CHECK(a && !strcmp(a->name(), n.c_str()), "new area %s not returned", n.c_str());
			unsigned k = 0; for (; s[k]; k++) CHECK(k < a->count() && !strcmp(a->section_name(k), s[k]), "area %s section %u", n.c_str(), k);
			CHECK(k == a->count(), "area %s sections", n.c_str());
			areas[n] = { a, s };
		} else {
			bool same = true; unsigned k = 0;
			for (; s[k] && i->second.second[k]; k++) same = same && !strcmp(s[k], i->second.second[k]);
			same = same && !s[k] && !i->second.second[k];
			CHECK(a == (same ? i->second.first : 0), "area %s exists (same sections %d): returned %d", n.c_str(), same, !!a);
			if (!acted) CHECK(bytes == bytes2, "add_area of a taken name leaks %ld bytes", (long) (bytes2 - bytes));
		}
	}
	void setmask(bool b)
	{
		acted = false;
		e->apply_mask(b ? m_on : m_off);
		area t("T", sec_a); e->_mask.apply(&t); on = t.test(0);	// the mask in force
		if (!acted) CHECK(on == b, "the applied mask is not the current one");
	}
	void settime(timesource *t) { record r; memset((void *) &r, 0, sizeof r); r.special(internal::SPR_TIMESOURCE_CHANGE, (uint64_t) t); e->switch_timesource(&default_ring, &r); CHECK(e->_timesource == t || acted, "time source not switched"); }
	void drop(unsigned k) { ringbuf *r = handles[k].second; handles.erase(handles.begin() + k); r->release(); }
	void post1() { if (handles.empty()) return; ringbuf *r = handles[g.below(handles.size())].second; unsigned t = r->_tail; hogl::post_unlocked(r, pa, 0U, "x"); if (r->_tail != t) posted++; }
	void other(bool engine_too)
	{
		acted = true;
		std::string n(1, 'a' + g.below(3));
		switch (g.below(engine_too ? 8 : 6)) {
		case 0: add(n, g.pick<unsigned>({ 0, ringbuf::SHARED, ringbuf::REUSABLE })); break;
		case 1: { ringbuf *r = add(n, ringbuf::REUSABLE); if (r) { post1(); post1(); } } break;
		case 2: find(n); break;
		case 3: if (!handles.empty()) drop(g.below(handles.size())); break;
		case 4: setmask(g.chance(50)); break;
		case 5: { ringbuf *r = add(n, ringbuf::REUSABLE); if (r) { hogl::post_unlocked(r, pa, 0U, "x"); posted++; handles.pop_back(); r->release(); } } break;
		case 6: settime(g.chance(50) ? &ts1 : &ts2); break;
		case 7: e->process_rings(); break;
		}
		acted = true;
	}
	void op(bool inter)
	{
		unsigned w = g.below(10);
		std::string n(1, 'a' + g.below(3));
		if (inter) {
			hook_left = g.below(w == 3 ? 40 : 6); hook_engine = w < 7; hook_ref = w < 3 || w == 6;
			sync_hook = [this]() { if (hook_left-- == 0 && !acted_now) { acted_now = true; alloc_sync = false; inflight = hook_ref; other(hook_engine); inflight = false; } };
		}
		switch (w) {
		case 0: add(n, g.pick<unsigned>({ 0, ringbuf::SHARED, ringbuf::REUSABLE, ringbuf::REUSABLE, ringbuf::SHARED | ringbuf::IMMORTAL, ringbuf::IMMORTAL })); break;
		case 1: find(n); break;
		case 2: addext(n); break;
		case 3: addarea("AR" + n, g.pick<const char **>({ sec_a, sec_b, sec_c, sec_d, sec_e, sec_f, sec_a, sec_b })); break;
		case 4: setmask(g.chance(50)); break;
		case 5: post1(); break;
		case 6: if (!handles.empty()) drop(g.below(handles.size())); break;
		case 7: settime(g.chance(50) ? &ts1 : &ts2); break;
		default: e->process_rings(); break;
		}
		sync_hook = nullptr; acted_now = false;
		CHECK(!locks_held, "a lock is still held after operation %u", w);
		check();
	}
	void check()
	{
		std::set<ringbuf *> seen;
		for (auto &h : handles) {
			CHECK(registered(h.first) == h.second, "ring %s is in use but no longer registered", h.first.c_str());
			CHECK(h.second->refcnt() == (int) owners(h.second) + 1, "ring %s: %u owners, count %d", h.first.c_str(), owners(h.second), h.second->refcnt());
		}
		for (auto &p : e->_ring_map) {
			CHECK(!strcmp(p.second->name(), p.first.c_str()) && seen.insert(p.second).second, "ring %s registered twice", p.first.c_str());
			CHECK(p.second->refcnt() == (int) owners(p.second) + 1, "registered ring %s: %u owners, count %d", p.first.c_str(), owners(p.second), p.second->refcnt());
			CHECK(p.second->timesource() == e->_timesource, "ring %s uses time source %s, the engine %s", p.first.c_str(), p.second->timesource()->name(), e->_timesource->name());
		}
		for (auto &p : e->_area_map)
			for (unsigned k = 0; k < p.second->count(); k++)
				CHECK(p.second->test(k) == on, "section %u of area %s is %d, the current mask says %d", k, p.first.c_str(), p.second->test(k), on);
		for (auto &p : areas) CHECK(e->find_area(p.first.c_str()) == p.second.first, "area %s is not registered", p.first.c_str());
		string_list l; e->list_rings(l); CHECK(l.size() == e->_ring_map.size(), "list_rings");
		string_list al; e->list_areas(al); CHECK(al.size() == e->_area_map.size() && al.size() == areas.size() + 1, "list_areas");
	}
	void finish()
	{
		while (!handles.empty()) drop(handles.size() - 1);
		for (unsigned i = 0; i < 5; i++) e->process_rings();
		CHECK(e->_ring_map.empty(), "%u rings without owner are still registered", (unsigned) e->_ring_map.size());
		CHECK(f.out == posted, "%lu records posted, %lu output", (unsigned long) posted, (unsigned long) f.out);
		for (auto r : immortals) { CHECK(r->refcnt() == 0, "immortal ring count %d", r->refcnt()); delete r; }
		delete e; delete pa;
	}
};
static void registry_run(uint64_t seed, unsigned ops, bool inter)
{
	Rng g(seed);
	size_t b0 = __sanitizer_get_current_allocated_bytes();
	{
		World w(g, g.chance(70));
		w.check();
		for (unsigned i = 0; i < ops; i++) w.op(inter && g.chance(60));
		w.finish();
	}
	default_ring.reset();
	size_t b1 = __sanitizer_get_current_allocated_bytes();
	CHECK(b0 == b1, "%ld bytes leaked", (long) (b1 - b0));
}
