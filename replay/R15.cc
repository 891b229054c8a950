// R15: rotating file output: every flush whole in one file, header first, names cyclic, no request forgotten, clean shut down.
#include "hvreplay.hpp"
#include <sys/stat.h>
#include <sys/uio.h>
#include <fcntl.h>
#include <dirent.h>
#include <errno.h>
#include <stdarg.h>
#include <atomic>
#include "hogl/detail/internal.hpp"
#include "hogl/detail/ostrbuf-fd.hpp"
#include "hogl/output-file.hpp"
using namespace hogl;
static std::atomic<unsigned> fail_open, fail_write, fail_create, delay_open, delay_lock, delay_start;
static std::atomic<unsigned> opens;
static __thread bool helper;
static void nap(unsigned us) { struct timespec t = { 0, (long) us * 1000 }; nanosleep(&t, 0); }
extern "C" {
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int f, ...)
{
	va_list a; va_start(a, f); unsigned m = va_arg(a, unsigned); va_end(a);
	if (strstr(p, "hvR15") && (f & O_CREAT)) {
		opens++;
		if (delay_open) nap(delay_open);
		if (fail_open && fail_open-- ) { errno = EMFILE; return -1; }
	}
	return __real_open(p, f, m);
}
ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __wrap_writev(int fd, const struct iovec *i, int n)
{
	if (helper && fail_write) { fail_write--; errno = ENOSPC; return -1; }
	return __real_writev(fd, i, n);
}
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *p, size_t n)
{
	if (helper && fail_write) { fail_write--; errno = ENOSPC; return -1; }
	return __real_write(fd, p, n);
}
struct Start { void *(*f)(void *); void *a; };
static void *start(void *x) { Start s = *(Start *) x; delete (Start *) x; if (delay_start) nap(delay_start); helper = true; return s.f(s.a); }
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a)
{
	if (fail_create) { fail_create--; return EAGAIN; }
	return __real_pthread_create(t, at, start, new Start{ f, a });
}
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	if (helper && delay_lock) nap(delay_lock);
	return __real_pthread_cond_wait(c, m);
}
}
static unsigned fds() { unsigned n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static std::string dir;
struct Fmt : public format {
	std::atomic<unsigned> headers{ 0 };
	unsigned pad = 0;
	void process(ostrbuf &, const data &) override {}
	void header(ostrbuf &s, const char *n, bool first) override { headers++; s.push_back(first ? "<FIRST " : "<NEXT "); s.push_back(n); for (unsigned i = 0; i < pad; i++) s.push_back('-'); s.push_back(">\n"); }
	void footer(ostrbuf &s, const char *) override { s.push_back("<END>\n"); }
};
static bool slurp(const std::string &f, std::string &s)
{
	int fd = open(f.c_str(), O_RDONLY); if (fd < 0) return false;
	s.clear(); char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
	close(fd); return true;
}
static std::string num(unsigned k, unsigned w) { std::string s = std::to_string(k); while (s.size() < w) s = "0" + s; return s; }
static void cleanup() { DIR *d = opendir(dir.c_str()); while (struct dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((dir + "/" + e->d_name).c_str()); closedir(d); }
static unsigned width(unsigned c) { unsigned w = 1; for (unsigned long long s = 10; s < c; s *= 10) w++; return w; }
struct Names { std::string pref, sufx, link; };
static Names names(const std::string &f)
{
	Names n; size_t k = f.find('#');
	if (k == f.npos) { n.pref = f + "."; n.link = f; return n; }
	n.pref = f.substr(0, k); n.sufx = f.substr(k + 1);
	n.link = f.substr(0, k - (k > 0 && k + 1 < f.size() && f[k - 1] == f[k + 1])) + n.sufx;
	return n;
}
static std::string readl(const std::string &l) { char b[512]; ssize_t n = readlink(l.c_str(), b, sizeof b); return n < 0 ? "" : std::string(b, n); }
static void run(uint64_t seed, unsigned lim, unsigned count, bool faults)
{
	Rng g(seed);
	cleanup();
	unsigned f0 = fds();
	Fmt f; f.pad = g.chance(50) ? 0 : g.below(300);
	std::string tmpl = dir + "/" + g.pick<std::string>({ "log.#.txt", "log", "log#", "x-#-y", "#.raw" });
	Names n = names(tmpl);
	unsigned w = width(count), first = 0;
	// an earlier run left a link
	if (g.chance(40)) {
		unsigned k = g.below(count);
		if (symlink((n.pref + num(k, w) + n.sufx).c_str(), n.link.c_str())) {}
		first = k + 1 < count ? k + 1 : 0;
	} else if (g.chance(20)) { if (symlink("elsewhere", n.link.c_str())) {} }
	delay_open = g.chance(30) ? g.below(800) : 0; delay_lock = g.chance(30) ? g.below(600) : 0; delay_start = g.chance(30) ? g.below(1500) : 0;
	fail_open = fail_write = opens = 0;
	std::vector<std::string> put;
	unsigned last;
	bool switched = false;
	{
		output_file::options o = { 0644, lim, count, g.pick<unsigned>({ 0, 16, 512, 4096 }), 0 };
		output_file out(tmpl.c_str(), f, o);
		CHECK(out.name() == n.link, "name %s of %s", out.name().c_str(), tmpl.c_str());
		unsigned burst = 1 + g.below(120);
		for (unsigned i = 0; i < burst; i++) {
			std::string s = "[" + std::to_string(i) + ":";
			for (unsigned k = g.below(g.pick<unsigned>({ 4, 60, 600 })); k; k--) s += 'a' + g.below(26);
			s += "]\n";
			if (faults && g.chance(5)) { if (g.chance(50)) fail_open = 1; else fail_write = 1; }
			ostrbuf &b = *out.get_ostrbuf();
			if (g.chance(20)) CHECK(out.write(s.data(), s.size()) == (ssize_t) s.size(), "write");
			else { b.flush((const uint8_t *) s.data(), s.size()); CHECK(!out.failed(), "output failed: %s", out.error()); }
			put.push_back(s);
			if (g.chance(10)) nap(g.below(700));
		}
		if (g.chance(30)) {
			// a request must be carried out: keep writing until the next file is there
			nap(500); fail_open = fail_write = 0;
			std::string big(lim, 'B'); big = "[" + std::to_string(put.size()) + ":" + big + "]\n";
			unsigned h = f.headers;
			CHECK(out.write(big.data(), big.size()) > 0, "write"); put.push_back(big);
			for (unsigned k = 0; f.headers == h; k++) {
				CHECK(k < 20000, "the file is over its limit of %u, but it is never rotated", lim);
				std::string s = "[" + std::to_string(put.size()) + ":]\n"; out.write(s.data(), s.size()); put.push_back(s);
				nap(200);
			}
		}
		if (g.chance(15)) {
			std::string t2 = dir + "/moved.#.txt"; unsigned h = f.headers;
			nap(200); fail_open = fail_write = 0;
			out.switch_name(t2); switched = true; n = names(t2);
			for (unsigned k = 0; f.headers == h; k++) { CHECK(k < 20000, "switch_name() is never carried out"); nap(200); }
		}
		if (g.chance(50)) nap(g.below(2000));
		fail_open = fail_write = 0;
	}
	fail_open = fail_write = 0;
	CHECK(fds() == f0, "%u descriptors are open after the output is gone, %u before", fds(), f0);
	if (switched) { cleanup(); return; }
	// the files, oldest first
	std::string cur = readl(n.link);
	CHECK(cur.compare(0, n.pref.size(), n.pref) == 0 && cur.size() == n.pref.size() + w + n.sufx.size(), "the link %s points at %s", n.link.c_str(), cur.c_str());
	last = strtoul(cur.c_str() + n.pref.size(), 0, 10);
	CHECK(last < count && cur == n.pref + num(last, w) + n.sufx, "the link points at %s, count %u", cur.c_str(), count);
	unsigned nfiles = 0;
	{ DIR *d = opendir(dir.c_str()); while (struct dirent *e = readdir(d)) { std::string p = dir + "/" + e->d_name; struct stat st; if (e->d_name[0] != '.' && !lstat(p.c_str(), &st) && S_ISREG(st.st_mode)) { nfiles++; 
		CHECK(p.compare(0, n.pref.size(), n.pref) == 0 && p.size() == n.pref.size() + w + n.sufx.size(), "file %s, names should be %s<%u digits>%s", p.c_str(), n.pref.c_str(), w, n.sufx.c_str());
		unsigned k = strtoul(p.c_str() + n.pref.size(), 0, 10); CHECK(k < count && p == n.pref + num(k, w) + n.sufx, "file %s, count %u", p.c_str(), count); } } closedir(d); }
	CHECK(nfiles <= count && nfiles >= 1, "%u files, limit %u", nfiles, count);
	if (opens > count) { cleanup(); return; }	// files were reused
	std::string all; unsigned seen = 0;
	unsigned k = first;
	for (unsigned j = 0; j < count; j++, k = (k + 1) % count) {
		std::string s;
		if (!slurp(n.pref + num(k, w) + n.sufx, s)) { CHECK(faults || j, "no file %u of %u (%s, link %s, first %u)", k, count, tmpl.c_str(), cur.c_str(), first); if (!faults) break; continue; }
		if (faults && s.empty()) continue;	// its header could not be written
		std::string h = std::string(seen ? "<NEXT " : "<FIRST ") + n.pref + num(k, w) + n.sufx + std::string(f.pad, '-') + ">\n";
		if (faults && s.size() < h.size()) continue;
		CHECK(s.compare(0, h.size(), h) == 0, "file %u does not start with its header: %.60s", k, s.c_str());
		CHECK(s.find("<FIRST", 1) == s.npos && s.find("<NEXT", 1) == s.npos, "file %u has another header inside", k);
		size_t e = s.size() - 6;
		if (faults && !(s.size() >= h.size() + 6 && s.compare(e, 6, "<END>\n") == 0)) e = s.size();
		else CHECK(s.size() >= h.size() + 6 && s.compare(e, 6, "<END>\n") == 0, "file %u does not end with the footer", k);
		std::string body = s.substr(h.size(), e - h.size());
		bool islast = k == last;
		if (!islast) CHECK(body.size() + (seen ? 0 : h.size()) >= lim, "file %u was left at %lu bytes, the limit is %u", k, (unsigned long) body.size(), lim);
		// whole flushes only
		while (!body.empty()) {
			CHECK(seen + 0 < put.size() + 1000000, "x");
			CHECK(all.size() < 1u << 30, "x");
			size_t at = all.size(); (void) at;
			static size_t idx; if (!seen && all.empty()) idx = 0;
			CHECK(idx < put.size() && body.compare(0, put[idx].size(), put[idx]) == 0, "file %u: expected record %lu, whole, found %.60s", k, (unsigned long) idx, body.c_str());
			all += put[idx]; body.erase(0, put[idx].size()); idx++;
		}
		seen++;
		if (islast) break;
	}
	size_t total = 0; for (auto &s : put) total += s.size();
	CHECK(all.size() == total, "%lu of %lu bytes are in the files", (unsigned long) all.size(), (unsigned long) total);
	cleanup();
}
static void ctors(uint64_t)
{
	Fmt f; unsigned f0 = fds();
	output_file::options o = output_file::default_options;
	for (int k = 0; k < 3; k++) {
		bool threw = false;
		if (k == 1) fail_create = 1;
		try { output_file out(k ? (dir + "/c.#").c_str() : (dir + "/no/such/dir/c.#").c_str(), f, o); } catch (std::runtime_error &) { threw = true; }
		fail_create = 0;
		CHECK(threw == (k < 2), "constructor case %d", k);
		CHECK(fds() == f0, "constructor case %d leaves %u descriptors, %u before", k, fds(), f0);
	}
	cleanup();
	for (unsigned c : { 1u, 9u, 10u, 11u, 100u, 101u, 1000000000u, 1000000001u, 4294967295u }) {
		cleanup(); o.max_count = c;
		output_file out((dir + "/w.#").c_str(), f, o);
		std::string l = readl(out.name());
		CHECK(l == dir + "/w." + num(0, width(c)), "count %u: file %s", c, l.c_str());
	}
	cleanup();
}
static void setup()
{
	char t[] = "hvR15.XXXXXX";
	CHECK(mkdtemp(t), "scratch directory"); { char *p = realpath(t, 0); dir = p; free(p); }
	atexit([]() { cleanup(); rmdir(dir.c_str()); });
	ctors(0);
}
void witness(const Witness &w)
{
	setup();
	for (unsigned i = 0; i < 60; i++) run(i + w.get("size", 1), 100 + 100 * (i % 5), 2 + i % 200, i % 3 == 2);
}
void search(uint64_t seed)
{
	setup();
	for (unsigned i = 0; i < 900; i++) { Rng g(seed * 77 + i); run(seed * 100003 + i, g.pick<unsigned>({ 1, 50, 200, 1000, 5000 }), g.pick<unsigned>({ 2, 3, 10, 11, 150, 1000 }), i % 3 == 2); }
}
