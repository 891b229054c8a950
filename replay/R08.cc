// R08: what goes into an output buffer comes out of its sink, byte for byte, however little the operating system takes at a time.
#include "hvreplay.hpp"
#include <sys/uio.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <stdio.h>
#include "hogl/detail/internal.hpp"
#include "hogl/detail/ostrbuf-fd.hpp"
#undef HOGL_DETAIL_OSTRBUF_FD_HPP // both headers use this guard
#include "hogl/detail/ostrbuf-stdio.hpp"
#include "hogl/detail/ostrbuf-tee.hpp"
#include "hogl/detail/ostrbuf-null.hpp"
#include "hogl/output-file.hpp"
#include "hogl/output-plainfile.hpp"
#include "hogl/output-tee.hpp"
#include "hogl/output-pipe.hpp"
using namespace hogl;
static Rng *io;
static unsigned short_pct, intr_pct;
extern "C" {
ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *p, size_t n)
{
	if (!io || fd <= 2) return __real_write(fd, p, n);
	if (io->chance(intr_pct)) { errno = EINTR; return -1; }
	if (n && io->chance(short_pct)) n = 1 + io->below(n);
	return __real_write(fd, p, n);
}
ssize_t __wrap_writev(int fd, const struct iovec *iov, int n)
{
	if (!io || fd <= 2) return __real_writev(fd, iov, n);
	if (io->chance(intr_pct)) { errno = EINTR; return -1; }
	size_t t = 0;
	for (int i = 0; i < n; i++) t += iov[i].iov_len;
	if (!t || !io->chance(short_pct)) return __real_writev(fd, iov, n);
	size_t k = 1 + io->below(t), done = 0;
	for (int i = 0; i < n && k; i++) {
		size_t m = iov[i].iov_len < k ? iov[i].iov_len : k;
		ssize_t r = __real_write(fd, iov[i].iov_base, m);
		if (r < 0) return done ? (ssize_t) done : -1;
		done += m; k -= m;
	}
	return done;
}
}
static std::string slurp(int fd)
{
	std::string s; char b[4096]; ssize_t n; off_t o = 0;
	while ((n = pread(fd, b, sizeof b, o)) > 0) { s.append(b, n); o += n; }
	return s;
}
static std::string slurp(const std::string &f)
{
	int fd = open(f.c_str(), O_RDONLY); CHECK(fd >= 0, "no file %s", f.c_str());
	std::string s = slurp(fd); close(fd); return s;
}
static void same(const std::string &got, const std::string &want, const char *what)
{
	size_t k = 0;
	while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
	CHECK(got == want, "%s: %lu bytes put, %lu delivered, first difference at %lu", what, (unsigned long) want.size(), (unsigned long) got.size(), (unsigned long) k);
}
static void puts_some(Rng &g, ostrbuf &b, std::string &want, unsigned n, const std::function<void()> &flushed)
{
	for (unsigned i = 0; i < n; i++) {
		size_t len = g.chance(70) ? g.below(12) : g.chance(50) ? b.capacity() - b.size() + g.below(3) - (b.capacity() > b.size()) : g.below(600);
		if (len > 100000 || (!len && !b.capacity())) len = 1;
		std::string s;
		for (size_t k = 0; k < len; k++) s += (char) ('!' + g.below(90));
		size_t before = b.size();
		switch (g.below(8)) {
		case 0: b.push_back((const uint8_t *) s.data(), s.size()); want += s; break;
		case 1: b.push_back(s.c_str(), s.size()); want += s; break;
		case 2: b.push_back(s.c_str()); want += s; break;
		case 3: b.push_back(s); want += s; break;
		case 4: b.push_back('x'); want += 'x'; break;
		case 5: { unsigned v = g.below(100000); b.printf("<%u %s>", v, s); want += "<" + std::to_string(v) + " " + s + ">"; } break;
		case 6: b.flush((const uint8_t *) s.data(), s.size()); want += s; CHECK(b.size() == 0, "%lu bytes left after a flush", (unsigned long) b.size()); flushed(); break;
		case 7: b.flush(); CHECK(b.size() == 0, "%lu bytes left after a flush", (unsigned long) b.size()); flushed(); break;
		}
		(void) before;
		CHECK(b.size() <= b.capacity(), "buffer holds %lu of %lu", (unsigned long) b.size(), (unsigned long) b.capacity());
		CHECK(!b.failed(), "failed: %s", b.error());
		CHECK(want.size() >= b.size() && (!b.size() || !memcmp(b.head(), want.data() + want.size() - b.size(), b.size())), "the buffer does not hold the newest bytes");
	}
	b.flush(); flushed();
}
struct Plain : public format { void process(ostrbuf &, const data &) override {} };
static void fds(Rng &g, unsigned cap)
{
	int fd = memfd_create("o", 0), fd2 = memfd_create("p", 0);
	std::string want;
	{ ostrbuf_fd b(fd, 0, cap); CHECK(b.capacity() == cap, "capacity"); puts_some(g, b, want, 1 + g.below(40), [&]() { same(slurp(fd), want, "fd buffer"); }); }
	same(slurp(fd), want, "fd buffer");
	ftruncate(fd, 0); lseek(fd, 0, SEEK_SET); want.clear();
	{
		unsigned c0 = g.pick<unsigned>({ 0, 1, 7, 64 }), c1 = g.pick<unsigned>({ 0, 3, 50, 300 });
		ostrbuf_fd b0(fd, 0, c0), b1(fd2, 0, c1); ostrbuf_tee t(&b0, &b1, cap);
		puts_some(g, t, want, 1 + g.below(40), [&]() { same(slurp(fd), want, "tee buffer, first output"); same(slurp(fd2), want, "tee buffer, second output"); });
	}
	close(fd); close(fd2);
}
static void stdios(Rng &g, unsigned cap)
{
	char *m = 0; size_t ms = 0;
	FILE *f = open_memstream(&m, &ms);
	std::string want;
	{ ostrbuf_stdio b(f, 0, cap); puts_some(g, b, want, 1 + g.below(40), [&]() { fflush(f); same(std::string(m, ms), want, "stdio buffer"); }); }
	fclose(f);
	same(std::string(m, ms), want, "stdio buffer"); free(m);
	want.clear();
	ostrbuf_null n(cap); puts_some(g, n, want, 20, []() {});
}
static void files(Rng &g, unsigned cap, const std::string &dir)
{
	Plain f;
	std::string want;
	{
		output_file::options o = output_file::default_options; o.buffer_capacity = cap; o.max_size = 1u << 30;
		output_file out((dir + "/a.#.log").c_str(), f, o);
		out.index();
		ostrbuf &b = *out.get_ostrbuf();
		puts_some(g, b, want, 1 + g.below(30), [&]() { same(slurp(out.name()), want, "file output"); });
		std::string s(g.below(900), 'w');
		CHECK(out.write(s.data(), s.size()) == (ssize_t) s.size(), "write() does not report all bytes"); want += s;
		same(slurp(out.name()), want, "file output");
		unlink((dir + "/a.log").c_str()); 
		for (int i = 0; i < 3; i++) unlink((dir + "/a.00" + std::to_string(i) + ".log").c_str());
	}
	want.clear();
	std::string pn = dir + "/p.log";
	{ output_plainfile out(pn.c_str(), f, cap); puts_some(g, *out.get_ostrbuf(), want, 1 + g.below(30), [&]() { same(slurp(pn), want, "plain file output"); }); }
	same(slurp(pn), want, "plain file output"); unlink(pn.c_str());
}
static void failing(Rng &g, unsigned cap)
{
	// a sink that refuses: the failure is reported, nothing is written twice, the buffer stays in bounds
	int fd = open("/dev/full", O_WRONLY);
	if (fd < 0) return;
	ostrbuf_fd b(fd, 0, cap);
	for (unsigned i = 0; i < 20; i++) { std::string s(g.below(100), 'z'); b.push_back(s); CHECK(b.size() <= b.capacity(), "buffer holds %lu of %lu", (unsigned long) b.size(), (unsigned long) b.capacity()); }
	std::string s(cap + 1, 'q'); b.flush((const uint8_t *) s.data(), s.size());
	CHECK(b.failed(), "a failed write is not reported");
	close(fd);
}
static std::string dir;
static void one(uint64_t seed, unsigned cap)
{
	Rng g(seed), w(seed + 1);
	short_pct = g.pick<unsigned>({ 0, 30, 100 }); intr_pct = g.pick<unsigned>({ 0, 0, 40 });
	io = &w;
	fds(g, cap); stdios(g, cap);
	if (seed % 4 == 0) files(g, cap, dir);
	failing(g, cap);
	io = 0;
}
static void setup()
{
	char t[] = "hvR08.XXXXXX";
	CHECK(mkdtemp(t), "scratch directory"); { char *p = realpath(t, 0); dir = p; free(p); }
	atexit([]() { rmdir(dir.c_str()); });
}
void witness(const Witness &w)
{
	setup();
	unsigned c = w.get("capacity", 64); if (c > 100000) c = 100000;
	for (unsigned i = 0; i < 400; i++) one(i + w.get("n", 1), i & 1 ? c : i % 70);
}
void search(uint64_t seed)
{
	setup();
	for (unsigned i = 0; i < 6000; i++) { Rng g(seed * 31 + i); one(seed * 100003 + i, g.pick<unsigned>({ 0, 1, 2, 16, 64, 300, 4096 })); }
}
