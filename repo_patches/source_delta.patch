From 84f19aa899700d46e2387f96be5bda46fccd27ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:57 +0000
Subject: [PATCH 01/21] fix: timespec-format timestamps order by seconds first
 and convert without 32-bit overflow

---
 include/hogl/detail/timestamp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hogl/detail/timestamp.hpp b/include/hogl/detail/timestamp.hpp
index 9a36536..8055fc4 100644
--- a/include/hogl/detail/timestamp.hpp
+++ b/include/hogl/detail/timestamp.hpp
@@ -54,11 +54,11 @@ private:
 		uint64_t u64;
 		struct {
 		#if __BYTE_ORDER == __LITTLE_ENDIAN
-			uint32_t sec;
 			uint32_t nsec;
+			uint32_t sec;
 		#else
-			uint32_t nsec;
 			uint32_t sec;
+			uint32_t nsec;
 		#endif
 		} u32;
 	} _v;
@@ -117,7 +117,7 @@ public:
 
 	uint64_t to_nsec() const
 	{
-		return _v.u32.sec * nsec_per_sec + _v.u32.nsec;
+		return (uint64_t) _v.u32.sec * nsec_per_sec + _v.u32.nsec;
 	}
 #else
 	// This version stores timestamp in nanoseconds which means 
-- 
2.43.0


From ffb4b6fbe990611e83bb0320ecafce445002998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:55 +0000
Subject: [PATCH 02/21] fix: assigning a mask to itself does not use its freed
 rule list

---
 src/mask.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mask.cc b/src/mask.cc
index eb43b80..7ab2afe 100644
--- a/src/mask.cc
+++ b/src/mask.cc
@@ -183,6 +183,9 @@ mask::mask(mask &m)
 
 void mask::operator=(const mask &m)
 {
+	if (this == &m)
+		return;
+
 	delete _list;
 	_list = new data_list(*m._list);
 }
-- 
2.43.0


From 8f50ca3d547d517ed29afaee46c994ef9e695566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:56 +0000
Subject: [PATCH 03/21] fix: reading a mask from a stream takes every line and
 no empty rules

---
 src/mask.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mask.cc b/src/mask.cc
index 7ab2afe..b437e56 100644
--- a/src/mask.cc
+++ b/src/mask.cc
@@ -115,13 +115,13 @@ mask& mask::operator<< (const std::string &str)
 
 std::istream& operator>> (std::istream &s, mask &m)
 {
-	std::stringbuf sb;
+	std::string str;
 
-	// Read lines from the stream and feed them into the mask
-	while (s.good()) {
-		sb.str("");
-		s.get(sb);
-		m << sb.str();
+	// Read lines from the stream and feed them into the mask.
+	// An empty line is not a rule (it would match everything).
+	while (std::getline(s, str)) {
+		if (!str.empty())
+			m << str;
 	}
 
 	return s;
-- 
2.43.0


From a669ef60f26d31a578e411721324fd114e7ff6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:10 +0000
Subject: [PATCH 04/21] fix: blocked ring writer could sleep through the
 reader's wake-up

---
 include/hogl/detail/ringbuf.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/hogl/detail/ringbuf.hpp b/include/hogl/detail/ringbuf.hpp
index 37c9067..fecf466 100644
--- a/include/hogl/detail/ringbuf.hpp
+++ b/include/hogl/detail/ringbuf.hpp
@@ -402,7 +402,11 @@ public:
 	{
 		pthread_mutex_lock(&_block_mutex);
 		_block_active = true;
-		pthread_cond_wait(&_block_cond, &_block_mutex);
+		// The reader may have made room and called unblock() before the flag
+		// was set. Check again now that the flag is visible to the reader.
+		barrier::memrw();
+		if (_head == _tail)
+			pthread_cond_wait(&_block_cond, &_block_mutex);
 		pthread_mutex_unlock(&_block_mutex);
 	}
 
@@ -411,6 +415,8 @@ public:
 	 */
 	void unblock()
 	{
+		// New head must be visible to the writer before we check the flag.
+		barrier::memrw();
 		if (hogl_unlikely(_block_active)) {
 			pthread_mutex_lock(&_block_mutex);
 			pthread_cond_signal(&_block_cond);
-- 
2.43.0


From 6f67c9113cf5c87799ddac987361bd604d1778a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:31 +0000
Subject: [PATCH 05/21] fix: a time ordering buffer of one record is emptied
 before the next record is stored

---
 src/engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.cc b/src/engine.cc
index 99ec9e1..ae84310 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -386,7 +386,7 @@ void engine::do_flush_tso(unsigned int size)
 // We only flush half of it to avoid flushing records out-of-order.
 void engine::flush_full_tso()
 {
-	unsigned int size  = _tso.size() / 2;
+	unsigned int size  = (_tso.size() + 1) / 2;
 
 	if (_internal_area->test(internal::TSOFULLMARK)) {
 		tsobuf::entry te = {};
-- 
2.43.0


From 6a60ae01f01de024316849387a94e99c45facff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:08 +0000
Subject: [PATCH 06/21] fix: do not retire a ring that was handed out again

kill_orphan() acts on what its caller saw before the ring mutex was taken.
When add_ring() or find_ring() handed the ring out in between, the ring was
removed from the engine although it has an owner, and nothing posted to it
was ever output.
---
 src/engine.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/engine.cc b/src/engine.cc
index ae84310..c20c629 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -272,6 +272,13 @@ void engine::kill_orphan(unsigned int i, ringbuf *ring)
 	// This is not critical. We don't want to stall the engine 
 	// thread just to cleanup an orphan.
 	if (!pthread_mutex_trylock(&_ring_mutex)) {
+		// The ring may have been handed out again (and used) since the caller
+		// looked at it. That happens only under this lock, so check again.
+		if (!ring->orphan() || !ring->empty()) {
+			pthread_mutex_unlock(&_ring_mutex);
+			return;
+		}
+
 		_ring_map.erase(ring->name());
 
 		// Invalidate index. It will be rebuilt next time we
-- 
2.43.0


From 2d8a88fce51b99ebc407a6498c7bdfdadbae8c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:08 +0000
Subject: [PATCH 07/21] fix: apply the current mask to a new area under the
 area mutex

add_area() used the mask of the engine after it had released the mutex.
apply_mask() of another thread could replace the mask in the meantime: the
rules were read while they were being deleted, and the new area could end
up with the old mask.
---
 src/engine.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/engine.cc b/src/engine.cc
index c20c629..5d158d5 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -620,13 +620,15 @@ area *engine::add_area(const char *name, const char **sections)
 	s = _area_map.insert(area_map::value_type(name, na));
 	a = s.first->second;
 	_stats.areas_added++;
-	pthread_mutex_unlock(&_area_mutex);
 
-	if (s.second != false) {
-		// New area.
-		// Apply current mask before returning the area to the caller.
+	// New area.
+	// Apply current mask before returning the area to the caller.
+	// The mask is protected by the same mutex (see apply_mask()).
+	if (s.second != false)
 		_mask.apply(a);
+	pthread_mutex_unlock(&_area_mutex);
 
+	if (s.second != false) {
 		hogl::post(internal_area(), internal::AREA_DEBUG,
 			"new area %s(%p): number-of-sections %u", a->name(), a, a->count());
 
-- 
2.43.0


From e2ed21e783b80353357fa11e08cdcc4b351cefc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:08 +0000
Subject: [PATCH 08/21] fix: take the time source of a new ring under the ring
 mutex

A ring added while the time source was being switched could keep the old
time source for good: add_ring() read it before the switch and inserted the
ring after it.
---
 src/engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.cc b/src/engine.cc
index 5d158d5..d827211 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -659,9 +659,9 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 
 	ringbuf *nr = new ringbuf(name, opts);
 	nr->hold();
-	nr->timesource(_timesource);
 
 	pthread_mutex_lock(&_ring_mutex);
+	nr->timesource(_timesource);
 	s = _ring_map.insert(ring_map::value_type(name, nr));
 	s.first->second->hold();
 	pthread_mutex_unlock(&_ring_mutex);
-- 
2.43.0


From 5a6b0de6bfc6a584bf7e1a008e2eaea237cd9061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:21 +0000
Subject: [PATCH 09/21] fix: do not leak the new ring when an immortal ring
 name is taken

add_ring() dropped the ring it had allocated with release(), which does not
delete rings with the IMMORTAL flag.
---
 src/engine.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/engine.cc b/src/engine.cc
index d827211..11dce8e 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -658,11 +658,12 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 	std::pair<ring_map::iterator, bool> s;
 
 	ringbuf *nr = new ringbuf(name, opts);
-	nr->hold();
 
 	pthread_mutex_lock(&_ring_mutex);
 	nr->timesource(_timesource);
 	s = _ring_map.insert(ring_map::value_type(name, nr));
+	if (s.second)
+		nr->hold();
 	s.first->second->hold();
 	pthread_mutex_unlock(&_ring_mutex);
 
@@ -679,7 +680,8 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 
 	// Ring already exists. Drop the one we allocated 
 	// and see if we can reuse the one we found.
-	nr->release();
+	// Nobody holds it yet, and release() does not delete immortal rings.
+	delete nr;
 
 	ringbuf *r = s.first->second;
 
-- 
2.43.0


From 471159c2b117be0db70de6960335edcf2cb9bf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:41 +0000
Subject: [PATCH 10/21] fix: activate() refuses a default ring that is not both
 shared and immortal

The check let a default ring pass that had only one of the two flags.
---
 src/default-engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/default-engine.cc b/src/default-engine.cc
index 336be86..d0561aa 100644
--- a/src/default-engine.cc
+++ b/src/default-engine.cc
@@ -64,7 +64,7 @@ void activate(output &out, const engine::options &engine_opts)
 
 	// Default ringbuf must be shared and immortal.
 	// We check here because user app is allowed to replace default options.
-	if (!default_ring.immortal() && !default_ring.shared())
+	if (!default_ring.immortal() || !default_ring.shared())
 		throw std::logic_error("hogl::activate default ring properties not valid");
 
 	// Initialize default engine
-- 
2.43.0


From 4810fbe915632e0f6e7c1509150bb8b2a7fa6a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:29 +0000
Subject: [PATCH 11/21] fix: output buffers write out everything when the
 kernel takes only a part of it or is interrupted

---
 include/hogl/detail/ostrbuf-fd.hpp | 12 +++++++++
 src/ostrbuf-fd.cc                  | 42 +++++++++++++++++++++++++++++-
 src/output-file.cc                 |  4 +--
 3 files changed, 55 insertions(+), 3 deletions(-)

diff --git a/include/hogl/detail/ostrbuf-fd.hpp b/include/hogl/detail/ostrbuf-fd.hpp
index 8fd80dd..441afc5 100644
--- a/include/hogl/detail/ostrbuf-fd.hpp
+++ b/include/hogl/detail/ostrbuf-fd.hpp
@@ -32,6 +32,9 @@
 #ifndef HOGL_DETAIL_OSTRBUF_FD_HPP
 #define HOGL_DETAIL_OSTRBUF_FD_HPP
 
+#include <sys/types.h>
+#include <sys/uio.h>
+
 #include <hogl/detail/ostrbuf.hpp>
 
 __HOGL_PRIV_NS_OPEN__
@@ -59,6 +62,15 @@ public:
 	// Explicitly close the file descriptor
 	void close(); 
 
+	/**
+	 * Write all of the data, even if the kernel takes it in several pieces.
+	 * @param fd file descriptor
+	 * @param iov pointer to the iovec
+	 * @param iovcnt number of entries in the iovec
+	 * @return number of bytes written or -1 on error
+	 */
+	static ssize_t writev(int fd, const struct iovec *iov, int iovcnt);
+
 	/**
 	 * Constructor.
 	 * @param fd file descriptor
diff --git a/src/ostrbuf-fd.cc b/src/ostrbuf-fd.cc
index bf8737f..63571a3 100644
--- a/src/ostrbuf-fd.cc
+++ b/src/ostrbuf-fd.cc
@@ -40,6 +40,46 @@
 __HOGL_PRIV_NS_OPEN__
 namespace hogl {
 
+// Write out the data, retrying after short and interrupted writes
+static bool write_all(int fd, const uint8_t *data, size_t len)
+{
+	while (len) {
+		ssize_t n = ::write(fd, data, len);
+		if (n < 0) {
+			if (errno == EINTR)
+				continue;
+			return false;
+		}
+		data += n;
+		len  -= n;
+	}
+	return true;
+}
+
+ssize_t ostrbuf_fd::writev(int fd, const struct iovec *iov, int iovcnt)
+{
+	ssize_t n = ::writev(fd, iov, iovcnt);
+	if (n < 0) {
+		if (errno != EINTR)
+			return n;
+		n = 0;
+	}
+
+	// Write out the rest if the kernel took only a part of the data
+	size_t total = 0, done = n;
+	for (int i = 0; i < iovcnt; i++) {
+		size_t len  = iov[i].iov_len;
+		size_t skip = done < len ? done : len;
+
+		if (!write_all(fd, (const uint8_t *) iov[i].iov_base + skip, len - skip))
+			return -1;
+
+		done  -= skip;
+		total += len;
+	}
+	return total;
+}
+
 void ostrbuf_fd::do_flush(const uint8_t *data, size_t len)
 {
 	if (failed())
@@ -63,7 +103,7 @@ void ostrbuf_fd::do_flush(const uint8_t *data, size_t len)
 	}
 
 	if (i) {
-		int r = ::writev(_fd, iov, i);
+		ssize_t r = writev(_fd, iov, i);
 		if (r < 0)
 			ostrbuf::failure(strerror(errno));
 	}
diff --git a/src/output-file.cc b/src/output-file.cc
index 0eea4de..db28fea 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -75,7 +75,7 @@ private:
 		}
 
 		if (i) {
-			int r = _of.writev(iov, i);
+			ssize_t r = _of.writev(iov, i);
 			if (r < 0)
 				ostrbuf::failure(strerror(errno));
 		}
@@ -310,7 +310,7 @@ ssize_t output_file::writev(const struct iovec *iov, int iovcnt)
 
 	pthread_mutex_lock(&_write_mutex);
 
-	n = ::writev(_fd, iov, iovcnt);
+	n = ostrbuf_fd::writev(_fd, iov, iovcnt);
 	if (n > 0) {
 		_size += n;
 		if (_size >= _max_size && !_rotate_pending) {
-- 
2.43.0


From b1eb688f9597b2412d8e62703590ec40ab003cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:22 +0000
Subject: [PATCH 12/21] fix: rotation helper does not miss requests made before
 it waits

---
 src/output-file.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index db28fea..6d5e92d 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -420,15 +420,16 @@ void output_file::thread_loop()
 
 	pthread_mutex_lock(&_rotate_mutex);
 
-	while (1) {
-		pthread_cond_wait(&_rotate_cond, &_rotate_mutex);
-		if (_killed)
-			break;
-
+	// Requests may have arrived before we got the mutex
+	// so check for those before going to sleep.
+	while (!_killed) {
 		if (_rotate_pending) {
 			do_rotate();
 			_rotate_pending = false;
+			continue;
 		}
+
+		pthread_cond_wait(&_rotate_cond, &_rotate_mutex);
 	}
 
 	pthread_mutex_unlock(&_rotate_mutex);
-- 
2.43.0


From bcb96ac12a1afa8fbd06bd70e0b8a8da38f9b4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:20 +0000
Subject: [PATCH 13/21] fix: start the rotation helper only when the file
 output is fully set up

---
 src/output-file.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index 6d5e92d..cd52689 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -254,13 +254,6 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 	pthread_mutex_init(&_rotate_mutex, NULL);
 	pthread_cond_init(&_rotate_cond, NULL);
 
-	// Start helper thread
-	int err = pthread_create(&_rotate_thread, NULL, thread_entry, (void *) this);
-	if (err) {
-		fmt::fprintf(stderr, "hogl::output_file: failed to start helper thread. %d\n", err);
-		throw std::runtime_error("hogl::output_file: failed to start helper thread.");
-	}
-
 	init_name(filename);
 
 	_fd = open(_name.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, _mode);
@@ -276,6 +269,15 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 	output::header(_name.c_str());
 
 	update_link();
+
+	// Start helper thread.
+	// Must be the last step because the thread uses the name, etc.
+	int err = pthread_create(&_rotate_thread, NULL, thread_entry, (void *) this);
+	if (err) {
+		close(_fd);
+		fmt::fprintf(stderr, "hogl::output_file: failed to start helper thread. %d\n", err);
+		throw std::runtime_error("hogl::output_file: failed to start helper thread.");
+	}
 }
 
 output_file::~output_file()
-- 
2.43.0


From 07adf2995bb7bb6f354c6fadc77d7d6ac5c06731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:20 +0000
Subject: [PATCH 14/21] fix: index width computation terminates for any file
 count

---
 src/output-file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index cd52689..b063d9f 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -227,7 +227,7 @@ void output_file::init_name(const char *filename)
 	}
 
 	// Figure out index width for zero-padding
-	unsigned int step = 10;
+	unsigned long long step = 10;
 	_index_width = 1;
 	while (step < _max_count) {
 		step *= 10;
-- 
2.43.0


From 4e70d8910c9c477db875c1b931492b07fc6db222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:19 +0000
Subject: [PATCH 15/21] fix: the header of a new output file is written whole
 before the file can be rotated

---
 src/output-file.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index b063d9f..a8b5d8c 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -265,8 +265,10 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 
 	output::init(new ostrbuf_file(*this, opts.buffer_capacity));
 
-	// Write format header
+	// Write format header.
+	// Flush it right away so that rotation cannot split it.
 	output::header(_name.c_str());
+	output::flush();
 
 	update_link();
 
-- 
2.43.0


From 1e09948322d95518b735c7cf1c3a5f3af1985b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:23 +0000
Subject: [PATCH 16/21] fix: a cpu affinity mask selects the CPUs of its bits
 only, and an empty one is rejected

---
 src/schedparam.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/schedparam.cc b/src/schedparam.cc
index 3f15ad3..cceab8e 100644
--- a/src/schedparam.cc
+++ b/src/schedparam.cc
@@ -183,10 +183,10 @@ static int parse_cpumask(const std::string& str, cpumask& mask)
 	unsigned long long m = std::strtoull(sptr, &eptr, 0);
 	if (errno) 
 		return errno;
-	if (eptr != sptr + str.size())
+	if (eptr == sptr || eptr != sptr + str.size())
 		return EINVAL;
-	for (unsigned int i=0; i < mask.ncpus; i++)
-		if (m & (1<<i)) mask.set(i);
+	for (unsigned int i=0; i < mask.ncpus && i < 64; i++)
+		if (m & (1ULL<<i)) mask.set(i);
 	return 0;
 }
 
-- 
2.43.0


From bae4f1a9aff11a9c4bf5ea18d298940c972b4679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:23 +0000
Subject: [PATCH 17/21] fix: cpu numbers above 32 bits in an affinity list are
 rejected instead of truncated

---
 src/schedparam.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schedparam.cc b/src/schedparam.cc
index cceab8e..94ce480 100644
--- a/src/schedparam.cc
+++ b/src/schedparam.cc
@@ -151,7 +151,7 @@ struct cpumask {
 static int parse_cpulist(const std::string& str, cpumask& mask)
 {
 	const char *p = str.c_str();
-	unsigned int a, b;
+	unsigned long a, b;
 	do {
 		if (!isdigit(*p)) return EINVAL;
 
-- 
2.43.0


From f4e40262976d9cdc79839306971efa24be0e2f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:54 +0000
Subject: [PATCH 18/21] fix: the raw log reader rejects strings and blobs that
 do not fit its record buffer

---
 tools/raw-parser.cc  | 17 ++++++++++++-----
 tools/raw-parser.hpp | 23 ++++++++++++++++++-----
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/tools/raw-parser.cc b/tools/raw-parser.cc
index dda1b62..f43f743 100644
--- a/tools/raw-parser.cc
+++ b/tools/raw-parser.cc
@@ -68,6 +68,7 @@ void raw_parser::read_args(hogl::record &r)
 	if (_failed) return;
 
 	unsigned long offset = 16 * 8;
+	unsigned long size   = _record_size - r.header_size();
 
 	r.argtype = read_uint<uint64_t>("argtype");
 
@@ -88,7 +89,7 @@ void raw_parser::read_args(hogl::record &r)
 			r.set_arg_type(i, hogl::arg::CSTR);
 			// fall through
 		case arg::CSTR:
-			n = read_str<uint16_t>((char *) r.argval + offset, "cstr-arg");
+			n = read_str<uint16_t>((char *) r.argval + offset, size - offset, "cstr-arg");
 			r.set_arg_data(i, offset, n - 1);
 			offset += n;
 			break;
@@ -96,9 +97,9 @@ void raw_parser::read_args(hogl::record &r)
 		case arg::XDUMP:
 		case arg::RAW:
 			if (_ver == V1)
-				n = read_blob<uint16_t>((char *) r.argval + offset, "raw-arg");
+				n = read_blob<uint16_t>((char *) r.argval + offset, size - offset, "raw-arg");
 			else
-				n = read_blob<uint32_t>((char *) r.argval + offset, "raw-arg");
+				n = read_blob<uint32_t>((char *) r.argval + offset, size - offset, "raw-arg");
 
 			r.set_arg_data(i, offset, n);
 			offset += n;
@@ -115,10 +116,16 @@ void raw_parser::read_args(hogl::record &r)
 }
 
 raw_parser::raw_parser(hogl::rdbuf &in, unsigned int ver, unsigned int max_record_size) :
-	_in(in), _ver(ver)
+	_in(in), _record_size(max_record_size), _ver(ver)
 {
 	reset();
 
+	if (max_record_size < sizeof(hogl::record)) {
+		_error << "init: record size " << max_record_size << " is too small";
+		_failed = true;
+		return;
+	}
+
 	// Allocate nicely aligned buffer for the dummy record 
 	// we're going to populate with data read from the file.
 	int err = posix_memalign((void **)&_record, 64, max_record_size);
@@ -171,7 +178,7 @@ static bool valid_name(const char *str)
 
 void raw_parser::read_name(char *str, const char *stage)
 {
-	read_str<uint8_t>(str, stage);
+	read_str<uint8_t>(str, raw_area::MAX_NAME_LEN, stage);
 
 	if (_failed) return;
 
diff --git a/tools/raw-parser.hpp b/tools/raw-parser.hpp
index 1177e8b..c3b99e7 100644
--- a/tools/raw-parser.hpp
+++ b/tools/raw-parser.hpp
@@ -66,6 +66,7 @@ private:
 
 	hogl::format::data _format_data; // data struct passed to formatter
 	void              *_record;      // record buffer
+	unsigned long      _record_size; // size of the record buffer
 	raw_area           _area;        // raw area
 	char              *_ring_name;   // ringbuffer name for last record
 
@@ -84,9 +85,9 @@ private:
 		return v;
 	}
 
-	// Read a blob from the input stream
+	// Read a blob of up to 'room' bytes from the input stream
 	template <typename T>
-	unsigned long read_blob(char *data, const char *stage = "")
+	unsigned long read_blob(char *data, unsigned long room, const char *stage = "")
 	{
 		if (_failed) return 0;
 
@@ -94,6 +95,12 @@ private:
 		if (_failed || !len)
 			return 0;
 
+		if (len > room) {
+			_error << "format: blob does not fit @ " << stage;
+			_failed = true;
+			return 0;
+		}
+
 		_failed = ! _in.read(data, len);
 		if (_failed) {
 			_error << "input: failed to read blob @ " << stage;
@@ -103,14 +110,20 @@ private:
 	}
 
 	// Read a string from the input stream
-	// Strings are guarantied to be null-terminated
+	// Strings are guarantied to be null-terminated, and take up to 'room' bytes including the null-terminator
 	// Returns string length including the null-terminator.
 	template <typename T>
-	unsigned long read_str(char *str, const char *stage = "")
+	unsigned long read_str(char *str, unsigned long room, const char *stage = "")
 	{
 		if (_failed) return 0;
 
-		unsigned long len = read_blob<T>(str, stage);
+		if (!room) {
+			_error << "format: string does not fit @ " << stage;
+			_failed = true;
+			return 0;
+		}
+
+		unsigned long len = read_blob<T>(str, room - 1, stage);
 
 		if (_failed) return 0;
 
-- 
2.43.0


From afe62156a652c8413c76790039b305354f87469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:55 +0000
Subject: [PATCH 19/21] fix: a raw log reader that failed to initialise can be
 destroyed

---
 tools/raw-parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/raw-parser.cc b/tools/raw-parser.cc
index f43f743..3226b98 100644
--- a/tools/raw-parser.cc
+++ b/tools/raw-parser.cc
@@ -116,7 +116,7 @@ void raw_parser::read_args(hogl::record &r)
 }
 
 raw_parser::raw_parser(hogl::rdbuf &in, unsigned int ver, unsigned int max_record_size) :
-	_in(in), _record_size(max_record_size), _ver(ver)
+	_in(in), _record(0), _record_size(max_record_size), _ring_name(0), _ver(ver)
 {
 	reset();
 
-- 
2.43.0


From 3f76ab1f58dc5680d4da00205ee2b54526ce5e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:55 +0000
Subject: [PATCH 20/21] fix: raw log reader reset drops the text of the old
 error

---
 tools/raw-parser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/raw-parser.cc b/tools/raw-parser.cc
index 3226b98..55884d9 100644
--- a/tools/raw-parser.cc
+++ b/tools/raw-parser.cc
@@ -157,6 +157,7 @@ raw_parser::~raw_parser()
 void raw_parser::reset()
 {
 	_error.clear();
+	_error.str(std::string());
 	_failed = false;
 }
 
-- 
2.43.0


From 913ee495e89584a8606df557bcea0a7ac03f91cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:56 +0000
Subject: [PATCH 21/21] fix: a file reader that failed to open leaves no
 uninitialised state behind

---
 tools/rdbuf.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/rdbuf.cc b/tools/rdbuf.cc
index 5a37787..fb2e843 100644
--- a/tools/rdbuf.cc
+++ b/tools/rdbuf.cc
@@ -41,7 +41,8 @@ __HOGL_PRIV_NS_OPEN__
 namespace hogl {
 
 file_rdbuf::file_rdbuf(const std::string &filename, unsigned int flags, unsigned int capacity) :
-	_flags(flags), _ifd(-1)
+	_data(0), _capacity(0), _head(0), _size(0), _count(0),
+	_flags(flags), _fd(-1), _ifd(-1), _errno(0)
 {
 	_data = (uint8_t *) malloc(capacity);
 	if (!_data) {
-- 
2.43.0

