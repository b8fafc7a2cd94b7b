From c9bd4aca017b68333c9ca03207cde525319c702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:13 +0000
Subject: [PATCH 01/57] fix: decoder: refuse varints of more than 10 bytes

The shift count went past the width of the value (undefined behaviour) and
the extra groups corrupted the decoded value.
---
 src/pomp_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index e9039f0..38060ec 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -163,6 +163,10 @@ static int decoder_read_varint(struct pomp_decoder *dec, uint8_t type,
 		res = pomp_buffer_readb(dec->msg->buf, &dec->pos, &b);
 		if (res < 0)
 			return res;
+		if (shift >= 64) {
+			POMP_LOGW("decoder : varint too long");
+			return -EINVAL;
+		}
 		*v |= (((uint64_t)(b & 0x7f)) << shift);
 		shift += 7;
 	} while (b & 0x80);
-- 
2.43.0


From 60e288d1e2a1acd5f3cb6b61bb37eb57461efbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:13 +0000
Subject: [PATCH 02/57] fix: decoder: refuse sizes that do not fit their type

A string or buffer announcing a size larger than its type was silently read
with the size truncated, so the rest of the message was misread.
---
 src/pomp_decoder.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index 38060ec..b37817d 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -185,6 +185,10 @@ static int decoder_read_size_u16(struct pomp_decoder *dec, uint16_t *n)
 	int res = 0;
 	uint64_t d = 0;
 	res = decoder_read_varint(dec, 0, &d);
+	if (res == 0 && d > UINT16_MAX) {
+		POMP_LOGW("decoder : invalid size");
+		return -EINVAL;
+	}
 	*n = (uint16_t)d;
 	return res;
 }
@@ -200,6 +204,10 @@ static int decoder_read_size_u32(struct pomp_decoder *dec, uint32_t *n)
 	int res = 0;
 	uint64_t d = 0;
 	res = decoder_read_varint(dec, 0, &d);
+	if (res == 0 && d > UINT32_MAX) {
+		POMP_LOGW("decoder : invalid size");
+		return -EINVAL;
+	}
 	*n = (uint32_t)d;
 	return res;
 }
-- 
2.43.0


From 8e3d4cc1a5a53912ac7886d5989042bad0059ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:13 +0000
Subject: [PATCH 03/57] fix: decoder: room for the quotes of strings in
 allocated dumps

The estimate of the length of ", STR:'%s'" was 2 characters too small: a dump
whose string ended just at the end of the allocated block was cut.
---
 src/pomp_decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index b37817d..65b6306 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -605,7 +605,7 @@ static int decoder_dump_cb(struct pomp_decoder *dec, uint8_t type,
 		break;
 
 	case POMP_PROT_DATA_TYPE_STR:
-		res = dump_append(ctx, 6 + (uint32_t)strlen(v->cstr),
+		res = dump_append(ctx, 8 + (uint32_t)strlen(v->cstr),
 				", STR:'%s'", v->cstr);
 		break;
 
-- 
2.43.0


From 307341397e21a3954b1f39e39f52e772018a73fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:13 +0000
Subject: [PATCH 04/57] fix: prot: return NULL as documented when more data is
 required

---
 src/pomp_prot.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index 4e891ba..a0d7481 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -293,6 +293,7 @@ int pomp_prot_decode_msg(struct pomp_prot *prot, const void *buf,
 	POMP_RETURN_ERR_IF_FAILED(prot != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(buf != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(msg != NULL, -EINVAL);
+	*msg = NULL;
 
 	/* If idle, start a new parsing */
 	if (prot->state == POMP_PROT_STATE_IDLE)
-- 
2.43.0


From 88287ec1782795d1975ea3877352935cf5ce8d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:13 +0000
Subject: [PATCH 05/57] fix: prot: keep decoding after a message that could not
 be allocated

The message was left initialized, so the initialization of all later ones
failed and the decoder ignored everything from there on.
---
 src/pomp_prot.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index a0d7481..0ca7f9b 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -103,7 +103,10 @@ static int pomp_prot_alloc_msg(struct pomp_prot *prot, uint32_t msgid,
 	res = pomp_msg_init(prot->msg, msgid);
 	if (res < 0)
 		return res;
-	return pomp_buffer_ensure_capacity(prot->msg->buf, size);
+	res = pomp_buffer_ensure_capacity(prot->msg->buf, size);
+	if (res < 0)
+		(void)pomp_msg_clear(prot->msg);
+	return res;
 }
 
 /**
-- 
2.43.0


From a074a2d4b7026503692d08fd0a4592daf4d134c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:13 +0000
Subject: [PATCH 06/57] fix: prot: do not lose a message that follows a partial
 magic

When a magic was interrupted by a 'P' that starts the real one ("PPOMP"), that
byte was dropped and the message after it lost.
---
 src/pomp_prot.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index 0ca7f9b..ea05230 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -122,7 +122,14 @@ static void pomp_prot_check_magic(struct pomp_prot *prot, int idx, int val,
 	if (prot->headerbuf[idx] != val) {
 		POMP_LOGW("Bad header magic %d : 0x%02x(0x%02x)",
 			idx, prot->headerbuf[idx], val);
-		prot->state = POMP_PROT_STATE_HEADER_MAGIC_0;
+		if (prot->headerbuf[idx] == POMP_PROT_HEADER_MAGIC_0) {
+			/* The unexpected byte can be the start of a magic */
+			prot->headerbuf[0] = POMP_PROT_HEADER_MAGIC_0;
+			prot->offheader = 1;
+			prot->state = POMP_PROT_STATE_HEADER_MAGIC_1;
+		} else {
+			prot->state = POMP_PROT_STATE_HEADER_MAGIC_0;
+		}
 	} else {
 		prot->state = state;
 	}
-- 
2.43.0


From 5781f50bc647c218bed06ce6e76f295eb35d5fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:50 +0000
Subject: [PATCH 07/57] fix: encoder: check the text of buffers given as
 arguments

A missing (NULL) or too short text was read out of bounds, and the bytes of
non hexadecimal digits were left uninitialized in the message. With an odd
number of digits the bytes were not those described by the text.
---
 src/pomp_encoder.c | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/pomp_encoder.c b/src/pomp_encoder.c
index ee87eef..326edc6 100644
--- a/src/pomp_encoder.c
+++ b/src/pomp_encoder.c
@@ -33,6 +33,7 @@
  */
 
 #include "pomp_priv.h"
+#include <ctype.h>
 
 /* Integer flag found in format specifier */
 #define FLAG_L	0x01	/**< %l format specifier */
@@ -209,19 +210,30 @@ static int encoder_write_size_u32(struct pomp_encoder *enc, uint32_t n)
  * @param decodepos : string to decode.
  * @param len : len in bytes of the resulting string.
  * @param out : allocated output buffer.
+ * @return 0 in case of success, negative errno value in case of error.
  */
 static int parse_buffer_argv(const char *decodepos, uint32_t len, void *out)
 {
 	uint32_t i = 0;
-	/* first byte should be padded with 0 if len is odd */
-	if (strlen(decodepos) % 2 == 1)
-		sscanf(decodepos, "%hhx", &(((uint8_t *)out)[0]));
-	else
-		sscanf(decodepos, "%2hhx", &(((uint8_t *)out)[0]));
-	decodepos += 2;
-	for (i = 1; i < len; i++) {
-		sscanf(decodepos, "%2hhx", &(((uint8_t *)out)[i]));
-		decodepos += 2;
+	size_t n = strlen(decodepos);
+	char digits[3] = {'0', '0', '\0'};
+
+	/* Make sure there is enough digits for the given length */
+	if (n / 2 + n % 2 < len) {
+		POMP_LOGW("encoder : missing buffer digits");
+		return -EINVAL;
+	}
+
+	for (i = 0; i < len; i++) {
+		/* first byte should be padded with 0 if len is odd */
+		digits[0] = (i == 0 && n % 2 == 1) ? '0' : *decodepos++;
+		digits[1] = *decodepos++;
+		if (!isxdigit((unsigned char)digits[0]) ||
+				!isxdigit((unsigned char)digits[1])) {
+			POMP_LOGW("encoder : invalid buffer digits");
+			return -EINVAL;
+		}
+		((uint8_t *)out)[i] = (uint8_t)strtoul(digits, NULL, 16);
 	}
 	return 0;
 }
@@ -377,6 +389,12 @@ again:
 				} else {
 					int argbufferpos = argidx;
 					const char *decodepos;
+					if (argidx >= argc ||
+						argv[argidx] == NULL) {
+						POMP_LOGW("Missing argument");
+						res = -EINVAL;
+						goto out;
+					}
 					/*go to next argument to get size*/
 					argidx++;
 					/* codecheck_ignore[LONG_LINE] */
@@ -390,9 +408,11 @@ again:
 					}
 					decodepos = argv[argbufferpos];
 					/* codecheck_ignore[LONG_LINE] */
-					parse_buffer_argv(decodepos, len, v.buf);
-					/* codecheck_ignore[LONG_LINE] */
-					res = pomp_encoder_write_buf(enc, v.buf, len);
+					res = parse_buffer_argv(decodepos, len, v.buf);
+					if (res == 0) {
+						/* codecheck_ignore[LONG_LINE] */
+						res = pomp_encoder_write_buf(enc, v.buf, len);
+					}
 					free(v.buf);
 				}
 			} else if (*fmt++ != '%' || *fmt++ != 'u') {
-- 
2.43.0


From 2e6d4dc30b82f01e4427ec95ae77f78866a5a7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:50 +0000
Subject: [PATCH 08/57] fix: buffer: allow setting capacity to 0

realloc frees the block in that case, the buffer kept a pointer on it that was
freed again later.
---
 src/pomp_buffer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index 028e537..094f909 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -294,6 +294,14 @@ int pomp_buffer_set_capacity(struct pomp_buffer *buf, size_t capacity)
 	POMP_RETURN_ERR_IF_FAILED(capacity >= buf->len, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(buf->refcount <= 1, -EPERM);
 
+	/* Nothing to allocate (realloc would free without telling) */
+	if (capacity == 0) {
+		free(buf->data);
+		buf->data = NULL;
+		buf->capacity = 0;
+		return 0;
+	}
+
 	/* Resize internal data */
 	data = realloc(buf->data, capacity);
 	if (data == NULL)
-- 
2.43.0


From 5a07242314d53833d34c4230068154e81e891396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:50 +0000
Subject: [PATCH 09/57] fix: buffer: check for overflows in position and size
 computations

---
 src/pomp_buffer.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index 094f909..9ba6517 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -405,6 +405,8 @@ int pomp_buffer_ensure_capacity(struct pomp_buffer *buf, size_t capacity)
 
 	/* Resize internal data if needed */
 	if (capacity > buf->capacity) {
+		if (capacity > SIZE_MAX - POMP_BUFFER_ALLOC_STEP)
+			return -ENOMEM;
 		capacity = POMP_BUFFER_ALIGN_ALLOC_SIZE(capacity);
 		return pomp_buffer_set_capacity(buf, capacity);
 	}
@@ -424,6 +426,8 @@ int pomp_buffer_write(struct pomp_buffer *buf, size_t *pos,
 	POMP_RETURN_ERR_IF_FAILED(p != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(buf->refcount <= 1, -EPERM);
 
+	POMP_RETURN_ERR_IF_FAILED(n <= SIZE_MAX - *pos, -EINVAL);
+
 	/* Make sure there is enough room in data buffer */
 	res = pomp_buffer_ensure_capacity(buf, *pos + n);
 	if (res < 0)
@@ -507,7 +511,8 @@ int pomp_buffer_read(const struct pomp_buffer *buf, size_t *pos,
 	POMP_RETURN_ERR_IF_FAILED(p != NULL, -EINVAL);
 
 	/* Make sure there is enough room in data buffer */
-	POMP_RETURN_ERR_IF_FAILED(*pos + n <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(n <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(*pos <= buf->len - n, -EINVAL);
 
 	/* Copy data */
 	memcpy(p, buf->data + *pos, n);
@@ -526,7 +531,8 @@ int pomp_buffer_cread(const struct pomp_buffer *buf, size_t *pos,
 	POMP_RETURN_ERR_IF_FAILED(p != NULL, -EINVAL);
 
 	/* Make sure there is enough room in data buffer */
-	POMP_RETURN_ERR_IF_FAILED(*pos + n <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(n <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(*pos <= buf->len - n, -EINVAL);
 
 	/* Simply set start of data */
 	*p = buf->data + *pos;
-- 
2.43.0


From 47341b0f323f683503d33192900202f21b071be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:50 +0000
Subject: [PATCH 10/57] fix: buffer: appending a buffer to itself read freed
 memory

---
 src/pomp_buffer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index 9ba6517..be3d6e0 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -392,6 +392,15 @@ int pomp_buffer_append_buffer(struct pomp_buffer *buf,
 	if (src_len == 0)
 		return 0;
 
+	/* Appending a buffer to itself: get data after internal resize */
+	if (src == buf) {
+		POMP_RETURN_ERR_IF_FAILED(src_len <= SIZE_MAX / 2, -EINVAL);
+		res = pomp_buffer_ensure_capacity(buf, 2 * src_len);
+		if (res < 0)
+			return res;
+		src_cdata = buf->data;
+	}
+
 	return pomp_buffer_append_data(buf, src_cdata, src_len);
 }
 
-- 
2.43.0


From 9818fc4a6c5b602ea1e56278400178b54dd7e969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:20 +0000
Subject: [PATCH 11/57] fix: buffer: do not truncate sizes above 4GB when
 aligning them

---
 src/pomp_buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pomp_buffer.h b/src/pomp_buffer.h
index b2d55be..e8d000f 100644
--- a/src/pomp_buffer.h
+++ b/src/pomp_buffer.h
@@ -48,7 +48,8 @@
 
 /** Align size up to next allocation step */
 #define POMP_BUFFER_ALIGN_ALLOC_SIZE(_x) \
-	(((_x) + POMP_BUFFER_ALLOC_STEP - 1) & (~(POMP_BUFFER_ALLOC_STEP - 1)))
+	(((_x) + POMP_BUFFER_ALLOC_STEP - 1) & \
+			(~((size_t)POMP_BUFFER_ALLOC_STEP - 1)))
 
 /** Maximum number of file descriptor that can be put in a buffer */
 #define POMP_BUFFER_MAX_FD_COUNT	4
-- 
2.43.0


From cfd57ca6aea90d41df2b23bad0f0371f24cea43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:20 +0000
Subject: [PATCH 12/57] fix: buffer: release file descriptors when shrinking
 the used length

---
 src/pomp_buffer.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index be3d6e0..bef62e3 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -316,9 +316,24 @@ int pomp_buffer_set_capacity(struct pomp_buffer *buf, size_t capacity)
  */
 int pomp_buffer_set_len(struct pomp_buffer *buf, size_t len)
 {
+	uint32_t i = 0, count = 0;
+	int fd = 0;
 	POMP_RETURN_ERR_IF_FAILED(buf != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(len <= buf->capacity, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(buf->refcount <= 1, -EPERM);
+
+	/* Release file descriptors that are not in the buffer anymore */
+	for (i = 0; i < buf->fdcount; i++) {
+		if (buf->fdoffs[i] + sizeof(int32_t) <= len) {
+			buf->fdoffs[count++] = buf->fdoffs[i];
+			continue;
+		}
+		fd = pomp_buffer_get_fd(buf, buf->fdoffs[i]);
+		if (fd >= 0 && close(fd) < 0)
+			POMP_LOG_FD_ERRNO("close", fd);
+	}
+	buf->fdcount = count;
+
 	buf->len = len;
 	return 0;
 }
-- 
2.43.0


From 4cbeb6bc3519109f010e3e99dbe945c531cb84ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:18 +0000
Subject: [PATCH 13/57] fix: loop: do not give events of a removed fd to a new
 one with the same number

---
 src/pomp_loop.c       | 1 +
 src/pomp_loop.h       | 2 ++
 src/pomp_loop_linux.c | 7 +++++--
 src/pomp_loop_posix.c | 7 +++++--
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pomp_loop.c b/src/pomp_loop.c
index 97710b4..2a77935 100644
--- a/src/pomp_loop.c
+++ b/src/pomp_loop.c
@@ -206,6 +206,7 @@ struct pomp_fd *pomp_loop_add_pfd(struct pomp_loop *loop, intptr_t fd,
 	pfd->events = events;
 	pfd->cb = cb;
 	pfd->userdata = userdata;
+	pfd->gen = loop->gen;
 	pfd->next = NULL;
 
 	/* Add in our own list */
diff --git a/src/pomp_loop.h b/src/pomp_loop.h
index f3f4b7b..580608b 100644
--- a/src/pomp_loop.h
+++ b/src/pomp_loop.h
@@ -49,6 +49,7 @@ struct pomp_fd {
 	uint32_t		events;		/**< Monitored events */
 	pomp_fd_event_cb_t	cb;		/**< Registered callback */
 	void			*userdata;	/**< Callback user data */
+	uint64_t		gen;		/**< Loop generation when added */
 	struct pomp_fd		*next;		/**< Next structure in list */
 
 #ifdef POMP_HAVE_LOOP_WIN32
@@ -65,6 +66,7 @@ struct pomp_loop {
 	/** Array of list of registered fds */
 	struct pomp_fd		*pfds[POMP_LOOP_PFDS_LEN];
 	uint32_t		pfdcount;	/**< Number of registered fds */
+	uint64_t		gen;		/**< Incremented at each dispatch */
 
 	struct pomp_list_node	idle_entries;	/**< Idle entries */
 	struct pomp_evt		*idle_evt;	/**<  */
diff --git a/src/pomp_loop_linux.c b/src/pomp_loop_linux.c
index 92be214..d9ed5c7 100644
--- a/src/pomp_loop_linux.c
+++ b/src/pomp_loop_linux.c
@@ -252,6 +252,7 @@ static int pomp_loop_epoll_do_wait_and_process(struct pomp_loop *loop,
 	struct epoll_event events[16];
 	struct pomp_fd *pfd = NULL;
 	uint32_t revents = 0;
+	uint64_t gen = 0;
 
 	memset(events, 0, sizeof(events));
 
@@ -270,6 +271,7 @@ static int pomp_loop_epoll_do_wait_and_process(struct pomp_loop *loop,
 	pomp_watchdog_enter(&loop->watchdog);
 
 	/* Process events */
+	gen = ++loop->gen;
 	nevents = (uint32_t)res;
 	for (i = 0; i < nevents; i++) {
 		revents = fd_events_from_epoll(events[i].events);
@@ -282,9 +284,10 @@ static int pomp_loop_epoll_do_wait_and_process(struct pomp_loop *loop,
 			continue;
 		}
 
-		/* The list might be modified during the callback call */
+		/* The list might be modified during the callback call. Ignore
+		 * fds added meanwhile, the events are not for them */
 		pfd = pomp_loop_find_pfd(loop, events[i].data.fd);
-		if (pfd != NULL)
+		if (pfd != NULL && pfd->gen < gen)
 			(*pfd->cb)(pfd->fd, revents, pfd->userdata);
 	}
 
diff --git a/src/pomp_loop_posix.c b/src/pomp_loop_posix.c
index dda5fae..af221fa 100644
--- a/src/pomp_loop_posix.c
+++ b/src/pomp_loop_posix.c
@@ -187,6 +187,7 @@ static int pomp_loop_poll_do_wait_and_process(struct pomp_loop *loop,
 	struct pollfd *pollfds = NULL;
 	uint32_t revents = 0;
 	uint32_t pfdcount = 0;
+	uint64_t gen = 0;
 	unsigned int pfdi;
 
 	/* Remember number of fds now because it can change during callback
@@ -236,6 +237,7 @@ static int pomp_loop_poll_do_wait_and_process(struct pomp_loop *loop,
 	pomp_watchdog_enter(&loop->watchdog);
 
 	/* Process events */
+	gen = ++loop->gen;
 	nevents = (uint32_t)res;
 	for (i = 0; i < pfdcount; i++) {
 		revents = fd_events_from_poll(loop->pollfds[i].revents);
@@ -248,9 +250,10 @@ static int pomp_loop_poll_do_wait_and_process(struct pomp_loop *loop,
 			continue;
 		}
 
-		/* The list might be modified during the callback call */
+		/* The list might be modified during the callback call. Ignore
+		 * fds added meanwhile, the events are not for them */
 		pfd = pomp_loop_find_pfd(loop, loop->pollfds[i].fd);
-		if (pfd != NULL)
+		if (pfd != NULL && pfd->gen < gen)
 			(*pfd->cb)(pfd->fd, revents, pfd->userdata);
 	}
 
-- 
2.43.0


From feb4a910cf10476f935741986d2266f54bb2fe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:01 +0000
Subject: [PATCH 14/57] fix: loop: do not notify events that are no longer
 monitored

---
 src/pomp_loop_linux.c | 8 +++++++-
 src/pomp_loop_posix.c | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pomp_loop_linux.c b/src/pomp_loop_linux.c
index d9ed5c7..5a38807 100644
--- a/src/pomp_loop_linux.c
+++ b/src/pomp_loop_linux.c
@@ -287,7 +287,13 @@ static int pomp_loop_epoll_do_wait_and_process(struct pomp_loop *loop,
 		/* The list might be modified during the callback call. Ignore
 		 * fds added meanwhile, the events are not for them */
 		pfd = pomp_loop_find_pfd(loop, events[i].data.fd);
-		if (pfd != NULL && pfd->gen < gen)
+		if (pfd == NULL || pfd->gen >= gen)
+			continue;
+
+		/* Monitored events might also have been updated */
+		revents &= pfd->events |
+				POMP_FD_EVENT_ERR | POMP_FD_EVENT_HUP;
+		if (revents != 0)
 			(*pfd->cb)(pfd->fd, revents, pfd->userdata);
 	}
 
diff --git a/src/pomp_loop_posix.c b/src/pomp_loop_posix.c
index af221fa..aa39eb4 100644
--- a/src/pomp_loop_posix.c
+++ b/src/pomp_loop_posix.c
@@ -253,7 +253,13 @@ static int pomp_loop_poll_do_wait_and_process(struct pomp_loop *loop,
 		/* The list might be modified during the callback call. Ignore
 		 * fds added meanwhile, the events are not for them */
 		pfd = pomp_loop_find_pfd(loop, loop->pollfds[i].fd);
-		if (pfd != NULL && pfd->gen < gen)
+		if (pfd == NULL || pfd->gen >= gen)
+			continue;
+
+		/* Monitored events might also have been updated */
+		revents &= pfd->events |
+				POMP_FD_EVENT_ERR | POMP_FD_EVENT_HUP;
+		if (revents != 0)
 			(*pfd->cb)(pfd->fd, revents, pfd->userdata);
 	}
 
-- 
2.43.0


From e3436f9e0daed8da1e705810f233b007f30ac28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:02 +0000
Subject: [PATCH 15/57] fix: loop: keep the loop usable when its destruction is
 refused

---
 src/pomp_loop.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pomp_loop.c b/src/pomp_loop.c
index 2a77935..132a1c9 100644
--- a/src/pomp_loop.c
+++ b/src/pomp_loop.c
@@ -333,13 +333,6 @@ int pomp_loop_destroy(struct pomp_loop *loop)
 	unsigned int pfdi;
 	POMP_RETURN_ERR_IF_FAILED(loop != NULL, -EINVAL);
 
-	/* Detach the event for idle entries */
-	if (!loop->is_destroying)
-		pomp_evt_detach_from_loop(loop->idle_evt, loop);
-
-	/* Set destruction flag */
-	loop->is_destroying = 1;
-
 	/* Check for remaining idle entries. calling flush here is not safe
 	 * associated callbacks and userdata may have been destroyed already
 	 * pomp_loop_idle_flush should be called explicitely before when safe.
@@ -353,6 +346,9 @@ int pomp_loop_destroy(struct pomp_loop *loop)
 
 	for (pfdi = 0; pfdi < POMP_LOOP_PFDS_LEN; pfdi++) {
 		for (pfd = loop->pfds[pfdi]; pfd != NULL; pfd = pfd->next) {
+			/* Ignore our own event for idle entries */
+			if (pfd->userdata == loop->idle_evt)
+				continue;
 			POMP_LOGE("fd=%" PRIiPTR ", cb=%p still in loop",
 					pfd->fd, pfd->cb);
 			res = -EBUSY;
@@ -362,6 +358,13 @@ int pomp_loop_destroy(struct pomp_loop *loop)
 	if (res < 0)
 		return res;
 
+	/* Set destruction flag */
+	loop->is_destroying = 1;
+
+	/* Detach the event for idle entries */
+	if (loop->idle_evt != NULL && pomp_evt_is_attached(loop->idle_evt, loop))
+		pomp_evt_detach_from_loop(loop->idle_evt, loop);
+
 	pthread_mutex_destroy(&loop->lock);
 	pomp_watchdog_clear(&loop->watchdog);
 
-- 
2.43.0


From fbb6c8124085c30ee8a10bcb7f88cf5f4a1fc406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:55 +0000
Subject: [PATCH 16/57] fix: evt: do not call the callback of an event cleared
 meanwhile

---
 src/pomp_evt_linux.c | 12 +++++++++++-
 src/pomp_evt_posix.c | 11 +++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/pomp_evt_linux.c b/src/pomp_evt_linux.c
index 5224480..7589f02 100644
--- a/src/pomp_evt_linux.c
+++ b/src/pomp_evt_linux.c
@@ -122,8 +122,18 @@ static int pomp_evt_fd_clear(struct pomp_evt *evt)
  */
 static void pomp_evt_fd_cb(int fd, uint32_t revents, void *userdata)
 {
+	ssize_t ret;
+	uint64_t count;
 	struct pomp_evt *evt = userdata;
-	pomp_evt_fd_clear(evt);
+
+	/* Clear it. If nothing was read, the event has been cleared by another
+	 * callback in the meantime */
+	do {
+		ret = read(evt->efd, &count, sizeof(count));
+	} while (ret < 0 && errno == EINTR);
+	if (ret < 0)
+		return;
+
 	(*evt->cb)(evt, evt->userdata);
 }
 
diff --git a/src/pomp_evt_posix.c b/src/pomp_evt_posix.c
index a4088c9..925d945 100644
--- a/src/pomp_evt_posix.c
+++ b/src/pomp_evt_posix.c
@@ -136,8 +136,19 @@ static int pomp_evt_posix_clear(struct pomp_evt *evt)
  */
 static void pomp_evt_posix_cb(int fd, uint32_t revents, void *userdata)
 {
+	ssize_t ret;
+	uint8_t dummy;
 	struct pomp_evt *evt = userdata;
+
+	/* Clear it. If nothing was read, the event has been cleared by another
+	 * callback in the meantime */
+	do {
+		ret = read(evt->pipefds[0], &dummy, sizeof(dummy));
+	} while (ret < 0 && errno == EINTR);
+	if (ret <= 0)
+		return;
 	pomp_evt_posix_clear(evt);
+
 	(*evt->cb)(evt, evt->userdata);
 }
 
-- 
2.43.0


From 22a949f541f93c0d34ab5442709aa7b7646273e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:55 +0000
Subject: [PATCH 17/57] fix: loop: wakeup of the poll implementation shall not
 block

---
 src/pomp_loop_posix.c | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/pomp_loop_posix.c b/src/pomp_loop_posix.c
index aa39eb4..462e09b 100644
--- a/src/pomp_loop_posix.c
+++ b/src/pomp_loop_posix.c
@@ -84,14 +84,14 @@ static int16_t fd_events_to_poll(uint32_t events)
  */
 static void pomp_loop_poll_wakeup_cb(struct pomp_loop *loop)
 {
-	/* Read from notification pipe */
+	/* Read everything from notification pipe */
 	ssize_t res = 0;
-	uint8_t dummy = 0;
+	uint8_t dummy[64];
 	do {
-		res = read(loop->wakeup.pipefds[0], &dummy, sizeof(dummy));
-	} while (res < 0 && errno == EINTR);
+		res = read(loop->wakeup.pipefds[0], dummy, sizeof(dummy));
+	} while (res == (ssize_t)sizeof(dummy) || (res < 0 && errno == EINTR));
 
-	if (res < 0)
+	if (res < 0 && errno != EAGAIN)
 		POMP_LOG_FD_ERRNO("read", loop->wakeup.pipefds[0]);
 }
 
@@ -112,8 +112,30 @@ static int pomp_loop_poll_do_new(struct pomp_loop *loop)
 	if (pipe(loop->wakeup.pipefds) < 0) {
 		res = -errno;
 		POMP_LOG_ERRNO("pipe");
+		goto error;
 	}
 
+	/* Setup fd flags */
+	res = fd_setup_flags(loop->wakeup.pipefds[0]);
+	if (res < 0)
+		goto error;
+	res = fd_setup_flags(loop->wakeup.pipefds[1]);
+	if (res < 0)
+		goto error;
+
+	return 0;
+
+	/* Cleanup in case of error */
+error:
+	if (loop->wakeup.pipefds[0] >= 0) {
+		close(loop->wakeup.pipefds[0]);
+		loop->wakeup.pipefds[0] = -1;
+	}
+
+	if (loop->wakeup.pipefds[1] >= 0) {
+		close(loop->wakeup.pipefds[1]);
+		loop->wakeup.pipefds[1] = -1;
+	}
 	return res;
 }
 
@@ -281,7 +303,8 @@ static int pomp_loop_poll_do_wakeup(struct pomp_loop *loop)
 		res = write(loop->wakeup.pipefds[1], &dummy, sizeof(dummy));
 	} while (res < 0 && errno == EINTR);
 
-	if (res < 0) {
+	/* A full pipe means that the loop will already be woken up */
+	if (res < 0 && errno != EAGAIN) {
 		res = -errno;
 		POMP_LOG_FD_ERRNO("write", loop->wakeup.pipefds[1]);
 	} else {
-- 
2.43.0


From f16615d81f0565883a8e4c217f85e1026c4cfdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:55 +0000
Subject: [PATCH 18/57] fix: watchdog: invalid timeout when it is a whole
 number of seconds

---
 src/pomp_watchdog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomp_watchdog.c b/src/pomp_watchdog.c
index 6c054df..9843195 100644
--- a/src/pomp_watchdog.c
+++ b/src/pomp_watchdog.c
@@ -54,7 +54,7 @@ static void get_absolute_timeout(uint32_t delay, struct timespec *timeout)
 
 	timeout->tv_sec += delay / 1000;
 	timeout->tv_nsec += (delay % 1000) * 1000000;
-	while (timeout->tv_nsec > 1000000000) {
+	while (timeout->tv_nsec >= 1000000000) {
 		/* over one billion nsec, add 1 sec */
 		timeout->tv_sec++;
 		timeout->tv_nsec -= 1000000000;
-- 
2.43.0


From 76e644d4c412b03f858a346f42660dc3c97c9061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:55 +0000
Subject: [PATCH 19/57] fix: watchdog: forget the current dispatch when stopped

---
 src/pomp_watchdog.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pomp_watchdog.c b/src/pomp_watchdog.c
index 9843195..1f362c3 100644
--- a/src/pomp_watchdog.c
+++ b/src/pomp_watchdog.c
@@ -138,6 +138,12 @@ int pomp_watchdog_start(struct pomp_watchdog *watchdog,
 	pthread_cond_init(&watchdog->cond, &condattr);
 	pthread_condattr_destroy(&condattr);
 
+	/* Setup parameters before the thread can use them */
+	watchdog->loop = loop;
+	watchdog->delay = delay;
+	watchdog->cb = cb;
+	watchdog->userdata = userdata;
+
 	/* Create an internal thread */
 	res = pthread_create(&watchdog->thread, NULL,
 			&pomp_watchdog_thread_cb, watchdog);
@@ -148,11 +154,6 @@ int pomp_watchdog_start(struct pomp_watchdog *watchdog,
 	}
 	watchdog->started = 1;
 
-	watchdog->loop = loop;
-	watchdog->delay = delay;
-	watchdog->cb = cb;
-	watchdog->userdata = userdata;
-
 	return 0;
 
 	/* Cleanup in case of error */
@@ -176,6 +177,7 @@ int pomp_watchdog_stop(struct pomp_watchdog *watchdog)
 		memset(&watchdog->thread, 0, sizeof(watchdog->thread));
 		pthread_mutex_lock(&watchdog->mutex);
 		watchdog->should_stop = 0;
+		watchdog->monitoring = 0;
 		pthread_mutex_unlock(&watchdog->mutex);
 		watchdog->started = 0;
 	}
-- 
2.43.0


From 5efb6524b207912c03d9ef06ff82fb7995441b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:58 +0000
Subject: [PATCH 20/57] fix: timer: the posix timer with id 0 was never deleted

---
 src/pomp_timer.h       | 1 +
 src/pomp_timer_posix.c | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pomp_timer.h b/src/pomp_timer.h
index 1622336..b13fbdf 100644
--- a/src/pomp_timer.h
+++ b/src/pomp_timer.h
@@ -43,6 +43,7 @@ struct pomp_timer {
 
 #ifdef POMP_HAVE_TIMER_POSIX
 	timer_t			id;		/**< Timer id */
+	int			created;	/**< 1 if id is valid */
 	int			pipefds[2];	/**< Notification pipes */
 #endif /* POMP_HAVE_TIMER_POSIX */
 
diff --git a/src/pomp_timer_posix.c b/src/pomp_timer_posix.c
index 2147548..61ce9de 100644
--- a/src/pomp_timer_posix.c
+++ b/src/pomp_timer_posix.c
@@ -92,7 +92,7 @@ static int pomp_timer_posix_destroy(struct pomp_timer *timer)
 	/* Free resources */
 	/* from 'timer_delete' man page : The treatment of any pending signal
 	 * generated by the deleted timer is unspecified */
-	if (timer->id != 0)
+	if (timer->created)
 		timer_delete(timer->id);
 	if (timer->pipefds[0] >= 0) {
 		pomp_loop_remove(timer->loop, timer->pipefds[0]);
@@ -137,6 +137,7 @@ static struct pomp_timer *pomp_timer_posix_new(struct pomp_loop *loop,
 		POMP_LOG_ERRNO("timer_create");
 		goto error;
 	}
+	timer->created = 1;
 
 	/* Create pipe for notification */
 	res = pipe(timer->pipefds);
-- 
2.43.0


From e72ac13d39774ab7e21ab201f5db5f8826f6e076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:58 +0000
Subject: [PATCH 21/57] fix: timer: posix timers notified expirations after
 being cleared or set again

---
 src/pomp_timer_posix.c | 43 +++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/pomp_timer_posix.c b/src/pomp_timer_posix.c
index 61ce9de..c43179b 100644
--- a/src/pomp_timer_posix.c
+++ b/src/pomp_timer_posix.c
@@ -36,6 +36,26 @@
 
 #ifdef POMP_HAVE_TIMER_POSIX
 
+/**
+ * Read all pending notifications of the timer.
+ * @param timer : timer object.
+ * @return 1 if the timer has expired, 0 otherwise.
+ */
+static int pomp_timer_posix_drain(struct pomp_timer *timer)
+{
+	ssize_t res = 0;
+	uint8_t dummy[64];
+	int expired = 0;
+
+	do {
+		res = read(timer->pipefds[0], dummy, sizeof(dummy));
+		if (res > 0)
+			expired = 1;
+	} while (res > 0 || (res < 0 && errno == EINTR));
+
+	return expired;
+}
+
 /**
  * Function called when the posix timer signal is triggered.
  * @param signo : signal number.
@@ -47,6 +67,7 @@ static void pomp_timer_posix_sighandler(int signo, siginfo_t *si, void *unused)
 	ssize_t res = 0;
 	uint8_t dummy = 0xff;
 	struct pomp_timer *timer = NULL;
+	int err = errno;
 
 	/* Extract timer structure */
 	if (si->si_code != SI_TIMER)
@@ -59,6 +80,7 @@ static void pomp_timer_posix_sighandler(int signo, siginfo_t *si, void *unused)
 	do {
 		res = write(timer->pipefds[1], &dummy, sizeof(dummy));
 	} while (res < 0 && errno == EINTR);
+	errno = err;
 }
 
 /**
@@ -70,16 +92,10 @@ static void pomp_timer_posix_sighandler(int signo, siginfo_t *si, void *unused)
 static void pomp_timer_posix_cb(int fd, uint32_t revents, void *userdata)
 {
 	struct pomp_timer *timer = userdata;
-	ssize_t res = 0;
-	uint8_t dummy = 0;
 
-	/* Read from notification pipe */
-	do {
-		res = read(timer->pipefds[0], &dummy, sizeof(dummy));
-	} while (res < 0 && errno == EINTR);
-
-	/* Notify callback */
-	(*timer->cb)(timer, timer->userdata);
+	/* Notify callback, unless the timer was set again or cleared since */
+	if (pomp_timer_posix_drain(timer))
+		(*timer->cb)(timer, timer->userdata);
 }
 
 /**
@@ -190,6 +206,15 @@ static int pomp_timer_posix_set(struct pomp_timer *timer, uint32_t delay,
 	struct itimerspec newval, oldval;
 	POMP_RETURN_ERR_IF_FAILED(timer != NULL, -EINVAL);
 
+	/* Stop timer and forget notifications of the previous setting */
+	memset(&newval, 0, sizeof(newval));
+	if (timer_settime(timer->id, 0, &newval, &oldval) < 0) {
+		res = -errno;
+		POMP_LOG_ERRNO("timer_settime");
+		return res;
+	}
+	pomp_timer_posix_drain(timer);
+
 	/* Setup timeout */
 	newval.it_interval.tv_sec = (time_t)(period / 1000);
 	newval.it_interval.tv_nsec = (long int)((period % 1000) * 1000 * 1000);
-- 
2.43.0


From 1130d8e171323ea5d22e4afafc41ea18f6d43358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:45 +0000
Subject: [PATCH 22/57] fix: addr: inet and inet6 accepted addresses of the
 other family

---
 src/pomp_addr.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pomp_addr.c b/src/pomp_addr.c
index 2008ca8..37f16d0 100644
--- a/src/pomp_addr.c
+++ b/src/pomp_addr.c
@@ -37,13 +37,14 @@
 /**
  * Parse a inet socket address given as a string and convert it to sockaddr.
  * @param buf: input string.
+ * @param family: address family (AF_INET or AF_INET6).
  * @param addr: destination structure.
  * @param addrlen: maximum size of destination structure as input, real size
  * converted as output.
  * @return 0 in case of success, negative errno value in case of error.
  */
-static int pomp_addr_parse_inet(const char *buf, struct sockaddr *addr,
-		uint32_t *addrlen)
+static int pomp_addr_parse_inet(const char *buf, int family,
+		struct sockaddr *addr, uint32_t *addrlen)
 {
 	int res = -EINVAL;
 	struct addrinfo hints;
@@ -52,7 +53,7 @@ static int pomp_addr_parse_inet(const char *buf, struct sockaddr *addr,
 
 	/* Setup hints for getaddrinfo */
 	memset(&hints, 0, sizeof(hints));
-	hints.ai_family = AF_UNSPEC;
+	hints.ai_family = family;
 	hints.ai_socktype = 0;
 	hints.ai_flags = AI_NUMERICHOST;
 	hints.ai_protocol = 0;
@@ -110,12 +111,12 @@ int pomp_addr_parse(const char *buf, struct sockaddr *addr, uint32_t *addrlen)
 
 	if (strncmp(buf, "inet:", 5) == 0) {
 		/* Inet v4 address */
-		res = pomp_addr_parse_inet(buf + 5, addr, addrlen);
+		res = pomp_addr_parse_inet(buf + 5, AF_INET, addr, addrlen);
 		if (res < 0)
 			goto out;
 	} else if (strncmp(buf, "inet6:", 6) == 0) {
 		/* Inet v6 address */
-		res = pomp_addr_parse_inet(buf + 6, addr, addrlen);
+		res = pomp_addr_parse_inet(buf + 6, AF_INET6, addr, addrlen);
 		if (res < 0)
 			goto out;
 	} else if (strncmp(buf, "unix:", 5) == 0) {
-- 
2.43.0


From 3200cf3573a27e3136cf07ba928dc729221ed11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:45 +0000
Subject: [PATCH 23/57] fix: addr: refuse empty and out of range ports

---
 src/pomp_addr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pomp_addr.c b/src/pomp_addr.c
index 37f16d0..d9f1609 100644
--- a/src/pomp_addr.c
+++ b/src/pomp_addr.c
@@ -48,7 +48,7 @@ static int pomp_addr_parse_inet(const char *buf, int family,
 {
 	int res = -EINVAL;
 	struct addrinfo hints;
-	char *ip = NULL, *sep = NULL;
+	char *ip = NULL, *sep = NULL, *end = NULL;
 	struct addrinfo *ai = NULL;
 
 	/* Setup hints for getaddrinfo */
@@ -69,6 +69,11 @@ static int pomp_addr_parse_inet(const char *buf, int family,
 		goto out;
 	*sep = '\0';
 
+	/* An empty port or one that does not fit would be silently converted */
+	if (sep[1] == '\0' || strtol(sep + 1, &end, 10) < 0 ||
+	    (*end == '\0' && strtol(sep + 1, NULL, 10) > 65535))
+		goto out;
+
 	/* Convert address and port
 	 * WIN32 returns positive value for errors */
 	res = getaddrinfo(ip, sep + 1, &hints, &ai);
-- 
2.43.0


From 6554851fa60fc32b7e47569c84d639ebbea1003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:46 +0000
Subject: [PATCH 24/57] fix: addr: report an error when the formatted address
 is truncated

---
 src/pomp_addr.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pomp_addr.c b/src/pomp_addr.c
index d9f1609..4b059b0 100644
--- a/src/pomp_addr.c
+++ b/src/pomp_addr.c
@@ -157,6 +157,7 @@ int pomp_addr_format(char *buf, uint32_t buflen, const struct sockaddr *addr,
 {
 	char ip[64] = "";
 	char port[8] = "";
+	int len = 0;
 	const struct sockaddr_un *addr_un = NULL;
 
 	POMP_RETURN_ERR_IF_FAILED(buf != NULL, -EINVAL);
@@ -172,7 +173,7 @@ int pomp_addr_format(char *buf, uint32_t buflen, const struct sockaddr *addr,
 				NI_NUMERICHOST | NI_NUMERICSERV) != 0) {
 			return -EINVAL;
 		}
-		snprintf(buf, buflen, "inet:%s:%s", ip, port);
+		len = snprintf(buf, buflen, "inet:%s:%s", ip, port);
 		break;
 
 	case AF_INET6:
@@ -181,7 +182,7 @@ int pomp_addr_format(char *buf, uint32_t buflen, const struct sockaddr *addr,
 				NI_NUMERICHOST | NI_NUMERICSERV) != 0) {
 			return -EINVAL;
 		}
-		snprintf(buf, buflen, "inet6:%s:%s", ip, port);
+		len = snprintf(buf, buflen, "inet6:%s:%s", ip, port);
 		break;
 
 	case AF_UNIX:
@@ -189,17 +190,20 @@ int pomp_addr_format(char *buf, uint32_t buflen, const struct sockaddr *addr,
 				-EINVAL);
 		addr_un = (const struct sockaddr_un *)addr;
 		if (addr_un->sun_path[0] == '\0')
-			snprintf(buf, buflen, "unix:@%s", addr_un->sun_path+1);
+			len = snprintf(buf, buflen, "unix:@%s",
+					addr_un->sun_path + 1);
 		else
-			snprintf(buf, buflen, "unix:%s", addr_un->sun_path);
+			len = snprintf(buf, buflen, "unix:%s",
+					addr_un->sun_path);
 		break;
 
 	default:
-		snprintf(buf, buflen, "addr:family:%d", addr->sa_family);
+		len = snprintf(buf, buflen, "addr:family:%d", addr->sa_family);
 		break;
 	}
 
-	return 0;
+	/* Truncated ? */
+	return len < 0 || (uint32_t)len >= buflen ? -EINVAL : 0;
 }
 
 /*
-- 
2.43.0


From 5b11bb6087d209c620f5a2e38e4180a6064d3009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:46 +0000
Subject: [PATCH 25/57] fix: addr: read past unix paths that are not terminated

---
 src/pomp_addr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pomp_addr.c b/src/pomp_addr.c
index 4b059b0..2c64363 100644
--- a/src/pomp_addr.c
+++ b/src/pomp_addr.c
@@ -190,10 +190,12 @@ int pomp_addr_format(char *buf, uint32_t buflen, const struct sockaddr *addr,
 				-EINVAL);
 		addr_un = (const struct sockaddr_un *)addr;
 		if (addr_un->sun_path[0] == '\0')
-			len = snprintf(buf, buflen, "unix:@%s",
+			len = snprintf(buf, buflen, "unix:@%.*s",
+					(int)sizeof(addr_un->sun_path) - 1,
 					addr_un->sun_path + 1);
 		else
-			len = snprintf(buf, buflen, "unix:%s",
+			len = snprintf(buf, buflen, "unix:%.*s",
+					(int)sizeof(addr_un->sun_path),
 					addr_un->sun_path);
 		break;
 
-- 
2.43.0


From 3a248554e33133669e9fd98dab63dd53b684be49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:26 +0000
Subject: [PATCH 26/57] fix: conn: changing the read buffer length in a
 callback freed the buffer in use

---
 src/pomp_conn.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index fabce02..5d3e139 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -103,6 +103,9 @@ struct pomp_conn {
 	/** Read buffer len */
 	size_t readbuf_len;
 
+	/** Read buffer shall be reallocated with the new length */
+	int readbuf_obsolete;
+
 	/** To chain connection structures in server context */
 	struct pomp_conn	*next;
 
@@ -731,11 +734,14 @@ static void pomp_conn_process_read(struct pomp_conn *conn)
 		return;
 
 	do {
-		/* If current read buffer is shared, unref it */
-		if (conn->readbuf != NULL && conn->readbuf->refcount > 1) {
+		/* If current read buffer is shared or does not have the
+		 * requested length, unref it */
+		if (conn->readbuf != NULL && (conn->readbuf->refcount > 1 ||
+				conn->readbuf_obsolete)) {
 			pomp_buffer_unref(conn->readbuf);
 			conn->readbuf = NULL;
 		}
+		conn->readbuf_obsolete = 0;
 
 		/* Allocate a new read buffer if needed */
 		if (conn->readbuf == NULL)
@@ -1486,13 +1492,10 @@ int pomp_conn_set_read_buffer_len(struct pomp_conn *conn,
 	POMP_RETURN_ERR_IF_FAILED(conn != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(len != 0, -EINVAL);
 
-	/* If current read buffer has already been allocated, unref it so that
-	 * it will be reallocated with the correct length when needed. */
-	if (conn->readbuf != NULL) {
-		pomp_buffer_unref(conn->readbuf);
-		conn->readbuf = NULL;
-	}
-
+	/* If current read buffer has already been allocated, it will be
+	 * reallocated with the correct length when needed. It can not be done
+	 * now because its content may be under processing. */
+	conn->readbuf_obsolete = 1;
 	conn->readbuf_len = len;
 	return 0;
 }
-- 
2.43.0


From 932f70cd2573889d6cf95ec11154d9858bc84c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:57 +0000
Subject: [PATCH 27/57] fix: conn: the remains of a datagram were mixed with
 the next ones

---
 src/pomp_conn.c |  9 +++++++++
 src/pomp_priv.h |  4 ++++
 src/pomp_prot.c | 14 ++++++++++++++
 3 files changed, 27 insertions(+)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index 5d3e139..f5239f6 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -749,6 +749,15 @@ static void pomp_conn_process_read(struct pomp_conn *conn)
 		if (conn->readbuf == NULL)
 			break;
 
+		/* Each datagram stands alone, forget what could remain of the
+		 * previous one */
+		if (conn->isdgram) {
+			pomp_conn_rx_fds_clear(conn->rx_fds_current);
+			pomp_conn_rx_fds_clear(conn->rx_fds_next);
+			if (conn->prot != NULL)
+				pomp_prot_reset(conn->prot);
+		}
+
 		/* Read data */
 #ifndef _WIN32
 		if (conn->isdgram || POMP_CONN_IS_LOCAL(conn))
diff --git a/src/pomp_priv.h b/src/pomp_priv.h
index 82997d0..c906197 100644
--- a/src/pomp_priv.h
+++ b/src/pomp_priv.h
@@ -214,6 +214,10 @@ int pomp_ctx_notify_send(struct pomp_ctx *ctx, struct pomp_conn *conn,
 
 int pomp_ctx_sendcb_is_set(struct pomp_ctx *ctx);
 
+/* Protocol functions not part of public API */
+
+int pomp_prot_reset(struct pomp_prot *prot);
+
 /* Connection functions not part of public API */
 
 struct pomp_conn *pomp_conn_new(struct pomp_ctx *ctx,
diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index ea05230..b42c4f5 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -373,6 +373,20 @@ int pomp_prot_decode_msg(struct pomp_prot *prot, const void *buf,
 	return (int)off;
 }
 
+/**
+ * Reset the decoding, forgetting any message partially decoded.
+ * @param prot : protocol decoder.
+ * @return 0 in case of success, negative errno value in case of error.
+ */
+int pomp_prot_reset(struct pomp_prot *prot)
+{
+	POMP_RETURN_ERR_IF_FAILED(prot != NULL, -EINVAL);
+	if (prot->msg != NULL)
+		pomp_msg_clear(prot->msg);
+	pomp_prot_reset_state(prot);
+	return 0;
+}
+
 /**
  * Release a previously decoded message. This is to reuse message structure
  * if possible and avoid some malloc/free at each decoded message. If there
-- 
2.43.0


From 58e1f5017627e4d468352a57ae73fd276edaff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:57 +0000
Subject: [PATCH 28/57] fix: conn: refuse file descriptors in datagrams, they
 were silently lost

---
 src/pomp_conn.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index f5239f6..bf90923 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -1350,8 +1350,9 @@ static int pomp_conn_send_buf_internal(struct pomp_conn *conn,
 		return -EINVAL;
 
 	/* If buffer has file descriptors in it, the connection must be a
-	 * local unix socket */
-	if (buf->fdcount > 0 && !POMP_CONN_IS_LOCAL(conn)) {
+	 * local unix stream socket */
+	if (buf->fdcount > 0 &&
+			(conn->isdgram || !POMP_CONN_IS_LOCAL(conn))) {
 		POMP_LOGE("Unable to send message with file descriptors");
 		return -EPERM;
 	}
-- 
2.43.0


From eb36a817d5d67c14d103020ec9f5668669abef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:57 +0000
Subject: [PATCH 29/57] fix: conn: the peer address of unix connections was
 lost after a read

---
 src/pomp_conn.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index bf90923..38b3ff4 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -613,8 +613,10 @@ static int pomp_conn_process_read_with_cmsg(struct pomp_conn *conn)
 	/* Setup the data part of the socket message */
 	iov.iov_base = conn->readbuf->data;
 	iov.iov_len = conn->readbuf->capacity;
-	msg.msg_name = &conn->peer_addr;
-	msg.msg_namelen = sizeof(conn->peer_addr);
+	if (conn->isdgram) {
+		msg.msg_name = &conn->peer_addr;
+		msg.msg_namelen = sizeof(conn->peer_addr);
+	}
 	msg.msg_iov = &iov;
 	msg.msg_iovlen = 1;
 
@@ -635,7 +637,8 @@ static int pomp_conn_process_read_with_cmsg(struct pomp_conn *conn)
 			POMP_LOG_FD_ERRNO("recvmsg", conn->fd);
 		return res;
 	}
-	conn->peer_addrlen = msg.msg_namelen;
+	if (conn->isdgram)
+		conn->peer_addrlen = msg.msg_namelen;
 	if (readlen == 0)
 		return 0;
 
-- 
2.43.0


From ed79328a94ce6680185a884246370d12b0735c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:57 +0000
Subject: [PATCH 30/57] fix: conn: a send that could not be queued left a
 partial message in the stream

---
 src/pomp_conn.c | 47 +++++++++++++++++------------------------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index 38b3ff4..3766363 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -1328,9 +1328,7 @@ static int pomp_conn_send_buf_internal(struct pomp_conn *conn,
 		const struct sockaddr *addr, uint32_t addrlen)
 {
 	int res = 0;
-	size_t off = 0;
 	struct pomp_io_buffer *iobuf = NULL;
-	struct pomp_io_buffer tmpiobuf;
 
 	POMP_RETURN_ERR_IF_FAILED(conn != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(conn->fd >= 0, -EINVAL);
@@ -1360,46 +1358,35 @@ static int pomp_conn_send_buf_internal(struct pomp_conn *conn,
 		return -EPERM;
 	}
 
+	/* Allocate the io buffer before writing anything, it would be too late
+	 * to fail after a partial write */
+	iobuf = pomp_io_buffer_new(buf, 0);
+	if (iobuf == NULL)
+		return -ENOMEM;
+	if (conn->isdgram) {
+		memcpy(&iobuf->addr, addr, addrlen);
+		iobuf->addrlen = addrlen;
+	}
+
 	/* Try to send now if possible */
 	if (conn->headbuf == NULL) {
-		/* Prepare a local temp io buffer */
-		memset(&tmpiobuf, 0, sizeof(tmpiobuf));
-		tmpiobuf.buf = buf;
-		tmpiobuf.len = buf->len;
-		tmpiobuf.off = 0;
-		tmpiobuf.next = NULL;
-		if (conn->isdgram) {
-			memcpy(&tmpiobuf.addr, addr, addrlen);
-			tmpiobuf.addrlen = addrlen;
-		}
-
-		/* Write it */
-		res = pomp_io_buffer_write(&tmpiobuf, conn);
+		res = pomp_io_buffer_write(iobuf, conn);
 		if (res < 0) {
-			if (!POMP_CONN_WOULD_BLOCK(-res))
+			if (!POMP_CONN_WOULD_BLOCK(-res)) {
+				pomp_io_buffer_destroy(iobuf);
 				return res;
-		} else if (tmpiobuf.off == tmpiobuf.len) {
+			}
+		} else if (iobuf->off == iobuf->len) {
 			/* If everything was written, nothing more to do */
-			pomp_conn_add_idle_cb(conn, conn->ctx,
-					tmpiobuf.buf,
+			pomp_conn_add_idle_cb(conn, conn->ctx, buf,
 					POMP_SEND_STATUS_OK |
 					POMP_SEND_STATUS_QUEUE_EMPTY);
+			pomp_io_buffer_destroy(iobuf);
 			return 0;
-
-		} else {
-			off = tmpiobuf.off;
 		}
 	}
 
 	/* Need to queue the buffer */
-	iobuf = pomp_io_buffer_new(buf, off);
-	if (iobuf == NULL)
-		return -ENOMEM;
-	if (conn->isdgram) {
-		memcpy(&iobuf->addr, addr, addrlen);
-		iobuf->addrlen = addrlen;
-	}
-
 	if (conn->tailbuf == NULL) {
 		/* No previous pending buffer */
 		POMP_LOGI("conn=%p fd=%d enter async mode", conn, conn->fd);
-- 
2.43.0


From b079599a964b2ce24379882997a824700c87452b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:57 +0000
Subject: [PATCH 31/57] fix: conn: a queued datagram that could not be sent
 stopped the context

---
 src/pomp_conn.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index 3766363..1f938d8 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -973,19 +973,21 @@ static void pomp_conn_process_write(struct pomp_conn *conn)
 		res = pomp_io_buffer_write(iobuf, conn);
 		if (POMP_CONN_WOULD_BLOCK(-res)) {
 			break;
-		} else if (res < 0) {
+		} else if (res < 0 && !conn->isdgram) {
 			/* Error, finish this connection */
 			conn->removeflag = 1;
 			break;
 		}
 
-		/* Remove pending buffer if completed */
-		if (iobuf->off == iobuf->len) {
+		/* Remove pending buffer if completed (for dgram an error only
+		 * concerns this buffer, not the next ones) */
+		if (res < 0 || iobuf->off == iobuf->len) {
 			conn->headbuf = iobuf->next;
 			if (conn->headbuf == NULL)
 				conn->tailbuf = NULL;
 
-			status = POMP_SEND_STATUS_OK;
+			status = res < 0 ? POMP_SEND_STATUS_ERROR :
+					POMP_SEND_STATUS_OK;
 			if (conn->headbuf == NULL)
 				status |= POMP_SEND_STATUS_QUEUE_EMPTY;
 
-- 
2.43.0


From b65227c46b230418c2e6e5c7eb0e6839fa7c18a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:57 +0000
Subject: [PATCH 32/57] fix: conn: the status of a send was lost when it could
 not be deferred

---
 src/pomp_conn.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index 1f938d8..837364c 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -934,12 +934,12 @@ static int pomp_conn_add_idle_cb(struct pomp_conn *conn, struct pomp_ctx *ctx,
 
 	res = idle_sendcb_data_create(conn, ctx, buf, status, &icb_data);
 	if (res < 0)
-		return res;
+		goto error;
 
 	res = pomp_loop_idle_add(conn->loop, &pomp_idle_cb, icb_data);
 	if (res < 0) {
 		idle_sendcb_data_destroy(icb_data);
-		return res;
+		goto error;
 	}
 
 	/* If first element */
@@ -952,6 +952,11 @@ static int pomp_conn_add_idle_cb(struct pomp_conn *conn, struct pomp_ctx *ctx,
 	conn->idlecbs_head = icb_data;
 
 	return 0;
+
+error:
+	/* Notify now (in order), the status would never be known otherwise */
+	clear_pending_callbacks(conn);
+	return pomp_ctx_notify_send(ctx, conn, buf, status);
 }
 
 /**
-- 
2.43.0


From daa5d17a9f8f15d0f15a0cf114463ec1c6afec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:14 +0000
Subject: [PATCH 33/57] fix: ctx: stopping the context in the socket callback
 crashed

---
 src/pomp_ctx.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index 6c793c7..03ab955 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -262,6 +262,22 @@ out:
 	return res;
 }
 
+/**
+ * Notify that a socket has been created.
+ * @param ctx : context.
+ * @param fd : socket fd.
+ * @param kind : socket kind.
+ */
+static void notify_socket(struct pomp_ctx *ctx, int fd,
+		enum pomp_socket_kind kind)
+{
+	if (ctx->sockcb != NULL) {
+		ctx->notifying++;
+		(*ctx->sockcb)(ctx, fd, kind, ctx->userdata);
+		ctx->notifying--;
+	}
+}
+
 /**
  * Accept a new connection in a server context.
  * The user will be notified and the connection fd will be monitored for io.
@@ -311,8 +327,7 @@ static int server_accept_conn(int server_fd, struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL)
-		(*ctx->sockcb)(ctx, fd, POMP_SOCKET_KIND_PEER, ctx->userdata);
+	notify_socket(ctx, fd, POMP_SOCKET_KIND_PEER);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(fd);
@@ -409,10 +424,7 @@ static int server_start(struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL) {
-		(*ctx->sockcb)(ctx, ctx->u.server.fd,
-				POMP_SOCKET_KIND_SERVER, ctx->userdata);
-	}
+	notify_socket(ctx, ctx->u.server.fd, POMP_SOCKET_KIND_SERVER);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(ctx->u.server.fd);
@@ -656,10 +668,7 @@ static int client_start(struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL) {
-		(*ctx->sockcb)(ctx, ctx->u.client.fd,
-				POMP_SOCKET_KIND_CLIENT, ctx->userdata);
-	}
+	notify_socket(ctx, ctx->u.client.fd, POMP_SOCKET_KIND_CLIENT);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(ctx->u.client.fd);
@@ -753,10 +762,7 @@ static int dgram_start(struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL) {
-		(*ctx->sockcb)(ctx, ctx->u.dgram.fd,
-				POMP_SOCKET_KIND_DGRAM, ctx->userdata);
-	}
+	notify_socket(ctx, ctx->u.dgram.fd, POMP_SOCKET_KIND_DGRAM);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(ctx->u.dgram.fd);
-- 
2.43.0


From b54ab6ba66391eadbbec2d818257a2b78ddae122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:14 +0000
Subject: [PATCH 34/57] fix: ctx: a stop that could not be deferred prevented
 any other

---
 src/pomp_ctx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index 03ab955..571c4e7 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -1189,6 +1189,7 @@ static void pomp_ctx_stop_idle(void *userdata)
  */
 int pomp_ctx_stop(struct pomp_ctx *ctx)
 {
+	int res = 0;
 	POMP_RETURN_ERR_IF_FAILED(ctx != NULL, -EINVAL);
 	if (ctx->addr == NULL || ctx->stopping)
 		return 0;
@@ -1198,7 +1199,10 @@ int pomp_ctx_stop(struct pomp_ctx *ctx)
 	/* If currently notifying events/messages, do the stop in idle,
 	 * otherwise do it syncchronously */
 	if (ctx->notifying > 0) {
-		return pomp_loop_idle_add(ctx->loop, &pomp_ctx_stop_idle, ctx);
+		res = pomp_loop_idle_add(ctx->loop, &pomp_ctx_stop_idle, ctx);
+		if (res < 0)
+			ctx->stopping = 0;
+		return res;
 	} else {
 		pomp_ctx_stop_idle(ctx);
 		return 0;
-- 
2.43.0


From b40d835d89b4d9eb649d3e32abcf5d454f87e5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:14 +0000
Subject: [PATCH 35/57] fix: ctx: a context whose start failed could not be
 started nor destroyed

---
 src/pomp_ctx.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index 571c4e7..976dca1 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -1053,6 +1053,8 @@ int pomp_ctx_destroy(struct pomp_ctx *ctx)
 	return 0;
 }
 
+static void pomp_ctx_stop_idle(void *userdata);
+
 /**
  * Internal start function.
  * @param ctx : context.
@@ -1110,6 +1112,18 @@ static int pomp_ctx_start(struct pomp_ctx *ctx, enum pomp_ctx_type type,
 		break;
 	}
 
+	/* In case of error, the context is not started (and a stop requested
+	 * by the socket callback has nothing to do) */
+	if (res < 0) {
+		if (ctx->stopping) {
+			pomp_loop_idle_remove(ctx->loop, &pomp_ctx_stop_idle,
+					ctx);
+			ctx->stopping = 0;
+		}
+		free(ctx->addr);
+		ctx->addr = NULL;
+	}
+
 	return res;
 }
 
-- 
2.43.0


From 4118d529b511032a1c87504d7eb3821c7f2ad6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:14 +0000
Subject: [PATCH 36/57] fix: ctx: give up retrying only when stopped

---
 src/pomp_ctx.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index 976dca1..a9cdd8b 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -868,6 +868,8 @@ static int dgram_stop(struct pomp_ctx *ctx)
 static void timer_cb(struct pomp_timer *timer, void *userdata)
 {
 	struct pomp_ctx *ctx = userdata;
+	int res = 0;
+	uint32_t delay = 0;
 
 	/* Clear timer */
 	pomp_timer_clear(ctx->timer);
@@ -875,17 +877,24 @@ static void timer_cb(struct pomp_timer *timer, void *userdata)
 	/* Try reconnecting the client/server */
 	switch (ctx->type) {
 	case POMP_CTX_TYPE_SERVER:
-		server_start(ctx);
+		res = server_start(ctx);
+		delay = POMP_SERVER_RECONNECT_DELAY;
 		break;
 
 	case POMP_CTX_TYPE_CLIENT:
-		client_start(ctx);
+		res = client_start(ctx);
+		delay = POMP_CLIENT_RECONNECT_DELAY;
 		break;
 
 	case POMP_CTX_TYPE_DGRAM:
-		dgram_start(ctx);
+		res = dgram_start(ctx);
+		delay = POMP_DGRAM_RECONNECT_DELAY;
 		break;
 	}
+
+	/* There is nobody to report the error to, try again later */
+	if (res < 0)
+		pomp_timer_set(ctx->timer, delay);
 }
 
 /*
-- 
2.43.0


From 69044bf1ad72caf29aed6dcb337c06305d5bfcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:14 +0000
Subject: [PATCH 37/57] fix: ctx: read past the end of short or not terminated
 addresses

---
 src/pomp_ctx.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index a9cdd8b..46e4f41 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -1080,8 +1080,11 @@ static int pomp_ctx_start(struct pomp_ctx *ctx, enum pomp_ctx_type type,
 	POMP_RETURN_ERR_IF_FAILED(addr != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(ctx->addr == NULL, -EBUSY);
 
-	/* Copy address */
-	ctx->addr = malloc(addrlen);
+	/* Copy address, with room for any kind of address and so that a unix
+	 * path is always null terminated */
+	if (addrlen > sizeof(struct sockaddr_storage))
+		return -EINVAL;
+	ctx->addr = calloc(1, sizeof(struct sockaddr_storage) + 1);
 	if (ctx->addr == NULL)
 		return -ENOMEM;
 	ctx->addrlen = addrlen;
-- 
2.43.0


From 4a90e212d555bf08c9783738a2de3b1af66905e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:48 +0000
Subject: [PATCH 38/57] fix: close file descriptors received with an empty
 datagram

The ancillary data was ignored when no byte was read, leaking the received
file descriptors.
---
 src/pomp_conn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index 837364c..89f920a 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -639,7 +639,8 @@ static int pomp_conn_process_read_with_cmsg(struct pomp_conn *conn)
 	}
 	if (conn->isdgram)
 		conn->peer_addrlen = msg.msg_namelen;
-	if (readlen == 0)
+	/* An empty datagram may still have ancillary data */
+	if (readlen == 0 && !conn->isdgram)
 		return 0;
 
 	/* TODO: add a check on msg.msg_flags for MSG_TRUNC if the buffer
-- 
2.43.0


From b90e629877826ede2acab5e8f971da594fc4b115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:29 +0000
Subject: [PATCH 39/57] fix: encoder: a failed write left a part of the
 argument in the message

---
 src/pomp_encoder.c | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/pomp_encoder.c b/src/pomp_encoder.c
index 326edc6..12315d0 100644
--- a/src/pomp_encoder.c
+++ b/src/pomp_encoder.c
@@ -86,6 +86,24 @@ int pomp_encoder_clear(struct pomp_encoder *enc)
 	return 0;
 }
 
+/**
+ * Complete the write of an argument. In case of error, make sure that no part
+ * of the argument is left in the message.
+ * @param enc : encoder.
+ * @param pos : position of the encoder before the write.
+ * @param res : result of the write.
+ * @return result of the write.
+ */
+static int encoder_write_end(struct pomp_encoder *enc, size_t pos, int res)
+{
+	if (res < 0 && enc->pos > pos) {
+		if (enc->msg->buf->len == enc->pos)
+			enc->msg->buf->len = pos;
+		enc->pos = pos;
+	}
+	return res;
+}
+
 /**
  * Write data in message.
  * @param enc : encoder.
@@ -98,6 +116,7 @@ static int encoder_write_data(struct pomp_encoder *enc, uint8_t type,
 		const void *p, size_t n)
 {
 	int res = 0;
+	size_t pos = enc->pos;
 
 	/* Write type */
 	res = pomp_buffer_writeb(enc->msg->buf, &enc->pos, type);
@@ -106,10 +125,7 @@ static int encoder_write_data(struct pomp_encoder *enc, uint8_t type,
 
 	/* Write data */
 	res = pomp_buffer_write(enc->msg->buf, &enc->pos, p, n);
-	if (res < 0)
-		return res;
-
-	return 0;
+	return encoder_write_end(enc, pos, res);
 }
 
 /**
@@ -633,7 +649,7 @@ int pomp_encoder_write_u64(struct pomp_encoder *enc, uint64_t v)
 int pomp_encoder_write_str(struct pomp_encoder *enc, const char *v)
 {
 	int res = 0;
-	size_t len = 0;
+	size_t len = 0, pos = 0;
 
 	POMP_RETURN_ERR_IF_FAILED(enc != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(enc->msg != NULL, -EINVAL);
@@ -648,6 +664,7 @@ int pomp_encoder_write_str(struct pomp_encoder *enc, const char *v)
 	}
 
 	/* Write type */
+	pos = enc->pos;
 	res = pomp_buffer_writeb(enc->msg->buf, &enc->pos,
 			POMP_PROT_DATA_TYPE_STR);
 	if (res < 0)
@@ -656,10 +673,11 @@ int pomp_encoder_write_str(struct pomp_encoder *enc, const char *v)
 	/* Write string length */
 	res = encoder_write_size_u16(enc, (uint16_t)len);
 	if (res < 0)
-		return res;
+		return encoder_write_end(enc, pos, res);
 
 	/* Write string data */
-	return pomp_buffer_write(enc->msg->buf, &enc->pos, v, len);
+	res = pomp_buffer_write(enc->msg->buf, &enc->pos, v, len);
+	return encoder_write_end(enc, pos, res);
 }
 
 /*
@@ -668,6 +686,7 @@ int pomp_encoder_write_str(struct pomp_encoder *enc, const char *v)
 int pomp_encoder_write_buf(struct pomp_encoder *enc, const void *v, uint32_t n)
 {
 	int res = 0;
+	size_t pos = 0;
 
 	POMP_RETURN_ERR_IF_FAILED(enc != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(enc->msg != NULL, -EINVAL);
@@ -675,6 +694,7 @@ int pomp_encoder_write_buf(struct pomp_encoder *enc, const void *v, uint32_t n)
 	POMP_RETURN_ERR_IF_FAILED(v != NULL, -EINVAL);
 
 	/* Write type */
+	pos = enc->pos;
 	res = pomp_buffer_writeb(enc->msg->buf, &enc->pos,
 			POMP_PROT_DATA_TYPE_BUF);
 	if (res < 0)
@@ -683,10 +703,11 @@ int pomp_encoder_write_buf(struct pomp_encoder *enc, const void *v, uint32_t n)
 	/* Write length */
 	res = encoder_write_size_u32(enc, n);
 	if (res < 0)
-		return res;
+		return encoder_write_end(enc, pos, res);
 
 	/* Write data */
-	return pomp_buffer_write(enc->msg->buf, &enc->pos, v, n);
+	res = pomp_buffer_write(enc->msg->buf, &enc->pos, v, n);
+	return encoder_write_end(enc, pos, res);
 }
 
 /*
@@ -729,16 +750,19 @@ int pomp_encoder_write_f64(struct pomp_encoder *enc, double v)
 int pomp_encoder_write_fd(struct pomp_encoder *enc, int v)
 {
 	int res = 0;
+	size_t pos = 0;
 	POMP_RETURN_ERR_IF_FAILED(enc != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(enc->msg != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(!enc->msg->finished, -EPERM);
 
 	/* Write type */
+	pos = enc->pos;
 	res = pomp_buffer_writeb(enc->msg->buf, &enc->pos,
 			POMP_PROT_DATA_TYPE_FD);
 	if (res < 0)
 		return res;
 
 	/* Write file descriptor */
-	return pomp_buffer_write_fd(enc->msg->buf, &enc->pos, v);
+	res = pomp_buffer_write_fd(enc->msg->buf, &enc->pos, v);
+	return encoder_write_end(enc, pos, res);
 }
-- 
2.43.0


From 9952819a1e911db586bafdf333abad3edce63988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:29 +0000
Subject: [PATCH 40/57] fix: decoder: adump hid failures, read_str/read_buf
 lost their argument on failure

---
 src/pomp_decoder.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index 65b6306..588ad92 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -471,6 +471,7 @@ struct pomp_decoder_dump_ctx {
 	uint32_t	maxdst;	/**< Max length of destination */
 	uint32_t	pos;	/**< Current position in destination */
 	int		grow;	/**< Automatically grow destination */
+	int		res;	/**< Error that stopped the dump */
 };
 
 /**
@@ -635,6 +636,9 @@ static int decoder_dump_cb(struct pomp_decoder *dec, uint8_t type,
 	}
 
 out:
+	/* Remember error for caller, walk does not report it */
+	ctx->res = res;
+
 	/* Continue if no errors and destination not full */
 	return res == 0 && (ctx->pos < ctx->maxdst || ctx->grow);
 }
@@ -657,6 +661,8 @@ static int decoder_dump(struct pomp_decoder *dec,
 
 	/* Arguments */
 	res = pomp_decoder_walk(dec, &decoder_dump_cb, ctx, 1);
+	if (res == 0)
+		res = ctx->res;
 	if (res < 0)
 		goto out;
 
@@ -971,20 +977,25 @@ int pomp_decoder_read_str(struct pomp_decoder *dec, char **v)
 {
 	int res = 0;
 	const char *cstr = NULL;
+	size_t pos = 0;
 
 	POMP_RETURN_ERR_IF_FAILED(dec != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(dec->msg != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(v != NULL, -EINVAL);
 
 	/* Get string without copy */
+	pos = dec->pos;
 	res = pomp_decoder_read_cstr(dec, &cstr);
 	if (res < 0)
 		return res;
 
 	/* Now copy it */
 	*v = strdup(cstr);
-	if (*v == NULL)
+	if (*v == NULL) {
+		/* Rewind so the argument is not lost */
+		dec->pos = pos;
 		return -ENOMEM;
+	}
 
 	/* Success */
 	return 0;
@@ -1051,6 +1062,7 @@ int pomp_decoder_read_buf(struct pomp_decoder *dec, void **v, uint32_t *n)
 {
 	int res = 0;
 	const void *p = NULL;
+	size_t pos = 0;
 
 	POMP_RETURN_ERR_IF_FAILED(dec != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(dec->msg != NULL, -EINVAL);
@@ -1058,14 +1070,18 @@ int pomp_decoder_read_buf(struct pomp_decoder *dec, void **v, uint32_t *n)
 	POMP_RETURN_ERR_IF_FAILED(n != NULL, -EINVAL);
 
 	/* Get data without copy */
+	pos = dec->pos;
 	res = pomp_decoder_read_cbuf(dec, &p, n);
 	if (res < 0)
 		return res;
 
 	/* Now copy it */
 	*v = malloc(*n);
-	if (*v == NULL)
+	if (*v == NULL) {
+		/* Rewind so the argument is not lost */
+		dec->pos = pos;
 		return -ENOMEM;
+	}
 	memcpy(*v, p, *n);
 
 	/* Success */
-- 
2.43.0


From 7c42aa565d4f9f63886fe3093ef03b85bbeb6da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:17 +0000
Subject: [PATCH 41/57] fix: python: empty messages were given a bad size

---
 python/pomp/message.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/python/pomp/message.py b/python/pomp/message.py
index 4bea6ef..c29ddc8 100644
--- a/python/pomp/message.py
+++ b/python/pomp/message.py
@@ -50,15 +50,13 @@ class Message(object):
         self.buf = Buffer()
 
     def finish(self):
-        # Make sure position is at least after header
-        if self.buf.getPos() < protocol.HEADER_SIZE:
-            self.buf.skip(protocol.HEADER_SIZE - self.buf.getPos())
-
-        # Write header
+        # Write header, skipping it does not count in the length of an empty
+        # message
+        size = max(len(self.buf), protocol.HEADER_SIZE)
         self.buf.rewind()
         self.buf.writeInt(protocol.POMP_MAGIC)
         self.buf.writeInt(self.msgid)
-        self.buf.writeInt(len(self.buf))
+        self.buf.writeInt(size)
 
         # Make message read-only
         self.finished = True
-- 
2.43.0


From e90ae459d66174b8fbc7c7667d4ab498160527e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:17 +0000
Subject: [PATCH 42/57] fix: python: strings are utf-8, their length is in
 bytes

---
 python/pomp/decoder.py |  2 +-
 python/pomp/encoder.py | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/pomp/decoder.py b/python/pomp/decoder.py
index 9827977..7409602 100644
--- a/python/pomp/decoder.py
+++ b/python/pomp/decoder.py
@@ -234,7 +234,7 @@ class Decoder(object):
         nullb = self._readByte()
         if nullb != 0:
             raise DecodeException("String not null terminated")
-        return sval.decode("ascii")
+        return sval.decode("utf-8")
 
     def readBuf(self):
         self._readType(protocol.DATA_TYPE_BUF)
diff --git a/python/pomp/encoder.py b/python/pomp/encoder.py
index 3f4a1f1..3eb2fa9 100644
--- a/python/pomp/encoder.py
+++ b/python/pomp/encoder.py
@@ -194,13 +194,14 @@ class Encoder(object):
         self._writeVarint(zval)
 
     def writeStr(self, sval):
-        # Check length
-        if len(sval) + 1 > 0xffff:
-            raise EncodeException("Invalid string length: " + len(sval))
+        # Check length (in bytes)
+        buf = sval.encode("utf-8")
+        if len(buf) + 1 > 0xffff:
+            raise EncodeException("Invalid string length: %d" % len(buf))
         # Write type, size, data and final null
         self._writeType(protocol.DATA_TYPE_STR)
-        self._writeSizeU16(len(sval) + 1)
-        self._write(sval.encode("ascii"))
+        self._writeSizeU16(len(buf) + 1)
+        self._write(buf)
         self._writeByte(0)
 
     def writeBuf(self, buf):
-- 
2.43.0


From 5dd79554482b31e2500d8f0bf210605f1a8aec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:17 +0000
Subject: [PATCH 43/57] fix: python: decoder returned truncated strings and
 buffers

---
 python/pomp/decoder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/pomp/decoder.py b/python/pomp/decoder.py
index 7409602..516f1d7 100644
--- a/python/pomp/decoder.py
+++ b/python/pomp/decoder.py
@@ -250,10 +250,13 @@ class Decoder(object):
         return struct.unpack("<d", self._read(8))[0]
 
     def _read(self, count):
-        return self.msg.buf.read(count)
+        buf = self.msg.buf.read(count)
+        if len(buf) != count:
+            raise DecodeException("No more data: %d(%d)" % (len(buf), count))
+        return buf
 
     def _readByte(self):
-        return self.msg.buf.readByte()
+        return struct.unpack("<B", self._read(1))[0]
 
     def _readType(self, datatype):
         readtype = self._readByte()
-- 
2.43.0


From 213042cdd1c143ca104d742b980e9a889ce43ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:17 +0000
Subject: [PATCH 44/57] fix: python: a message following a partial magic was
 lost

---
 python/pomp/protocol.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/pomp/protocol.py b/python/pomp/protocol.py
index f8ed675..ce53821 100644
--- a/python/pomp/protocol.py
+++ b/python/pomp/protocol.py
@@ -155,7 +155,13 @@ class Protocol(object):
             magic = self.headerBuf.getData()[idx]
         if magic != val:
             _log.warning("Bad header magic %d: 0x%02x(0x%02x)", idx, magic, val)
-            self.state = Protocol._STATE_HEADER_MAGIC_0
+            if magic == POMP_MAGIC_0:
+                # The unexpected byte can be the start of a magic
+                self._reset()
+                self.headerBuf.writeByte(POMP_MAGIC_0)
+                self.state = Protocol._STATE_HEADER_MAGIC_1
+            else:
+                self.state = Protocol._STATE_HEADER_MAGIC_0
         else:
             self.state = state
 
-- 
2.43.0


From a582920ab1043855e252f81c47b0c6b4459e94f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:19 +0000
Subject: [PATCH 45/57] fix: python: varints longer than 64 bits

---
 python/pomp/decoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/pomp/decoder.py b/python/pomp/decoder.py
index 516f1d7..62846bf 100644
--- a/python/pomp/decoder.py
+++ b/python/pomp/decoder.py
@@ -269,10 +269,12 @@ class Decoder(object):
         more = True
         while more:
             bval = self._readByte()
+            if shift >= 64:
+                raise DecodeException("Varint too long")
             val |= ((bval & 0x7f) << shift)
             shift += 7
             more = ((bval & 0x80) != 0)
-        return val
+        return val & 0xffffffffffffffff
 
     def _readSizeU16(self):
         return self._readVarint()
-- 
2.43.0


From e993bc0cff37d36f20930d676a2dd6d32e7303d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 46/57] fix: write empty buffers with the C++ classes

The pointer of an empty vector may be NULL, which the encoder refuses, so that
a message with an empty buffer argument could not be written.
---
 include/libpomp-cxx11.hpp | 3 ++-
 include/libpomp.hpp       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libpomp-cxx11.hpp b/include/libpomp-cxx11.hpp
index 7f9fb31..56d3d57 100644
--- a/include/libpomp-cxx11.hpp
+++ b/include/libpomp-cxx11.hpp
@@ -185,7 +185,8 @@ template<> struct traits<ArgBuf> {
 	enum {valid = true};
 	typedef std::vector<uint8_t> type;
 	inline static int encode(struct pomp_encoder *enc, const type &v) {
-		const uint8_t *p = v.data();
+		/* data() of an empty vector may be NULL */
+		const void *p = v.empty() ? "" : static_cast<const void *>(v.data());
 		uint32_t n = static_cast<uint32_t>(v.size());
 		return pomp_encoder_write_buf(enc, p, n);
 	}
diff --git a/include/libpomp.hpp b/include/libpomp.hpp
index cff77b3..ac71172 100644
--- a/include/libpomp.hpp
+++ b/include/libpomp.hpp
@@ -352,7 +352,8 @@ public:
 	}
 
 	int write(const std::vector<uint8_t> &v) {
-		const uint8_t *p = v.data();
+		/* data() of an empty vector may be NULL */
+		const void *p = v.empty() ? "" : static_cast<const void *>(v.data());
 		uint32_t n = static_cast<uint32_t>(v.size());
 		return pomp_encoder_write_buf(mEnc, p, n);
 	}
-- 
2.43.0


From 4c3132874776b2ffba61d4b21d398fab5d4378a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 47/57] fix: no length for an invalid Address

The length of an Address that could not be parsed was the size of the storage,
so that a context was started on uninitialised memory.
---
 include/libpomp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libpomp.hpp b/include/libpomp.hpp
index ac71172..a8d9dfe 100644
--- a/include/libpomp.hpp
+++ b/include/libpomp.hpp
@@ -730,7 +730,7 @@ public:
 	}
 	bool isValid() const { return mValid; }
 	const sockaddr * addr() const { return &mAddress.sa; }
-	uint32_t len() const { return mAddressLength; }
+	uint32_t len() const { return mValid ? mAddressLength : 0; }
 	inline static int getRealAddr(const char * str, std::string &dst)
 	{
 		char *s = NULL;
-- 
2.43.0


From b4117a516a26fc1d945902e0e1019c78253d0d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 48/57] fix: pomp-cli: send messages without arguments

The number of arguments stayed invalid when none is given, so that the message
was refused and nothing was sent.
---
 tools/pomp_cli.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/pomp_cli.c b/tools/pomp_cli.c
index a2312a9..bb7fe0f 100644
--- a/tools/pomp_cli.c
+++ b/tools/pomp_cli.c
@@ -431,6 +431,9 @@ int main(int argc, char *argv[])
 		s_app.msgargc = argc - argidx;
 		s_app.msgargv = (const char * const *)&argv[argidx];
 		argidx += s_app.msgargc;
+	} else if (s_app.msgfmt == NULL || s_app.msgfmt[0] == '\0') {
+		/* Message without arguments */
+		s_app.msgargc = 0;
 	}
 
 	/* Attach sig handler */
-- 
2.43.0


From ab483a4f95191f763ac74581e0f40133d6624045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 49/57] fix: pomp-cli: exit only once the message is sent

A message that the socket does not take at once was cut when the tool stopped
its context just after queuing it.
---
 tools/pomp_cli.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/tools/pomp_cli.c b/tools/pomp_cli.c
index bb7fe0f..994dcb4 100644
--- a/tools/pomp_cli.c
+++ b/tools/pomp_cli.c
@@ -86,6 +86,7 @@ struct app {
 	int                     msgargc;
 	const char * const      *msgargv;
 	int                     running;
+	int                     sending;
 	struct pomp_loop        *loop;
 	struct pomp_timer       *timer;
 	struct pomp_ctx         *ctx;
@@ -105,6 +106,7 @@ static struct app s_app = {
 		.msgargc = -1,
 		.msgargv = NULL,
 		.running = 0,
+		.sending = 0,
 		.loop = NULL,
 		.timer = NULL,
 		.ctx = NULL,
@@ -208,6 +210,19 @@ error:
 	return res;
 }
 
+/**
+ *
+ */
+static void send_cb(struct pomp_ctx *ctx, struct pomp_conn *conn,
+		struct pomp_buffer *buf, uint32_t status,
+		void *cookie, void *userdata)
+{
+	/* The message has been completely sent (or can not be) */
+	s_app.sending = 0;
+	if (!s_app.dump && !s_app.waitmsg)
+		s_app.running = 0;
+}
+
 /**
  *
  */
@@ -225,12 +240,12 @@ static void event_cb(struct pomp_ctx *ctx, enum pomp_event event,
 	case POMP_EVENT_CONNECTED:
 		/* Send message once connected (ignore errors) */
 		if (s_app.hasmsg) {
-			send_msg();
+			s_app.sending = send_msg() == 0;
 			s_app.hasmsg = 0;
 		}
 
-		/* Exit loop if not dumping message */
-		if (!s_app.dump && !s_app.waitmsg)
+		/* Exit loop if not dumping message (once sent, see send_cb) */
+		if (!s_app.dump && !s_app.waitmsg && !s_app.sending)
 			s_app.running = 0;
 		else if (!s_app.waitmsg)
 			cancel_timeout();
@@ -373,6 +388,7 @@ int main(int argc, char *argv[])
 	s_app.ctx = pomp_ctx_new(&event_cb, NULL);
 	if (s_app.ctx == NULL)
 		goto error;
+	pomp_ctx_set_send_cb(s_app.ctx, &send_cb);
 	s_app.loop = pomp_ctx_get_loop(s_app.ctx);
 
 	/* Get address */
-- 
2.43.0


From ddb8cd2464c63d395bf37cd66d1045bb1ad7f3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:24 +0000
Subject: [PATCH 50/57] fix: python: datagrams were never sent

---
 python/pomp/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/pomp/connection.py b/python/pomp/connection.py
index 986c4f5..d116583 100644
--- a/python/pomp/connection.py
+++ b/python/pomp/connection.py
@@ -195,8 +195,9 @@ class Connection(object):
         looper.runLoop()
 
     def _onWriteRequest(self, req):
-        (what, txMsg) = req
+        what = req[0]
         if what == Connection._WRITE_MSG:
+            (what, txMsg) = req
             try:
                 self.sock.sendall(txMsg.buf.getData())
             except (OSError, IOError) as ex:
-- 
2.43.0


From 5cb7cbeae55fc3f1bc3fac610e13109e9d7cb174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:24 +0000
Subject: [PATCH 51/57] fix: python: the remains of a datagram were mixed with
 the next ones

---
 python/pomp/connection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pomp/connection.py b/python/pomp/connection.py
index d116583..fa2585f 100644
--- a/python/pomp/connection.py
+++ b/python/pomp/connection.py
@@ -164,6 +164,9 @@ class Connection(object):
                     buf = self.sock.recv(self._BUFSIZ)
                 if not buf and not self.isDgram:
                     break
+                if self.isDgram:
+                    # The remains of a datagram are not part of the next one
+                    prot = Protocol()
                 off = 0
                 while off < len(buf):
                     (off, rxMsg) = prot.decode(buf, off)
-- 
2.43.0


From 3400909868498ffbbf5095b244b3a739e42eee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:24 +0000
Subject: [PATCH 52/57] fix: python: messages were notified after
 onDisconnected

---
 python/pomp/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/pomp/context.py b/python/pomp/context.py
index 199d567..44836f0 100644
--- a/python/pomp/context.py
+++ b/python/pomp/context.py
@@ -169,7 +169,9 @@ class Context(object):
         elif what == _CONN_REMOVE:
             self._doConnRemove(conn)
         elif what == _CONN_MSG:
-            self.eventHandler.recvMessage(self, conn, rxMsg)
+            # Could be posted by a connection removed in the meantime
+            if conn in self.connections:
+                self.eventHandler.recvMessage(self, conn, rxMsg)
         else:
             assert False
 
-- 
2.43.0


From 170e04bc6aac0d0e09ed9e233c1c3421684358e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:25 +0000
Subject: [PATCH 53/57] fix: python: stopping the context in onDisconnected
 failed

---
 python/pomp/context.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/pomp/context.py b/python/pomp/context.py
index 44836f0..c8b9efd 100644
--- a/python/pomp/context.py
+++ b/python/pomp/context.py
@@ -107,6 +107,10 @@ class Context(object):
             return None
 
     def stop(self):
+        # Could be called again in a notification made below
+        if not self.running:
+            return
+
         # Make sure nobody will react to out actions
         self.running = False
 
@@ -134,7 +138,6 @@ class Context(object):
         self.sock = None
         self.sockAddr = None
         self.sockThread = None
-        self.mainHandler = None
 
     def sendMsg(self, msg):
         for conn in self.connections:
@@ -189,10 +192,11 @@ class Context(object):
     def _doConnRemove(self, conn):
         # Could be called again during close or disconnection
         if conn in self.connections:
-            self.eventHandler.onDisconnected(self, conn)
+            # Remove it first, the handler may stop the context
             self.connections.remove(conn)
-            conn.close()
             self.semaphore.release()
+            self.eventHandler.onDisconnected(self, conn)
+            conn.close()
 
     def _runServer(self):
         while self.running:
-- 
2.43.0


From fb426f9902eaba94b9abcc18308b8719beee632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:12 +0000
Subject: [PATCH 54/57] fix: python: stopping the context with a connection to
 be added hung or failed

---
 python/pomp/connection.py |  6 +++++
 python/pomp/context.py    | 48 ++++++++++++++++++++++++++++++++-------
 2 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/python/pomp/connection.py b/python/pomp/connection.py
index fa2585f..2d763fa 100644
--- a/python/pomp/connection.py
+++ b/python/pomp/connection.py
@@ -130,6 +130,12 @@ class Connection(object):
             self.cond.release()
 
     def close(self):
+        # Nobody to stop if it was never started
+        if self.readThread is None:
+            self.sock.close()
+            self.sock = None
+            return
+
         # Ask everyone to stop
         try:
             self.cond.acquire()
diff --git a/python/pomp/context.py b/python/pomp/context.py
index c8b9efd..4e26571 100644
--- a/python/pomp/context.py
+++ b/python/pomp/context.py
@@ -66,6 +66,7 @@ class Context(object):
     def __init__(self, eventHandler):
         self.eventHandler = eventHandler
         self.connections = []
+        self.pending = []
         self.semaphore = None
         self.sock = None
         self.sockFamily = None
@@ -127,6 +128,10 @@ class Context(object):
                     self.sock.shutdown(socket.SHUT_RDWR)
                 except (OSError, IOError):
                     pass
+            # Drop connections not added yet
+            while len(self.pending) > 0:
+                self.pending.pop().close()
+                self.semaphore.release()
         finally:
             self.cond.release()
 
@@ -165,8 +170,6 @@ class Context(object):
         (what, conn, rxMsg) = req
         if not self.running:
             _log.warning("Handler request lost")
-            if what == _CONN_ADD:
-                conn.close()
         elif what == _CONN_ADD:
             self._doConnAdd(conn)
         elif what == _CONN_REMOVE:
@@ -184,7 +187,37 @@ class Context(object):
     def notifyMessage(self, conn, msg):
         self.mainHandler.post((_CONN_MSG, conn, msg))
 
+    def _postConnAdd(self, sock, isDgram=False):
+        # Create connection object, give ownership of socket
+        try:
+            conn = Connection(self, sock, isDgram=isDgram)
+        except (OSError, IOError) as ex:
+            # The peer could be already gone
+            _log.warning("connection: err=%d(%s)", ex.errno, ex.strerror)
+            sock.close()
+            self.semaphore.release()
+            return
+
+        try:
+            self.cond.acquire()
+            if self.running:
+                self.pending.append(conn)
+                self.mainHandler.post((_CONN_ADD, conn, None))
+            else:
+                conn.close()
+                self.semaphore.release()
+        finally:
+            self.cond.release()
+
     def _doConnAdd(self, conn):
+        # Could have been dropped by a stop
+        try:
+            self.cond.acquire()
+            if conn not in self.pending:
+                return
+            self.pending.remove(conn)
+        finally:
+            self.cond.release()
         self.connections.append(conn)
         conn.start()
         self.eventHandler.onConnected(self, conn)
@@ -232,8 +265,7 @@ class Context(object):
 
                     # Create connection object
                     if sockPeer is not None:
-                        conn = Connection(self, sockPeer[0])
-                        self.mainHandler.post((_CONN_ADD, conn, None))
+                        self._postConnAdd(sockPeer[0])
                     else:
                         # Release our token
                         self.semaphore.release()
@@ -284,9 +316,9 @@ class Context(object):
             if connected:
                 try:
                     self.cond.acquire()
-                    conn = Connection(self, self.sock)
+                    sock = self.sock
                     self.sock = None
-                    self.mainHandler.post((_CONN_ADD, conn, None))
+                    self._postConnAdd(sock)
                 finally:
                     self.cond.release()
             else:
@@ -326,9 +358,9 @@ class Context(object):
             if bound:
                 try:
                     self.cond.acquire()
-                    conn = Connection(self, self.sock, isDgram=True)
+                    sock = self.sock
                     self.sock = None
-                    self.mainHandler.post((_CONN_ADD, conn, None))
+                    self._postConnAdd(sock, isDgram=True)
                 finally:
                     self.cond.release()
             else:
-- 
2.43.0


From 342cb4e0096a58f6cf2ffc03009f81fd0a7bd4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:12 +0000
Subject: [PATCH 55/57] fix: python: a unix socket path could be used only once

---
 python/pomp/context.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/python/pomp/context.py b/python/pomp/context.py
index 4e26571..d789cad 100644
--- a/python/pomp/context.py
+++ b/python/pomp/context.py
@@ -32,6 +32,7 @@
 #===============================================================================
 
 import logging
+import os
 import threading
 import socket
 import errno
@@ -241,6 +242,7 @@ class Context(object):
             listening = False
             try:
                 self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
+                self._unlinkSock()
                 self.sock.bind(self.sockAddr)
                 self.sock.listen(1)
                 listening = True
@@ -275,6 +277,8 @@ class Context(object):
 
             # Cleanup socket
             self._cleanupSock()
+            if listening:
+                self._unlinkSock()
 
             # Retry again later
             self._waitForRetry(_SERVER_RECONNECT_DELAY)
@@ -392,6 +396,14 @@ class Context(object):
             self.sock = None
             self.cond.release()
 
+    def _unlinkSock(self):
+        # For non abstract unix socket, unlink file also
+        if self.sockFamily == getattr(socket, "AF_UNIX", None) and not self.sockAddr.startswith("\0"):
+            try:
+                os.unlink(self.sockAddr)
+            except (OSError, IOError):
+                pass
+
     def _waitForRetry(self, delay):
         try:
             self.cond.acquire()
-- 
2.43.0


From fe975c2de227ca02e0a1dfea98b66d507d8a04c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:23 +0000
Subject: [PATCH 56/57] fix: python: stepLoop handled one request more than
 asked

---
 python/pomp/looper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pomp/looper.py b/python/pomp/looper.py
index 25a7033..c162d89 100644
--- a/python/pomp/looper.py
+++ b/python/pomp/looper.py
@@ -103,7 +103,7 @@ def runLoop():
 #===============================================================================
 def stepLoop(maxMsg=32, timeout=0):
     count = 0
-    while _tls.loop.step(timeout=timeout) and count < maxMsg:
+    while count < maxMsg and _tls.loop.step(timeout=timeout):
         count += 1
 
 #===============================================================================
-- 
2.43.0


From 35605ff862d4b54e54649a1db7efea60263e6837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:12 +0000
Subject: [PATCH 57/57] fix: conn: leave the loop while suspended with the peer
 gone

The hang up can not be masked, so the loop was woken continuously until the
reading was resumed.
---
 src/pomp_conn.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index 89f920a..2866fa6 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -169,6 +169,9 @@ struct pomp_conn {
 	/** Read suspended flag */
 	int			read_suspended;
 
+	/** Not in the loop: suspended and peer gone (it can't be masked) */
+	int			unwatched;
+
 	/** Pending callback head */
 	struct idle_sendcb_data	*idlecbs_head;
 
@@ -1025,8 +1028,14 @@ static void pomp_conn_cb(int fd, uint32_t revents, void *userdata)
 		pomp_conn_process_read(conn);
 	if (!conn->removeflag && (revents & POMP_FD_EVENT_OUT))
 		pomp_conn_process_write(conn);
-	if (conn->removeflag || (revents & POMP_FD_EVENT_ERR))
+	if (conn->removeflag || (revents & POMP_FD_EVENT_ERR)) {
 		pomp_ctx_remove_conn(conn->ctx, conn);
+	} else if (conn->read_suspended && revents == POMP_FD_EVENT_HUP) {
+		/* The hang up will be notified again and again until the
+		 * connection is read, leave the loop in the meantime */
+		if (pomp_loop_remove(conn->loop, conn->fd) == 0)
+			conn->unwatched = 1;
+	}
 }
 
 /**
@@ -1180,7 +1189,8 @@ int pomp_conn_close(struct pomp_conn *conn)
 		if (errno != ENOTCONN)
 			POMP_LOG_FD_ERRNO("shutdown", conn->fd);
 	}
-	pomp_loop_remove(conn->loop, conn->fd);
+	if (!conn->unwatched)
+		pomp_loop_remove(conn->loop, conn->fd);
 	conn->is_shutdown = 1;
 
 	/* Clear all pending callbacks */
@@ -1306,6 +1316,8 @@ int pomp_conn_suspend_read(struct pomp_conn *conn)
 	int res;
 
 	POMP_RETURN_ERR_IF_FAILED(conn != NULL, -EINVAL);
+	if (conn->unwatched)
+		return 0;
 	res = pomp_loop_update2(conn->loop, conn->fd, 0, POMP_FD_EVENT_IN);
 	if (res == 0)
 		conn->read_suspended = 1;
@@ -1321,9 +1333,16 @@ int pomp_conn_resume_read(struct pomp_conn *conn)
 	int res;
 
 	POMP_RETURN_ERR_IF_FAILED(conn != NULL, -EINVAL);
-	res = pomp_loop_update2(conn->loop, conn->fd, POMP_FD_EVENT_IN, 0);
-	if (res == 0)
+	if (conn->unwatched)
+		res = pomp_loop_add(conn->loop, conn->fd, POMP_FD_EVENT_IN,
+				&pomp_conn_cb, conn);
+	else
+		res = pomp_loop_update2(conn->loop, conn->fd,
+				POMP_FD_EVENT_IN, 0);
+	if (res == 0) {
+		conn->unwatched = 0;
 		conn->read_suspended = 0;
+	}
 
 	return res;
 }
-- 
2.43.0

