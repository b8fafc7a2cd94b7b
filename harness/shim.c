#define _GNU_SOURCE
#include "shim.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

long vf_live_bytes;
long vf_live, vf_allocs, vf_alloc_fail_at, vf_alloc_failed;
int vf_alloc_fail_all;
size_t vf_alloc_cap = 256u << 20;
long vf_calls, vf_call_fail_at, vf_call_failed;
unsigned long vf_call_mask;
int vf_call_fail_all, vf_call_errno, vf_call_last_failed = -1;
int (*vf_errno_for)(int call);
ssize_t (*vf_io_policy)(int write, int fd, size_t len);
void (*vf_io_observe)(int write, int fd, const void *data, size_t len);
void (*vf_io_error)(int write, int fd, int err);
long vf_bad_close, vf_prot_close, vf_unlinks;
int vf_bad_close_fd = -1;
unsigned char vf_protected[4096];
int vf_virtual_time;
int vf_epoll_mod_ok;
uint64_t vf_now_ns;

/* ------------------------------------------------------------ memory */
static int alloc_refused(size_t size)
{
	long n = __atomic_add_fetch(&vf_allocs, 1, __ATOMIC_RELAXED);
	if (vf_alloc_fail_at > 0 && (n == vf_alloc_fail_at ||
			(vf_alloc_fail_all && n > vf_alloc_fail_at))) {
		__atomic_add_fetch(&vf_alloc_failed, 1, __ATOMIC_RELAXED);
		errno = ENOMEM;
		return 1;
	}
	if (vf_alloc_cap && size > vf_alloc_cap) {
		errno = ENOMEM;
		return 1;
	}
	return 0;
}
static void *counted(void *p)
{
	if (p) {
		__atomic_add_fetch(&vf_live, 1, __ATOMIC_RELAXED);
		__atomic_add_fetch(&vf_live_bytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED);
	}
	return p;
}
void *vf_malloc(size_t n) { return alloc_refused(n) ? NULL : counted(malloc(n)); }
void *vf_calloc(size_t n, size_t m)
{
	size_t t;
	if (__builtin_mul_overflow(n, m, &t))
		t = SIZE_MAX;
	return alloc_refused(t) ? NULL : counted(calloc(n, m));
}
void *vf_realloc(void *p, size_t n)
{
	void *q;
	long old;
	if (alloc_refused(n))
		return NULL;
	if (p == NULL)
		return counted(realloc(p, n));
	old = (long)malloc_usable_size(p);
	q = realloc(p, n);
	if (q == NULL && n == 0)
		__atomic_sub_fetch(&vf_live, 1, __ATOMIC_RELAXED);
	if (q != NULL || n == 0)
		__atomic_add_fetch(&vf_live_bytes, (q ? (long)malloc_usable_size(q) : 0) - old, __ATOMIC_RELAXED);
	return q;
}
void *vf_reallocarray(void *p, size_t n, size_t m)
{
	size_t t;
	if (__builtin_mul_overflow(n, m, &t)) { errno = ENOMEM; return NULL; }
	return vf_realloc(p, t);
}
void vf_free(void *p)
{
	if (p) {
		__atomic_sub_fetch(&vf_live, 1, __ATOMIC_RELAXED);
		__atomic_sub_fetch(&vf_live_bytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED);
	}
	free(p);
}
char *vf_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = vf_malloc(n);
	return p ? memcpy(p, s, n) : NULL;
}
char *vf___strdup(const char *s) { return vf_strdup(s); }
char *vf_strndup(const char *s, size_t m)
{
	size_t n = strnlen(s, m);
	char *p = vf_malloc(n + 1);
	if (p) { memcpy(p, s, n); p[n] = 0; }
	return p;
}
int vf_vasprintf(char **dst, const char *fmt, va_list ap)
{
	int r;
	if (alloc_refused(1)) { *dst = NULL; return -1; }
	r = vasprintf(dst, fmt, ap);
	if (r >= 0)
		counted(*dst);
	return r;
}
int vf_asprintf(char **dst, const char *fmt, ...)
{
	va_list ap;
	int r;
	va_start(ap, fmt);
	r = vf_vasprintf(dst, fmt, ap);
	va_end(ap);
	return r;
}

/* ------------------------------------------------------------ system calls */
static int default_errno(int call)
{
	switch (call) {
	case VF_SOCKET: case VF_ACCEPT: case VF_EPOLL_CREATE: case VF_EVENTFD:
	case VF_PIPE: case VF_TIMERFD_CREATE: case VF_DUP:
		return EMFILE;
	case VF_EPOLL_CTL: case VF_SETSOCKOPT: return ENOMEM;
	case VF_BIND: case VF_LISTEN: return EADDRINUSE;
	case VF_CONNECT: return ECONNREFUSED;
	case VF_TIMER_CREATE: case VF_PTHREAD_CREATE: return EAGAIN;
	case VF_EPOLL_WAIT: case VF_POLL: return EINTR;
	case VF_READ: return ECONNRESET;
	case VF_WRITE: return EPIPE;
	case VF_SHUTDOWN: return ENOTCONN;
	case VF_CHMOD: case VF_UNLINK: return EPERM;
	default: return EINVAL;
	}
}
static int refused(int call)
{
	long n;
	if (!(vf_call_mask & (1ul << call)))
		return 0;
	n = __atomic_add_fetch(&vf_calls, 1, __ATOMIC_RELAXED);
	if (vf_call_fail_at > 0 && (n == vf_call_fail_at ||
			(vf_call_fail_all && n > vf_call_fail_at))) {
		int e = vf_call_errno;
		if (e == 0 && vf_errno_for)
			e = vf_errno_for(call);
		if (e == 0)
			e = default_errno(call);
		vf_call_failed++;
		vf_call_last_failed = call;
		errno = e;
		return 1;
	}
	return 0;
}

/* virtual timers: a timerfd is an eventfd whose counter we feed */
#define MAXVT 64
static struct vt { int fd; uint64_t next, interval; } vts[MAXVT];
static struct pt { int used, signo; union sigval value; uint64_t next, interval; } pts[MAXVT];
long vf_ptimers;
static int bad_its(const struct itimerspec *nv)
{
	return nv->it_value.tv_nsec < 0 || nv->it_value.tv_nsec > 999999999 || nv->it_interval.tv_nsec < 0 ||
		nv->it_interval.tv_nsec > 999999999 || nv->it_value.tv_sec < 0 || nv->it_interval.tv_sec < 0;
}
static struct vt *vt_find(int fd)
{
	for (int i = 0; i < MAXVT; i++)
		if (vts[i].fd == fd && fd > 0)
			return &vts[i];
	return NULL;
}
int vf_timers_pending(void)
{
	int n = 0;
	for (int i = 0; i < MAXVT; i++)
		if (vts[i].fd > 0 && vts[i].next)
			n++;
	return n;
}
uint64_t vf_next_deadline(void)
{
	uint64_t best = UINT64_MAX;
	for (int i = 0; i < MAXVT; i++)
		if (vts[i].fd > 0 && vts[i].next && vts[i].next < best)
			best = vts[i].next;
	return best;
}
void vf_advance(uint64_t ns)
{
	vf_now_ns += ns;
	for (int i = 0; i < MAXVT; i++) {
		uint64_t n = 0;
		struct vt *t = &vts[i];
		if (t->fd <= 0 || !t->next || t->next > vf_now_ns)
			continue;
		if (t->interval) {
			n = 1 + (vf_now_ns - t->next) / t->interval;
			t->next += n * t->interval;
		} else {
			n = 1;
			t->next = 0;
		}
		if (write(t->fd, &n, sizeof(n)) < 0) {}
	}
	for (int i = 0; i < MAXVT; i++) {
		siginfo_t si;
		struct pt *t = &pts[i];
		if (!t->used || !t->next || t->next > vf_now_ns)
			continue;
		if (t->interval)
			t->next += (1 + (vf_now_ns - t->next) / t->interval) * t->interval;
		else
			t->next = 0;
		memset(&si, 0, sizeof(si));
		si.si_signo = t->signo;
		si.si_code = SI_TIMER;
		si.si_value = t->value;
		/* delivered before it returns */
		if (syscall(SYS_rt_tgsigqueueinfo, getpid(), gettid(), t->signo, &si) < 0)
			abort();
	}
}
void vf_timers_reset(void)
{
	memset(pts, 0, sizeof(pts));
	vf_ptimers = 0;
	memset(vts, 0, sizeof(vts));
	vf_now_ns = 1000000000ull;
}
int vf_timerfd_create(int clk, int flags)
{
	int fd;
	if (refused(VF_TIMERFD_CREATE))
		return -1;
	if (!vf_virtual_time)
		return timerfd_create(clk, flags);
	fd = eventfd(0, ((flags & TFD_NONBLOCK) ? EFD_NONBLOCK : 0) |
			((flags & TFD_CLOEXEC) ? EFD_CLOEXEC : 0));
	if (fd < 0)
		return fd;
	for (int i = 0; i < MAXVT; i++) {
		if (vts[i].fd <= 0) {
			vts[i].fd = fd;
			vts[i].next = vts[i].interval = 0;
			return fd;
		}
	}
	abort();
}
int vf_timerfd_settime(int fd, int flags, const struct itimerspec *nv,
		struct itimerspec *ov)
{
	struct vt *t;
	uint64_t v, iv, dummy;
	if (refused(VF_TIMERFD_SETTIME))
		return -1;
	t = vt_find(fd);
	if (!t)
		return timerfd_settime(fd, flags, nv, ov);
	if (bad_its(nv)) {
		errno = EINVAL;
		return -1;
	}
	if (ov)
		memset(ov, 0, sizeof(*ov));
	v = (uint64_t)nv->it_value.tv_sec * 1000000000ull + nv->it_value.tv_nsec;
	iv = (uint64_t)nv->it_interval.tv_sec * 1000000000ull + nv->it_interval.tv_nsec;
	/* as the real one: setting discards expirations not yet read */
	if (read(fd, &dummy, sizeof(dummy)) < 0) {}
	t->interval = iv;
	if (v == 0) {
		t->next = 0;
	} else if (flags & TFD_TIMER_ABSTIME) {
		t->next = v;
	} else {
		t->next = vf_now_ns + v;
	}
	if (t->next && t->next <= vf_now_ns)
		vf_advance(0);
	return 0;
}

long vf_clock_tick;
int vf_clock_gettime(clockid_t clk, struct timespec *ts)
{
	if (vf_clock_tick && clk == CLOCK_MONOTONIC) {
		int r = clock_gettime(clk, ts);
		ts->tv_nsec -= ts->tv_nsec % vf_clock_tick;
		return r;
	}
	if (vf_virtual_time && (clk == CLOCK_MONOTONIC || clk == CLOCK_BOOTTIME || clk == CLOCK_MONOTONIC_COARSE ||
			clk == CLOCK_MONOTONIC_RAW)) {
		ts->tv_sec = vf_now_ns / 1000000000ull;
		ts->tv_nsec = vf_now_ns % 1000000000ull;
		return 0;
	}
	return clock_gettime(clk, ts);
}

/* posix timers are counted, and virtual ones send their signal when the clock is
 * advanced; identifiers start from 0, as those of the system */
int vf_timer_create(clockid_t a, struct sigevent *b, timer_t *c)
{
	int r;
	if (refused(VF_TIMER_CREATE))
		return -1;
	if (vf_virtual_time) {
		for (int i = 0; i < MAXVT; i++) {
			if (pts[i].used)
				continue;
			memset(&pts[i], 0, sizeof(pts[i]));
			pts[i].used = 1;
			pts[i].signo = b->sigev_signo;
			pts[i].value = b->sigev_value;
			*c = (timer_t)(intptr_t)i;
			__atomic_add_fetch(&vf_ptimers, 1, __ATOMIC_RELAXED);
			return 0;
		}
		abort();
	}
	r = timer_create(a, b, c);
	if (r == 0)
		__atomic_add_fetch(&vf_ptimers, 1, __ATOMIC_RELAXED);
	return r;
}
int vf_timer_delete(timer_t t)
{
	int r;
	if (vf_virtual_time) {
		intptr_t i = (intptr_t)t;
		if (i < 0 || i >= MAXVT || !pts[i].used) {
			vf_bad_close++;
			errno = EINVAL;
			return -1;
		}
		pts[i].used = 0;
		__atomic_sub_fetch(&vf_ptimers, 1, __ATOMIC_RELAXED);
		return 0;
	}
	r = timer_delete(t);
	if (r == 0)
		__atomic_sub_fetch(&vf_ptimers, 1, __ATOMIC_RELAXED);
	else
		vf_bad_close++;
	return r;
}
int vf_timer_settime(timer_t t, int flags, const struct itimerspec *nv, struct itimerspec *ov)
{
	intptr_t i = (intptr_t)t;
	uint64_t v;
	if (refused(VF_TIMER_SETTIME))
		return -1;
	if (!vf_virtual_time)
		return timer_settime(t, flags, nv, ov);
	if (i < 0 || i >= MAXVT || !pts[i].used || bad_its(nv)) {
		errno = EINVAL;
		return -1;
	}
	if (ov)
		memset(ov, 0, sizeof(*ov));
	v = (uint64_t)nv->it_value.tv_sec * 1000000000ull + nv->it_value.tv_nsec;
	pts[i].interval = (uint64_t)nv->it_interval.tv_sec * 1000000000ull + nv->it_interval.tv_nsec;
	pts[i].next = v == 0 ? 0 : (flags & TIMER_ABSTIME) ? v : vf_now_ns + v;
	return 0;
}

int vf_close(int fd)
{
	int r;
	struct vt *t;
	if (fd >= 0 && fd < (int)sizeof(vf_protected) && vf_protected[fd]) {
		vf_prot_close++;
		vf_bad_close_fd = fd;
		return 0;
	}
	t = vt_find(fd);
	if (t)
		memset(t, 0, sizeof(*t));
	r = close(fd);
	if (r < 0 && errno == EBADF) {
		vf_bad_close++;
		vf_bad_close_fd = fd;
	}
	return r;
}

static int is_stream(int fd)
{
	int type = 0;
	socklen_t l = sizeof(type);
	if (getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &l) < 0)
		return 0;
	return type == SOCK_STREAM || type == SOCK_SEQPACKET;
}
static int is_sock(int fd)
{
	int type = 0;
	socklen_t l = sizeof(type);
	return getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &l) == 0;
}
static void failed(int wr, int fd)
{
	int e = errno;
	if (vf_io_error && e != EAGAIN && e != EINTR)
		vf_io_error(wr, fd, e);
	errno = e;
}
/* returns allowed length, or -1 with errno set */
uint64_t vf_intr;
static ssize_t allow(int wr, int fd, size_t len)
{
	ssize_t r;
	if (vf_intr) {
		r = (ssize_t)(vf_intr & 1);
		vf_intr >>= 1;
		if (r) {
			errno = EINTR;
			return -1;
		}
	}
	if (is_sock(fd) && refused(wr ? VF_WRITE : VF_READ)) {
		failed(wr, fd);
		return -1;
	}
	if (!vf_io_policy || !is_stream(fd))
		return len;
	r = vf_io_policy(wr, fd, len);
	if (r < 0) {
		errno = (int)-r;
		failed(wr, fd);
		return -1;
	}
	return (size_t)r > len ? (ssize_t)len : r;
}
static void seen(int wr, int fd, const void *p, ssize_t n)
{
	if (n < 0 && vf_io_error) {
		int e = errno, s = is_sock(fd);
		errno = e;
		if (s)
			failed(wr, fd);
	}
	if (n > 0 && vf_io_observe && is_sock(fd)) {
		int e = errno;
		vf_io_observe(wr, fd, p, n);
		errno = e;
	}
}
ssize_t vf_read(int fd, void *p, size_t len)
{
	ssize_t a = len;
	if (len > 0 && (a = allow(0, fd, len)) < 0)
		return -1;
	a = read(fd, p, a);
	seen(0, fd, p, a);
	return a;
}
ssize_t vf_write(int fd, const void *p, size_t len)
{
	ssize_t a = len;
	if (len > 0 && (a = allow(1, fd, len)) < 0)
		return -1;
	a = write(fd, p, a);
	seen(1, fd, p, a);
	return a;
}
ssize_t vf_recv(int fd, void *p, size_t len, int fl)
{
	ssize_t a = len;
	if (len > 0 && (a = allow(0, fd, len)) < 0)
		return -1;
	a = recv(fd, p, a, fl);
	seen(0, fd, p, a);
	return a;
}
ssize_t vf_send(int fd, const void *p, size_t len, int fl)
{
	ssize_t a = len;
	if (len > 0 && (a = allow(1, fd, len)) < 0)
		return -1;
	a = send(fd, p, a, fl);
	seen(1, fd, p, a);
	return a;
}
ssize_t vf_recvfrom(int fd, void *p, size_t len, int fl, struct sockaddr *sa,
		socklen_t *sl)
{
	ssize_t a = len;
	if (len > 0 && (a = allow(0, fd, len)) < 0)
		return -1;
	a = recvfrom(fd, p, a, fl, sa, sl);
	seen(0, fd, p, a);
	return a;
}
ssize_t vf_sendto(int fd, const void *p, size_t len, int fl,
		const struct sockaddr *sa, socklen_t sl)
{
	ssize_t a = len;
	if (len > 0 && (a = allow(1, fd, len)) < 0)
		return -1;
	a = sendto(fd, p, a, fl, sa, sl);
	seen(1, fd, p, a);
	return a;
}
static size_t iovtotal(const struct iovec *v, size_t n)
{
	size_t t = 0;
	for (size_t i = 0; i < n; i++)
		t += v[i].iov_len;
	return t;
}
/* copy of msghdr with iov cut to a bytes */
static void cut(struct msghdr *m, struct iovec *v, size_t max, size_t a)
{
	size_t n = 0;
	for (size_t i = 0; i < m->msg_iovlen && n < max; i++) {
		v[n] = m->msg_iov[i];
		if (v[n].iov_len > a)
			v[n].iov_len = a;
		a -= v[n].iov_len;
		n++;
	}
	m->msg_iov = v;
	m->msg_iovlen = n;
}
ssize_t vf_sendmsg(int fd, const struct msghdr *msg, int fl)
{
	struct msghdr m = *msg;
	struct iovec v[16];
	size_t len = iovtotal(msg->msg_iov, msg->msg_iovlen);
	ssize_t a = len;
	if (len > 0 && (a = allow(1, fd, len)) < 0)
		return -1;
	if ((size_t)a < len)
		cut(&m, v, 16, a);
	a = sendmsg(fd, &m, fl);
	if (msg->msg_iovlen >= 1 || a < 0)
		seen(1, fd, a < 0 ? NULL : msg->msg_iov[0].iov_base, a);
	return a;
}
ssize_t vf_recvmsg(int fd, struct msghdr *msg, int fl)
{
	struct msghdr m = *msg;
	struct iovec v[16];
	size_t len = iovtotal(msg->msg_iov, msg->msg_iovlen);
	ssize_t a = len;
	if (len > 0 && (a = allow(0, fd, len)) < 0)
		return -1;
	if ((size_t)a < len)
		cut(&m, v, 16, a);
	a = recvmsg(fd, &m, fl);
	if (a >= 0) {
		msg->msg_namelen = m.msg_namelen;
		msg->msg_controllen = m.msg_controllen;
		msg->msg_flags = m.msg_flags;
		if (msg->msg_iovlen >= 1)
			seen(0, fd, msg->msg_iov[0].iov_base, a);
	} else {
		seen(0, fd, NULL, a);
	}
	return a;
}
ssize_t vf_writev(int fd, const struct iovec *v, int n)
{
	struct msghdr m;
	if (!is_sock(fd))
		return writev(fd, v, n);
	memset(&m, 0, sizeof(m));
	m.msg_iov = (struct iovec *)v;
	m.msg_iovlen = n;
	return vf_sendmsg(fd, &m, 0);
}
ssize_t vf_readv(int fd, const struct iovec *v, int n)
{
	struct msghdr m;
	if (!is_sock(fd))
		return readv(fd, v, n);
	memset(&m, 0, sizeof(m));
	m.msg_iov = (struct iovec *)v;
	m.msg_iovlen = n;
	return vf_recvmsg(fd, &m, 0);
}

#define FWD(ret, cls, name, params, args) \
	ret vf_##name params { return refused(cls) ? (ret)-1 : name args; }
FWD(int, VF_SOCKET, socket, (int a, int b, int c), (a, b, c))
FWD(int, VF_SOCKET, socketpair, (int a, int b, int c, int *d), (a, b, c, d))
FWD(int, VF_BIND, bind, (int a, const struct sockaddr *b, socklen_t c), (a, b, c))
FWD(int, VF_LISTEN, listen, (int a, int b), (a, b))
FWD(int, VF_ACCEPT, accept, (int a, struct sockaddr *b, socklen_t *c), (a, b, c))
FWD(int, VF_ACCEPT, accept4, (int a, struct sockaddr *b, socklen_t *c, int d), (a, b, c, d))
FWD(int, VF_CONNECT, connect, (int a, const struct sockaddr *b, socklen_t c), (a, b, c))
FWD(int, VF_GETSOCKNAME, getsockname, (int a, struct sockaddr *b, socklen_t *c), (a, b, c))
FWD(int, VF_GETPEERNAME, getpeername, (int a, struct sockaddr *b, socklen_t *c), (a, b, c))
FWD(int, VF_GETSOCKOPT, getsockopt, (int a, int b, int c, void *d, socklen_t *e), (a, b, c, d, e))
FWD(int, VF_SETSOCKOPT, setsockopt, (int a, int b, int c, const void *d, socklen_t e), (a, b, c, d, e))
FWD(int, VF_SHUTDOWN, shutdown, (int a, int b), (a, b))
FWD(int, VF_EPOLL_CREATE, epoll_create, (int a), (a))
FWD(int, VF_EPOLL_CREATE, epoll_create1, (int a), (a))
/* a removal does not fail on a descriptor that is monitored */
int vf_epoll_ctl(int a, int b, int c, struct epoll_event *d)
{
	if ((b == EPOLL_CTL_ADD || (b == EPOLL_CTL_MOD && !vf_epoll_mod_ok)) && refused(VF_EPOLL_CTL))
		return -1;
	return epoll_ctl(a, b, c, d);
}
FWD(int, VF_EPOLL_WAIT, epoll_wait, (int a, struct epoll_event *b, int c, int d), (a, b, c, d))
FWD(int, VF_EPOLL_WAIT, epoll_pwait, (int a, struct epoll_event *b, int c, int d, const sigset_t *e), (a, b, c, d, e))
FWD(int, VF_POLL, poll, (struct pollfd *a, nfds_t b, int c), (a, b, c))
FWD(int, VF_POLL, ppoll, (struct pollfd *a, nfds_t b, const struct timespec *c, const sigset_t *d), (a, b, c, d))
FWD(int, VF_EVENTFD, eventfd, (unsigned a, int b), (a, b))
FWD(int, VF_PIPE, pipe, (int *a), (a))
FWD(int, VF_PIPE, pipe2, (int *a, int b), (a, b))
FWD(int, VF_CHMOD, chmod, (const char *a, mode_t b), (a, b))
FWD(int, VF_CHMOD, fchmod, (int a, mode_t b), (a, b))
FWD(int, VF_DUP, dup, (int a), (a))
FWD(int, VF_DUP, dup2, (int a, int b), (a, b))
FWD(int, VF_DUP, dup3, (int a, int b, int c), (a, b, c))
int vf_unlink(const char *p)
{
	vf_unlinks++;
	return refused(VF_UNLINK) ? -1 : unlink(p);
}
int vf_fcntl(int fd, int cmd, long arg)
{
	if (refused(cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC ? VF_DUP : VF_FCNTL))
		return -1;
	return fcntl(fd, cmd, arg);
}
int vf_fcntl64(int fd, int cmd, long arg) { return vf_fcntl(fd, cmd, arg); }
int vf_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p)
{
	if (refused(VF_PTHREAD_CREATE))
		return errno;
	return pthread_create(t, a, f, p);
}

/* ------------------------------------------------------------ misc */
void vf_reset(void)
{
	vf_alloc_fail_at = 0;
	vf_alloc_fail_all = 0;
	vf_alloc_failed = 0;
	vf_alloc_cap = 256u << 20;
	vf_allocs = 0;
	vf_intr = 0;
	vf_calls = 0;
	vf_call_mask = 0;
	vf_call_fail_at = 0;
	vf_call_fail_all = 0;
	vf_call_errno = 0;
	vf_call_failed = 0;
	vf_call_last_failed = -1;
	vf_errno_for = NULL;
	vf_epoll_mod_ok = 0;
	vf_io_policy = NULL;
	vf_io_observe = NULL;
	vf_io_error = NULL;
	vf_bad_close = vf_prot_close = 0;
	vf_unlinks = 0;
	vf_bad_close_fd = -1;
	memset(vf_protected, 0, sizeof(vf_protected));
	vf_virtual_time = 0;
	vf_clock_tick = 0;
	vf_timers_reset();
}
#define FD_SCAN 1100
int vf_count_fds(void)
{
	struct pollfd p[FD_SCAN];
	int n = 0;
	for (int i = 0; i < FD_SCAN; i++) {
		p[i].fd = i;
		p[i].events = 0;
		p[i].revents = 0;
	}
	/* one system call: invalid descriptors report POLLNVAL */
	poll(p, FD_SCAN, 0);
	for (int i = 0; i < FD_SCAN; i++)
		if (!(p[i].revents & POLLNVAL))
			n++;
	return n;
}
uint64_t vf_fd_set_hash(void)
{
	struct pollfd p[FD_SCAN];
	uint64_t h = 1469598103934665603ull;
	for (int i = 0; i < FD_SCAN; i++) {
		p[i].fd = i;
		p[i].events = 0;
		p[i].revents = 0;
	}
	poll(p, FD_SCAN, 0);
	for (int i = 0; i < FD_SCAN; i++)
		if (!(p[i].revents & POLLNVAL))
			h = (h ^ (uint64_t)i) * 1099511628211ull;
	return h;
}
