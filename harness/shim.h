/* Interposition layer between the objects of libpomp and libc.
 *
 * The objects compiled from /repo/src have their references to the libc
 * functions listed in syms.txt renamed to vf_<name> (objcopy), so that only the
 * code under test goes through here, never the harness.  By default each call
 * passes straight through; harnesses use the hooks below to count, to restrict
 * (short reads and writes), to fail chosen calls and to virtualise timers.
 */
#ifndef VF_SHIM_H
#define VF_SHIM_H
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif

/* ---- memory ---- */
extern long vf_live;            /* blocks allocated by the library, not freed */
extern long vf_live_bytes;      /* and their sizes */
extern long vf_allocs;          /* allocations requested so far */
extern long vf_alloc_fail_at;   /* fail this allocation (1 = next); 0 = none */
extern int  vf_alloc_fail_all;  /* once reached, keep failing */
extern long vf_alloc_failed;    /* allocations failed on purpose */
extern size_t vf_alloc_cap;     /* larger requests fail (0 = no cap) */
void vf_free(void *p);          /* to free what the library returned */

/* ---- system calls ---- */
enum vf_call {
	VF_SOCKET = 0, VF_BIND, VF_LISTEN, VF_ACCEPT, VF_CONNECT, VF_GETSOCKNAME,
	VF_GETPEERNAME, VF_GETSOCKOPT, VF_SETSOCKOPT, VF_FCNTL, VF_EPOLL_CREATE,
	VF_EPOLL_CTL, VF_EPOLL_WAIT, VF_POLL, VF_EVENTFD, VF_PIPE, VF_TIMERFD_CREATE,
	VF_TIMERFD_SETTIME, VF_TIMER_CREATE, VF_TIMER_SETTIME, VF_READ, VF_WRITE,
	VF_DUP, VF_SHUTDOWN, VF_CHMOD, VF_PTHREAD_CREATE, VF_CLOSE, VF_UNLINK, VF_NCALLS
};
extern long vf_calls;                 /* calls so far in the enabled classes */
extern unsigned long vf_call_mask;    /* classes that count and may fail */
extern long vf_call_fail_at;          /* fail this call (1 = next); 0 = none */
extern int  vf_call_fail_all;
extern int  vf_call_errno;
extern long vf_call_failed;
extern int  vf_epoll_mod_ok;          /* modifications never fail */
extern int  vf_call_last_failed;      /* class of the last one failed */
/* Per class errno chooser, used when vf_call_errno == 0 */
extern int (*vf_errno_for)(int call);

/* I/O policy for stream sockets only: returns the number of bytes that the call
 * may move (1..len), or -errno.  write = 1 for writes.  NULL = no restriction */
extern ssize_t (*vf_io_policy)(int write, int fd, size_t len);
/* Observes what was really moved (after the call), all sockets */
extern void (*vf_io_observe)(int write, int fd, const void *data, size_t len);
/* Told of each failure that is not EAGAIN or EINTR, all sockets */
extern void (*vf_io_error)(int write, int fd, int err);

/* The next reads and writes are interrupted (EINTR) according to these bits,
 * lowest first */
extern uint64_t vf_intr;

/* ---- descriptors ---- */
extern long vf_bad_close;       /* close() of an invalid descriptor */
extern int  vf_bad_close_fd;
extern long vf_prot_close;      /* close() of a descriptor of the harness */
extern unsigned char vf_protected[4096];

/* ---- virtual time (timerfd) ---- */
extern int vf_virtual_time;               /* new timerfds are virtual */
extern uint64_t vf_now_ns;
int vf_timers_pending(void);
/* Next deadline or UINT64_MAX */
uint64_t vf_next_deadline(void);
/* Advance the clock by ns, marking expired virtual timers readable */
void vf_advance(uint64_t ns);
void vf_timers_reset(void);
extern long vf_clock_tick; /* granularity of the monotonic clock, in ns; 0: the real one */
extern long vf_ptimers;   /* posix timers that exist */

/* ---- chmod/unlink observation ---- */
extern long vf_unlinks;

void vf_reset(void);            /* everything back to pass-through */
int vf_count_fds(void);         /* open descriptors of this process */
uint64_t vf_fd_set_hash(void);
#ifdef __cplusplus
}
#endif
#endif
