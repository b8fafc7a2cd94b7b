// Choice of the implementations of loop, event and timer.
#pragma once
#include "ref.hpp"
#include <time.h>
extern "C" {
struct pomp_evt_ops;
extern const struct pomp_evt_ops pomp_evt_fd_ops __attribute__((weak));
extern const struct pomp_evt_ops pomp_evt_posix_ops __attribute__((weak));
const struct pomp_evt_ops *pomp_evt_set_ops(const struct pomp_evt_ops *ops) __attribute__((weak));
}
// Some of the next reads and writes of the library are interrupted by signals.
static inline void interruptions(pbt::Gen &g)
{
	vf_intr = g.chance(1, 4) ? g.below(256) : 0;
}
static inline bool set_loop_impl(bool poll)
{
	return pomp_internal_set_loop_impl(poll ? POMP_LOOP_IMPL_POLL : POMP_LOOP_IMPL_EPOLL) == 0;
}
static inline bool set_evt_impl(bool posix)
{
	const struct pomp_evt_ops *o = posix ? &pomp_evt_posix_ops : &pomp_evt_fd_ops;
	if (!o || !pomp_evt_set_ops)
		return false;
	pomp_evt_set_ops(o);
	return true;
}
static inline bool set_timer_impl(bool posix)
{
	return pomp_internal_set_timer_impl(posix ? POMP_TIMER_IMPL_POSIX : POMP_TIMER_IMPL_TIMER_FD) == 0;
}
// back to the default ones
struct Impls {
	~Impls()
	{
		set_loop_impl(false);
		set_evt_impl(false);
		set_timer_impl(false);
	}
};
static inline uint64_t mono_ns()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return (uint64_t)ts.tv_sec * 1000000000ull + ts.tv_nsec;
}
