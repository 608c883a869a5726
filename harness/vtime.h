// virtual time: the process' clocks only move when the driver says so. Include in exactly one translation unit.
// Asio falls back to checking its timer queues on every poll() because timerfd_create fails.
#pragma once
#include <time.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <errno.h>
#include <atomic>
static std::atomic<long long> vt_us(1600000000LL * 1000000); // microseconds since the epoch
extern "C" {
int clock_gettime(clockid_t, struct timespec* ts) throw() {long long t = vt_us; ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000; return 0;}
time_t time(time_t* p) throw() {time_t t = (time_t) (vt_us / 1000000); if (p) *p = t; return t;}
int gettimeofday(struct timeval* tv, void*) throw() {long long t = vt_us; tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0;}
int timerfd_create(int, int) throw() {errno = ENOSYS; return -1;}
}
inline long long vt_ms() {return vt_us / 1000;}
