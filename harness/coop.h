// runs real threads one at a time under a seeded scheduler: mutexes, condition variables and sleeps of these threads are emulated, a thread can be
// preempted at each of them, and time (vtime.h) only moves when the scheduler says so. When nothing can run any more, the remaining threads hang.
#pragma once
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>
struct coop {
	struct task {
		sem_t go; std::string name; bool done = false, waiting = false, signaled = false, last = false; void* mtx = nullptr; void* cond = nullptr;
		long long dl = -1; long seen = -1; bool idle = false, essential = false; std::thread th;
	};
	static task*& me() {static thread_local task* p = nullptr; return p;}
	static coop*& cur() {static coop* p = nullptr; return p;}
	std::vector<std::unique_ptr<task> > all; std::map<void*, std::pair<task*, int> > owner; unsigned long long x; unsigned odds; long progress = 0, points = 0; sem_t back; bool hang = false; long quanta = 0; long long maxjump;
	coop(unsigned seed) : x(seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull) {sem_init(&back, 0, 0); for (int i = 0; i < 8; ++i) rnd(2); odds = 1u << rnd(6); maxjump = 0; cur() = this;}
	~coop() {for (auto& t : all) if (t->done) t->th.join(); else t->th.detach(); cur() = nullptr;}
	unsigned rnd(unsigned n) {x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (unsigned) ((x >> 20) % n);}
	task* add(const std::string& n, std::function<void()> f, bool essential = false) {
		all.emplace_back(new task); task* t = all.back().get(); t->name = n; t->essential = essential; sem_init(&t->go, 0, 0);
		t->th = std::thread([this, t, f] {sem_down(&t->go); me() = t; f(); me() = nullptr; t->done = true; ++progress; switch_from(nullptr);});
		return t;
	}
	static void sem_down(sem_t* s) {while (sem_wait(s) != 0) ;}
	// true: every essential thread has ended
	bool run() {switch_from(nullptr, true); return !hang;}
	bool can(task* t) {
		if (t->done) return false;
		if (t->cond) return t->signaled || (t->dl >= 0 && vt_us >= t->dl);
		if (t->mtx) return !owner[t->mtx].first;
		if (t->waiting) return t->dl >= 0 && vt_us >= t->dl;
		if (t->idle) return t->seen != progress;
		return true;
	}
	task* pick() {
		for (;;) {
			std::vector<task*> c; task* low = nullptr; bool left = false;
			for (auto& t : all) {if (t->essential && !t->done) left = true; if (can(t.get())) {if (t->last) low = t.get(); else c.push_back(t.get());}}
			if (!left) return nullptr;
			if (!c.empty()) return c[rnd((unsigned) c.size())];
			if (low) return low;
			long long n = vt_us + 50000; bool timed = false;
			for (auto& t : all) if (!t->done && t->dl >= 0) {timed = true; if (t->dl < n) n = t->dl;}
			if (!timed && ++quanta > 200) {hang = true; return nullptr;}
			if (timed) quanta = 0;
			vt_us = n > vt_us ? n : vt_us + 1; ++progress;
		}
	}
	void switch_from(task* from, bool main = false) {
		task* n = pick();
		if (n == from && from) return;
		sem_post(n ? &n->go : &back);
		if (from) sem_down(&from->go); else if (main) sem_down(&back);
	}
	void point(bool force = false) {task* t = me(); ++points; if (force || rnd(odds) == 0) switch_from(t);}
	void did() {++progress; quanta = 0;}
	void rest() {task* t = me(); t->idle = true; t->seen = progress; switch_from(t); t->idle = false;} // until something happens elsewhere
	void settle() {task* t = me(); t->last = true; switch_from(t); t->last = false;} // until nobody else can do anything (at this time)
	void sleep(long long us) {task* t = me(); t->waiting = true; t->dl = vt_us + us; switch_from(t); t->waiting = false; t->dl = -1; ++progress;}
	bool blocked(task* t) {return !t->done && t->cond && !t->signaled;}

	void lock(void* m) {task* t = me(); point(); auto& o = owner[m]; if (o.first == t) {++o.second; return;} while (owner[m].first) {t->mtx = m; switch_from(t); t->mtx = nullptr;} owner[m] = std::make_pair(t, 1);}
	bool try_lock(void* m) {task* t = me(); point(); auto& o = owner[m]; if (o.first && o.first != t) return false; if (o.first == t) ++o.second; else o = std::make_pair(t, 1); return true;}
	void unlock(void* m) {auto& o = owner[m]; if (--o.second <= 0) {owner.erase(m); point();}}
	bool wait(void* c, void* m, long long dl) {
		task* t = me(); owner.erase(m); t->cond = c; t->signaled = false; t->dl = dl; switch_from(t);
		bool ok = t->signaled; t->cond = nullptr; t->dl = -1; t->signaled = false;
		while (owner[m].first) {t->mtx = m; switch_from(t); t->mtx = nullptr;}
		owner[m] = std::make_pair(t, 1); return ok;
	}
	void signal(void* c, bool every) {
		std::vector<task*> w; for (auto& t : all) if (t->cond == c && !t->signaled && !t->done) w.push_back(t.get());
		if (w.empty()) return;
		if (every) for (auto t : w) t->signaled = true; else w[rnd((unsigned) w.size())]->signaled = true;
		++progress; point();
	}
};
static inline coop* coop_on() {return coop::me() ? coop::cur() : nullptr;}
#define COOP_REAL(R, NAME, VER, ...) static R (*real)(__VA_ARGS__) = nullptr; if (!real) {real = (R (*)(__VA_ARGS__)) (VER ? dlvsym(RTLD_NEXT, NAME, VER) : dlsym(RTLD_NEXT, NAME)); if (!real) real = (R (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, NAME);}
static inline long long coop_us(const struct timespec* a) {return a->tv_sec * 1000000LL + (a->tv_nsec + 999) / 1000;}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) throw() {if (coop* c = coop_on()) {c->lock(m); return 0;} COOP_REAL(int, "pthread_mutex_lock", (const char*) nullptr, pthread_mutex_t*) return real(m);}
int pthread_mutex_trylock(pthread_mutex_t* m) throw() {if (coop* c = coop_on()) return c->try_lock(m) ? 0 : EBUSY; COOP_REAL(int, "pthread_mutex_trylock", (const char*) nullptr, pthread_mutex_t*) return real(m);}
int pthread_mutex_unlock(pthread_mutex_t* m) throw() {if (coop* c = coop_on()) {c->unlock(m); return 0;} COOP_REAL(int, "pthread_mutex_unlock", (const char*) nullptr, pthread_mutex_t*) return real(m);}
int pthread_cond_wait(pthread_cond_t* k, pthread_mutex_t* m) {if (coop* c = coop_on()) {c->wait(k, m, -1); return 0;} COOP_REAL(int, "pthread_cond_wait", "GLIBC_2.3.2", pthread_cond_t*, pthread_mutex_t*) return real(k, m);}
int pthread_cond_timedwait(pthread_cond_t* k, pthread_mutex_t* m, const struct timespec* a) {if (coop* c = coop_on()) return c->wait(k, m, coop_us(a)) ? 0 : ETIMEDOUT; COOP_REAL(int, "pthread_cond_timedwait", "GLIBC_2.3.2", pthread_cond_t*, pthread_mutex_t*, const struct timespec*) return real(k, m, a);}
int pthread_cond_clockwait(pthread_cond_t* k, pthread_mutex_t* m, clockid_t i, const struct timespec* a) {if (coop* c = coop_on()) return c->wait(k, m, coop_us(a)) ? 0 : ETIMEDOUT; COOP_REAL(int, "pthread_cond_clockwait", (const char*) nullptr, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*) return real(k, m, i, a);}
int pthread_cond_signal(pthread_cond_t* k) throw() {if (coop* c = coop_on()) {c->signal(k, false); return 0;} COOP_REAL(int, "pthread_cond_signal", "GLIBC_2.3.2", pthread_cond_t*) return real(k);}
int pthread_cond_broadcast(pthread_cond_t* k) throw() {if (coop* c = coop_on()) {c->signal(k, true); return 0;} COOP_REAL(int, "pthread_cond_broadcast", "GLIBC_2.3.2", pthread_cond_t*) return real(k);}
int nanosleep(const struct timespec* r, struct timespec* l) {if (coop* c = coop_on()) {c->sleep(coop_us(r)); return 0;} COOP_REAL(int, "nanosleep", (const char*) nullptr, const struct timespec*, struct timespec*) return real(r, l);}
int clock_nanosleep(clockid_t i, int f, const struct timespec* r, struct timespec* l) {if (coop* c = coop_on()) {long long d = coop_us(r) - (f ? (long long) vt_us : 0); if (d > 0) c->sleep(d); return 0;} COOP_REAL(int, "clock_nanosleep", (const char*) nullptr, clockid_t, int, const struct timespec*, struct timespec*) return real(i, f, r, l);}
int sched_yield() throw() {if (coop* c = coop_on()) {c->point(true); return 0;} COOP_REAL(int, "sched_yield", (const char*) nullptr) return real();}
}
