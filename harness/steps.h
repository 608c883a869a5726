// runs real threads one at a time: a controlled thread stops at every point() until the scheduler lets it go on
#pragma once
#include <thread>
#include <unistd.h>
#include <mutex>
#include <condition_variable>
#include <functional>
#include <string>
#include <vector>
#include <memory>
struct ctl {
	std::string name; bool paused = false, granted = false, done = false; long idle = 0; // idle: how often it found nothing to do in a row
	std::thread th;
};
struct sched {
	std::mutex m; std::condition_variable cv; bool free_run = false;
	std::vector<std::unique_ptr<ctl>> all; long tick = 0; // a thread which blocks (on a lock held by a stopped one) is left alone after a while
	static ctl*& self() {static thread_local ctl* p = nullptr; return p;}
	static sched*& cur() {static sched* p = nullptr; return p;}
	static std::mutex& guard() {static std::mutex* g = new std::mutex; return *g;}
	sched() {
		static bool dog = (std::thread([] {for (;;) {sleep(1); std::lock_guard<std::mutex> g(guard()); if (cur()) {std::lock_guard<std::mutex> l(cur()->m); ++cur()->tick; cur()->cv.notify_all();}}}).detach(), true); (void) dog;
		std::lock_guard<std::mutex> g(guard()); cur() = this;
	}
	~sched() {release(); for (auto& c : all) if (c->th.joinable()) c->th.join(); std::lock_guard<std::mutex> g(guard()); cur() = nullptr;}
	static void point() {if (cur() && self()) cur()->stop_here(self());}
	void stop_here(ctl* c) {
		std::unique_lock<std::mutex> l(m);
		if (free_run) return;
		c->paused = true; cv.notify_all();
		cv.wait(l, [&] {return c->granted || free_run;});
		c->granted = false; c->paused = false;
	}
	ctl* add(const std::string& n, std::function<void()> f) {
		all.emplace_back(new ctl); ctl* c = all.back().get(); c->name = n;
		c->th = std::thread([this, c, f] {self() = c; stop_here(c); f(); std::unique_lock<std::mutex> l(m); c->done = true; cv.notify_all();});
		wait(c); return c;
	}
	void wait(ctl* c) {std::unique_lock<std::mutex> l(m); long t = tick; cv.wait(l, [&] {return c->paused || c->done || free_run || tick - t >= 3;});}
	bool step(ctl* c) { // one step of that thread; false: it has ended
		{std::unique_lock<std::mutex> l(m); if (c->done) return false; if (!c->paused) {l.unlock(); wait(c); return true;} c->granted = true; c->paused = false; cv.notify_all();}
		wait(c); return true;
	}
	ctl* find(const std::string& n) {for (auto& c : all) if (c->name == n) return c.get(); return nullptr;}
	void release() {std::unique_lock<std::mutex> l(m); free_run = true; cv.notify_all();}
};
