// a real service pump with services which only hold work, its threads counted by barriers
#include "quiet.h"
#include <ext/tcp.h>
#include "cmd.h"
#include <unistd.h>
#include <atomic>
#include <map>
#include <functional>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <algorithm>
#include <stdexcept>
using namespace st_asio_wrapper;
struct world;
struct pump : public service_pump {
	world& w; std::atomic<bool> go; std::atomic<int> caught;
	pump(world& w_) : w(w_), go(true), caught(0) {}
	virtual void free(object_type p);
#ifndef ST_ASIO_NO_TRY_CATCH
	virtual bool on_exception(const std::exception& e) {++caught; return go;}
#endif
};
typedef boost::asio::executor_work_guard<boost::asio::io_context::executor_type> guard;
struct service : public service_pump::i_service {
	world& w; int n; bool fail, dying; std::mutex wm; std::vector<guard> works;
	service(pump& p, world& w_, int n_) : i_service(p), w(w_), n(n_), fail(false), dying(false) {}
	virtual bool init();
	virtual void uninit();
	virtual void finalize();
	void idle() {std::vector<guard> x; {std::lock_guard<std::mutex> l(wm); x.swap(works);}} // the pump can end (and stop this service) as soon as they are released
};
static bool stuck = false; // no use in going on
static bool await(const std::function<bool()>& f) {for (int i = 0; i < 10000; ++i) {if (f()) return true; std::this_thread::sleep_for(std::chrono::microseconds(i < 200 ? 50 : 1000));} stuck = true; return false;}
struct world {
	std::unique_ptr<pump> p; std::map<int, service*> sv; std::vector<boost::asio::io_context*> cx; std::mutex m; std::vector<int> in, un, fi, fr; std::string bad; std::thread runner; std::shared_ptr<std::atomic<int>> left;
	void note(std::vector<int>& v, int n) {std::lock_guard<std::mutex> l(m); v.push_back(n);}
	void reset() {
		if (p) {
			if (runner.joinable()) p->end_service(); else p->stop_service();
			if (runner.joinable()) {auto done = std::make_shared<std::atomic<bool>>(false); if (!await([this] {return !p->is_service_started();})) {fprintf(stderr, "the pump didn't end\n"); _exit(3);} runner.join();}
			for (auto& s : sv) {s.second->dying = true; delete s.second;}
			sv.clear(); p.reset();
		}
		bad.clear(); in.clear(); un.clear(); fi.clear(); fr.clear(); cx.clear(); left.reset(new std::atomic<int>(0));
		p.reset(new pump(*this));
#if CTX > 1
		p->set_io_context_num(CTX);
#endif
		for (int i = 0; i < CTX; ++i) cx.push_back(&p->assign_io_context());
		for (auto c : cx) p->return_io_context(*c);
		std::vector<boost::asio::io_context*> u(cx); std::sort(u.begin(), u.end()); if (std::unique(u.begin(), u.end()) != u.end()) {fprintf(stderr, "the same io_context was assigned twice\n"); _exit(3);}
	}
	// how many threads serve each io_context: that many handlers can block at the same time
	std::vector<int> threads(int want) {
		struct gate {std::mutex m; std::condition_variable cv; int in[CTX] = {}, total = 0; bool open = false;}; auto g = std::make_shared<gate>();
		auto post = [&](int c) {boost::asio::post(*cx[c], [g, c] {std::unique_lock<std::mutex> l(g->m); ++g->in[c]; ++g->total; g->cv.notify_all(); while (!g->open) g->cv.wait(l);});};
		for (int c = 0; c < CTX; ++c) for (int i = 0; i <= want; ++i) post(c);
		await([&] {std::lock_guard<std::mutex> l(g->m); return g->total >= want;});
		{std::unique_lock<std::mutex> l(g->m); g->cv.wait_for(l, std::chrono::microseconds(700), [&] {return g->total > want;});} // more than wanted?
		std::vector<int> n; {std::lock_guard<std::mutex> l(g->m); n.assign(g->in, g->in + CTX); g->open = true; g->cv.notify_all();}
		await([&] {std::lock_guard<std::mutex> l(g->m); return g->total == CTX * (want + 1);});
		return n;
	}
	void nudge(int n) {auto left = std::make_shared<std::atomic<int>>(n); for (int i = 0; i < n; ++i) boost::asio::post(*cx[0], [left] {--*left;}); if (!await([&] {return *left == 0;})) bad = "a posted call never ran";}
	std::string command(const std::string& line) {
		std::istringstream is(line); std::string k; is >> k; int want_started, want_alive, nt; is >> want_started >> want_alive >> nt; std::vector<int> want(nt); for (auto& x : want) is >> x;
		{std::lock_guard<std::mutex> l(m); in.clear(); un.clear(); fi.clear(); fr.clear();} bad.clear(); bool was = p->is_service_started(); int ret = 1, i = 0, n = 0;
		is >> i;
		if (k == "create") sv[i] = new service(*p, *this, i);
		else if (k == "fail") sv[i]->fail = !sv[i]->fail;
		else if (k == "start") p->start_service(i);
		else if (k == "run" && p->is_service_started()) p->run_service(i); // returns immediately
		else if (k == "run") {if (runner.joinable()) runner.join(); runner = std::thread([this, i] {p->run_service(i);}); if (want_started) await([this] {return p->is_service_started();}); else {runner.join();}}
		else if (k == "stop") p->stop_service();
		else if (k == "end") {p->end_service(); if (!await([this] {return !p->is_service_started();})) bad = "the pump didn't end"; else runner.join();}
		else if (k == "startsvc") p->start_service(sv[i], CTX);
		else if (k == "stopsvc") p->stop_service(sv[i]);
		else if (k == "idle") sv[i]->idle();
		else if (k == "remove") {
			std::string how; is >> how; service* s = sv[i]; sv.erase(i);
			if (how == "ptr") p->remove(s); else if (how == "id") p->remove(s->id()); else {s->dying = true; delete s;}
		}
		else if (k == "clear") {sv.clear(); p->clear();}
		else if (k == "setid") {is >> n; sv[i]->id(n);}
		else if (k == "find") {auto s = (service*) p->find(i); ret = s ? s->n : 0;}
		else if (k == "add") p->add_service_thread(i);
#ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
		else if (k == "del") p->del_service_thread(i);
		else if (k == "adddel") {is >> n; p->add_service_thread(i); p->del_service_thread(n); for (int x = 0; x < 3; ++x) boost::asio::post(*cx[0], [] {});}
		else if (k == "startdel") {is >> n; p->start_service(i); p->del_service_thread(n);}
#endif
		else if (k == "throw") {p->go = i; int c = p->caught; boost::asio::post(*cx[0], [] {throw std::runtime_error("a handler failed");}); if (!await([&] {return p->caught > c;})) bad = "the exception was not reported";}
		if (!want_started && runner.joinable()) {if (!await([this] {return !p->is_service_started();})) bad = "the pump didn't end"; else runner.join();}
		if ((was ? k == "stop" || k == "end" : want_started) && *left != 0 && bad.empty()) bad = "what a service started when it was stopped was left over";
		std::vector<int> thr(CTX, 0); bool run = p->is_service_started();
		if (want_alive) {
#ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
			if (k == "del" || k == "adddel" || k == "startdel") {if (!await([&] {nudge(4); return p->service_thread_num() == want[0];})) bad = "the number of threads is " + std::to_string(p->service_thread_num()); nudge(10);}
			else if (k != "throw" && !await([&] {return p->service_thread_num() == want[0];})) bad = "the number of threads is reported as " + std::to_string(p->service_thread_num());
			if (k == "throw" && !await([&] {return p->service_thread_num() == want[0];})) bad = "the number of threads is reported as " + std::to_string(p->service_thread_num()) + " after an exception";
#endif
			int sum = 0; for (int x : want) sum += x;
			thr = threads(sum); std::sort(thr.begin(), thr.end()); // the io_contexts are equal: compare the numbers of threads in order
			if (!p->is_running()) bad = "the pump isn't running";
		}
		else if (run) {if (!await([this] {return !p->is_running();})) bad = "the pump is running though there is nothing to do";}
		std::lock_guard<std::mutex> l(m); std::vector<int> on; for (auto& s : sv) if (s.second->service_started()) on.push_back(s.first);
		json j; std::sort(in.begin(), in.end()); std::sort(un.begin(), un.end()); std::sort(fi.begin(), fi.end()); std::sort(fr.begin(), fr.end());
		j.num("ret", ret).arr("init", in).arr("uninit", un).arr("final", fi).arr("freed", fr).b("started", run).arr("thr", thr).arr("on", on).b("alive", want_alive);
		if (!bad.empty()) j.str("bad", bad);
		return j.done();
	}
};
bool service::init() {w.note(w.in, n); if (fail) return false; std::lock_guard<std::mutex> l(wm); for (auto c : w.cx) works.push_back(guard(c->get_executor())); return true;}
void service::uninit() { // what it starts here ends before the pump has ended
	w.note(w.un, n); auto left = w.left; for (auto c : w.cx) {++*left; boost::asio::post(*c, [left] {--*left;});} idle();
}
void service::finalize() {w.note(w.fi, n);}
void pump::free(object_type q) {
	service* s = (service*) q; w.note(w.fr, s->n);
	if (s->dying) return; // being destroyed by the application
	s->dying = true; delete s; // freed by the pump
}
int main() {
	world w; std::string line; w.reset();
	while (std::getline(std::cin, line)) if (line == "reset") {w.reset(); answer("{}");} else {answer(w.command(line)); if (stuck) _exit(3);}
	fflush(stdout); _exit(0);
}
