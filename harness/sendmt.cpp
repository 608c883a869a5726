// several real threads send on one link while workers run its strand; every access to the send buffer is a scheduling point
#include "quiet.h"
#include "vtime.h"
#include "steps.h"
#include "hookqueue.h"
#include "mock.h"
#include "cmd.h"
#include "dummy.h"
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
typedef st_asio_wrapper::tcp::server_socket_base<packer<>, unpacker<>, dummy_server, mock_socket, hook_queue> base;
static std::vector<std::string> EV; static std::mutex EVM;
static void ev(const std::string& s) {std::lock_guard<std::mutex> l(EVM); EV.push_back(s);}
struct sock : public base {
	sock(dummy_server& s) : base(s) {}
	bool is_ready() {sched::point(); return base::is_ready();}
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	void on_msg_send(std::string&) {}
#endif
};
struct tl_send {std::string ids; int prior = 0; size_t before = 0; bool armed = false;};
static tl_send& tls() {static thread_local tl_send t; return t;}
static sock* S = nullptr; static bool DOWN = false;
void hook_lockable::lock() {sched::point(); mtx.lock(); if (S && sched::self() && !DOWN) tls().before = S->get_pending_send_msg_size();}
void hook_lockable::unlock() {
	if (S && sched::self() && !DOWN && tls().armed && S->get_pending_send_msg_size() > tls().before) {ev("{\"e\":\"enq\",\"ids\":[" + tls().ids + "],\"prior\":" + (tls().prior ? "true" : "false") + "}"); tls().armed = false;}
	if (S && sched::self() && !DOWN && !tls().armed && S->get_pending_send_msg_size() < tls().before) ev("{\"e\":\"take\",\"n\":" + std::to_string((tls().before - S->get_pending_send_msg_size()) / 4) + "}");
	mtx.unlock(); sched::point();
}
static std::string ids_of(const std::string& w) {std::string r; for (size_t i = 0; i + 4 <= w.size(); i += 4) r += (i ? "," : "") + std::to_string(atoi(w.substr(i, 4).c_str())); return r;}

static std::string run(int early, unsigned seed, int per, int senders, int workers, const std::string& schedule) {
	EV.clear(); DOWN = false;
	service_pump sp; dummy_server srv(sp); boost::asio::io_context& io = sp.assign_io_context();
	auto w = boost::asio::make_work_guard(io);
	std::string bad;
	auto s = boost::make_shared<sock>(boost::ref(srv)); s->next_layer().force_open();
	S = s.get();
	s->next_layer().on_write = [&] {auto& b = s->next_layer().c().wr.wbufs; std::string x(boost::asio::buffer_size(b), 0); boost::asio::buffer_copy(boost::asio::buffer(&x[0], x.size()), b); ev("{\"e\":\"begin\",\"ids\":[" + ids_of(x) + "]}");};
	{
	sched sc; bool stop = false; std::atomic<long> acted(0);
	if (!early) {s->start(); while (io.poll()) ; ev("{\"e\":\"up\"}");}
	for (int i = 0; i < senders; ++i)
		sc.add("s" + std::to_string(i + 1), [&, i] {
			for (int k = 0; k < per; ++k) {
				unsigned r = (seed + 1) * 2654435761u + i * 7919 + k * 104729; r ^= r >> 15; r *= 2246822519u; r ^= r >> 13;
				char b[8]; int id = 1000 + i * 100 + k * 2; snprintf(b, sizeof b, "%04d", id); std::string m = b; snprintf(b, sizeof b, "%04d", id + 1); std::string m2 = b;
				auto& t = tls(); t.prior = r % 4 == 0; t.ids = std::to_string(id); t.armed = true;
				if (r % 3 == 0) {t.ids += "," + std::to_string(id + 1); s->send_native_msg(m, m2, true, t.prior);}
				else if (r % 3 == 1) s->direct_send_msg(m, true, t.prior);
				else s->send_native_msg(m.data(), m.size(), true, t.prior);
				t.armed = false;
				sched::point();
			}
		});
	if (early) sc.add("start", [&] {s->start();});
	for (int i = 0; i < workers; ++i)
		sc.add("w" + std::to_string(i + 1), [&] {while (!stop) {long k = sched::self()->idle; sched::self()->idle = 0; size_t n = io.poll_one(); if (n) ++acted; sched::self()->idle = n ? 0 : k + 1; sched::point();}});
	auto transport = [&] {if (!s->next_layer().writing()) return false; size_t n = s->next_layer().write_size(); (void) n; ev("{\"e\":\"done\"}"); s->next_layer().drain((size_t) -1); return true;};
	std::istringstream is(schedule); std::string t;
	while (is >> t) {if (t == "t") transport(); else if (ctl* c = sc.find(t)) sc.step(c);}
	for (int quiet = 0, rounds = 0; quiet < 3; ++rounds) { // let everything come to an end
		bool any = transport();
		for (auto& c : sc.all) if (!c->done) {
			if (c->name[0] != 'w') {sc.step(c.get()); any = true;}
			else if (c->idle == 0 || !any) {sc.step(c.get()); if (c->idle == 0) any = true;}
			else {sc.step(c.get());}
		}
		quiet = any ? 0 : quiet + 1;
		if (rounds > 5000) {bad = "never comes to rest"; break;}
	}
	if (early) ev("{\"e\":\"up\"}");
	ev("{\"e\":\"quiet\",\"pend\":" + std::to_string(s->get_pending_send_msg_size() / 4) + "}");
	if (s->next_layer().c().overlap_wr || s->next_layer().c().overlap_rd) bad = "two operations were outstanding on the transport";
	if (bad.empty() && s->is_sending()) bad = "still marked as sending";
	stop = true; DOWN = true;
	}
	S = nullptr;
	s->next_layer().on_write = nullptr; s->next_layer().close(); s->force_shutdown(); for (int i = 0; i < 5; ++i) {while (io.poll()) ; vt_us += 100000;}
	json j; j.raw("ev", jarr(EV)); if (!bad.empty()) j.str("bad", bad);
	return j.done();
}
int main() {
	std::string line;
	while (std::getline(std::cin, line)) {
		std::istringstream is(line); int early, per, senders, workers; unsigned seed; is >> early >> seed >> per >> senders >> workers; std::string rest; std::getline(is, rest);
		answer(run(early, seed, per, senders, workers, rest));
	}
	return 0;
}
