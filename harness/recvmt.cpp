// several workers run the strands of one receiving link; every access to the receive buffer and the inside of the handler are scheduling points
#include "quiet.h"
#include "vtime.h"
#include "steps.h"
#include "hookqueue.h"
#include "mock.h"
#include "cmd.h"
#include "dummy.h"
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
typedef st_asio_wrapper::tcp::server_socket_base<packer<>, unpacker<>, dummy_server, mock_socket, hook_queue, list, hook_queue> base;
static std::vector<std::string> EV; static std::mutex EVM; static bool DOWN = false;
static void ev(const std::string& s) {std::lock_guard<std::mutex> l(EVM); if (!DOWN) EV.push_back(s);}
void hook_lockable::lock() {sched::point(); mtx.lock();}
void hook_lockable::unlock() {mtx.unlock(); sched::point();}
static int num(const std::string& m) {return m.empty() ? 0 : atoi(m.c_str());}
struct sock : public base {
	unsigned seed, calls; bool easy;
	sock(dummy_server& s, unsigned sd) : base(s), seed(sd), calls(0), easy(false) {}
	unsigned dice() {unsigned r = (seed + 1) * 2654435761u + ++calls * 40503u; r ^= r >> 15; r *= 2246822519u; r ^= r >> 13; return r;}
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
	size_t on_msg_handle(out_queue_type& q) {
		out_container_type c; q.swap(c);
		std::string ids; for (auto& m : c) ids += (ids.empty() ? "" : ",") + std::to_string(num(m));
		ev("{\"e\":\"offer\",\"ids\":[" + ids + "]}"); sched::point();
		unsigned r = dice(); size_t d = easy || r % 3 == 0 ? c.size() : r % 3 == 1 ? 0 : r / 3 % (c.size() + 1), n = 0;
		for (size_t i = 0; i < d; ++i) c.pop_front();
		if (!c.empty()) q.move_items_in_front(c, n);
		ev("{\"e\":\"ret\",\"n\":" + std::to_string(d) + ",\"hiv\":" + std::to_string(msg_handling_interval() / 10) + "}"); sched::point();
		return d;
	}
#else
	bool on_msg_handle(std::string& m) {
		ev("{\"e\":\"offer\",\"ids\":[" + std::to_string(num(m)) + "]}"); sched::point();
		bool ok = easy || dice() % 2; ev(std::string("{\"e\":\"ret\",\"n\":") + (ok ? "1" : "0") + ",\"hiv\":" + std::to_string(msg_handling_interval() / 10) + "}"); sched::point();
		return ok;
	}
#endif
};
static std::string run(unsigned seed, int msgs, int workers, int hiv, int limit, const std::string& schedule) {
	{std::lock_guard<std::mutex> l(EVM); EV.clear(); DOWN = false;}
	service_pump sp; dummy_server srv(sp); boost::asio::io_context& io = sp.assign_io_context();
	auto w = boost::asio::make_work_guard(io); std::string bad;
	auto s = boost::make_shared<sock>(boost::ref(srv), seed); s->next_layer().force_open();
	s->msg_handling_interval(hiv * 10); s->msg_resuming_interval(10); s->recv_buf_size(limit * 4);
	s->start(); while (io.poll()) ;
	{
	sched sc; bool stop = false; int fed = 0;
	for (int i = 0; i < workers; ++i)
		sc.add("w" + std::to_string(i + 1), [&] {while (!stop) {long k = sched::self()->idle; sched::self()->idle = 0; size_t n = io.poll_one(); sched::self()->idle = n ? 0 : k + 1; sched::point();}});
	auto feed = [&] {
		if (fed >= msgs || !s->next_layer().reading()) return false;
		int n = 1 + (seed >> fed) % 2; std::string wire, ids;
		for (; n > 0 && fed < msgs; --n) {++fed; char b[8]; snprintf(b, sizeof b, "%04d", fed); wire += std::string("\0\6", 2) + b; ids += (ids.empty() ? "" : ",") + std::to_string(fed);}
		ev("{\"e\":\"feed\",\"ids\":[" + ids + "]}"); s->next_layer().feed(wire.data(), wire.size()); return true;
	};
	auto tick = [&] {ev("{\"e\":\"tick\"}"); vt_us += 10000;};
	std::istringstream is(schedule); std::string t;
	while (is >> t) {if (t == "r") feed(); else if (t == "v") tick(); else if (ctl* c = sc.find(t)) sc.step(c);}
	s->easy = true;
	for (int quiet = 0, rounds = 0; quiet < hiv + 4; ++rounds) {
		bool any = feed();
		for (int k = 0; k < 3; ++k) for (auto& c : sc.all) {sc.step(c.get()); if (c->idle == 0) any = true;}
		if (!any) tick();
		quiet = any ? 0 : quiet + 1;
		if (rounds > 5000) {bad = "never comes to rest"; break;}
	}
	if (fed < msgs) bad = "the link stopped reading";
	ev("{\"e\":\"quiet\",\"pend\":" + std::to_string(s->get_pending_recv_msg_size()) + "}");
	if (s->next_layer().c().overlap_wr || s->next_layer().c().overlap_rd) bad = "two operations were outstanding on the transport";
	if (bad.empty() && s->is_dispatching()) bad = "still marked as dispatching";
	stop = true; DOWN = true;
	}
	s->next_layer().close(); s->force_shutdown(); for (int i = 0; i < 5; ++i) {while (io.poll()) ; vt_us += 100000;}
	json j; j.raw("ev", jarr(EV)); if (!bad.empty()) j.str("bad", bad);
	return j.done();
}
int main() {
	std::string line;
	while (std::getline(std::cin, line)) {
		std::istringstream is(line); int msgs, workers, hiv, limit; unsigned seed; is >> seed >> msgs >> workers >> hiv >> limit; std::string rest; std::getline(is, rest);
		answer(run(seed, msgs, workers, hiv, limit, rest));
	}
	return 0;
}
