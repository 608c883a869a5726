// the receiving half of a server socket over the mock transport
#include "quiet.h"
#include "vtime.h"
#include <ext/tcp.h>
#include "mock.h"
#include "cmd.h"
#include "dummy.h"
#include <map>
#include <deque>
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
typedef st_asio_wrapper::tcp::server_socket_base<packer<>, unpacker<>, dummy_server, mock_socket> base;
struct offer {std::vector<std::string> ms; int t;};
struct sock : public base {
	std::vector<offer> offers, syncs; std::deque<int> script; int sj; bool overlap, inside;
	sock(dummy_server& s) : base(s), sj(0), overlap(false), inside(false) {}
	int next() {if (script.empty()) return -1; int d = script.front(); script.pop_front(); return d;}
#ifdef ST_ASIO_SYNC_DISPATCH
	size_t on_msg(list<std::string>& can) {
		offer o; for (auto& m : can) o.ms.push_back(m); o.t = sj; syncs.push_back(o);
		for (int i = 0; i < sj && !can.empty(); ++i) can.pop_front();
		return sj;
	}
#endif
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
	size_t on_msg_handle(out_queue_type& q) {
		out_container_type c; q.swap(c); int d = next(); if (d < 0) d = (int) c.size();
		offer o; for (auto& m : c) o.ms.push_back(m); o.t = d; offers.push_back(o);
		for (int i = 0; i < d && !c.empty(); ++i) c.pop_front();
		size_t n = 0; q.move_items_in_front(c, n);
		return d;
	}
#else
	int k = -1; // accept k, refuse the next, accept everything else
	bool on_msg_handle(std::string& m) {
		offer o; o.ms.push_back(m); o.t = k != 0; if (k >= 0) --k; if (!o.t) k = -1;
		offers.push_back(o);
		return o.t;
	}
#endif
};
struct world {
	service_pump sp; dummy_server srv; boost::asio::io_context& io; boost::asio::executor_work_guard<boost::asio::io_context::executor_type> w;
	boost::shared_ptr<sock> s; size_t limit; int riv, hiv;
	std::map<int, std::string> body; unsigned serial; double m0, b0; bool carry; // carry: the first byte of the next head has been read already
	world(size_t l, int r, int h) : srv(sp), io(sp.assign_io_context()), w(io.get_executor()), limit(l), riv(r), hiv(h), serial(0), carry(false) {reset();}
	void poll() {while (io.poll()) ;}
	void reset() {
		if (s) {s->script.clear(); s->sj = 0; s->next_layer().close(); s->force_shutdown(); for (int i = 0; i < 6; ++i) {poll(); vt_us += 100000;} poll();}
		s = boost::make_shared<sock>(boost::ref(srv));
		s->next_layer().force_open(); s->recv_buf_size(limit); s->msg_resuming_interval(riv * 10); s->msg_handling_interval(hiv * 10);
		s->start(); poll(); body.clear(); carry = false;
		m0 = s->get_statistic().recv_msg_sum; b0 = s->get_statistic().recv_byte_sum;
	}
	std::string mk(size_t n) {++serial; std::string r(n, 0); unsigned v = serial; for (size_t i = 0; i < n; ++i) {r[i] = (char) (33 + v % 90); v = v / 90 + 77 * (unsigned) i;} return r;}
	int id_of(const std::string& b) {if (b.empty()) return 0; for (auto& x : body) if (x.second == b) return x.first; return -1;}
	std::string offs(const std::vector<offer>& v) {std::vector<std::string> r; for (auto& o : v) {json j; std::vector<int> i; for (auto& m : o.ms) i.push_back(id_of(m)); j.arr("ids", i).num("t", o.t); r.push_back(j.done());} return jarr(r);}
	void plan(std::istringstream& is) {
		int d; s->script.clear(); while (is >> d) s->script.push_back(d);
#ifndef ST_ASIO_DISPATCH_BATCH_MSG
		s->k = s->script.empty() ? -1 : s->script.front();
#endif
	}
	std::string command(const std::string& line) {
		std::istringstream is(line); std::string k; is >> k; std::string bad; std::vector<int> popped;
		s->offers.clear(); s->syncs.clear();
		auto& t = s->next_layer();
		if (k == "read") { // read sj n len:id ... script
			int n; is >> s->sj >> n; std::string wire;
			for (int i = 0; i < n; ++i) {size_t len; char c; int id; is >> len >> c >> id; std::string b = mk(len); if (len) body[id] = b; wire += (char) ((len + 2) >> 8); wire += (char) (len + 2); wire += b;}
			if (carry) wire.erase(0, 1);
			if ((carry = wire.size() + 1 < t.read_room() && serial % 4 == 1)) wire += '\0'; // lengths are below 256: the high byte of the next head
			plan(is);
			if (!t.reading()) bad = "not reading";
			else {
				// asio's async_read with the unpacker's completion condition: bytes beyond the first complete message arrive in the same read
				size_t used = t.feed(wire.data(), wire.size());
				if (used != wire.size()) bad = "the read took only a part";
			}
			poll();
		}
		else if (k == "tick") {plan(is); vt_us += 10000; poll();}
		else if (k == "pop") {sock::out_msg m; s->pop_first_pending_recv_msg(m); if (!m.empty()) popped.push_back(id_of(m));}
		else if (k == "popall") {sock::out_container_type c; s->pop_all_pending_recv_msg(c); for (auto& m : c) popped.push_back(id_of(m));}
#ifdef ST_ASIO_PASSIVE_RECV
		else if (k == "ask") {s->recv_msg(); if (serial % 2) s->recv_msg(); poll(); if (serial % 3 == 0) {s->recv_msg(); poll();} if (!s->is_reading()) bad = "is_reading() is wrong";}
#endif
		poll();
		double m1 = s->get_statistic().recv_msg_sum, b1 = s->get_statistic().recv_byte_sum;
		json j;
		j.raw("offers", offs(s->offers)).raw("sync", offs(s->syncs)).arr("popped", popped).num("dm", (long) (m1 - m0)).num("db", (long) (b1 - b0)); m0 = m1; b0 = b1;
		j.num("bytes", s->get_pending_recv_msg_size()).b("avail", s->is_recv_buffer_available()).b("reading", t.reading()).b("idle", s->is_recv_idle()).b("disp", s->is_dispatching());
		j.num("overlap", t.c().overlap_wr + t.c().overlap_rd);
		double u = s->recv_buf_usage() * limit; if (u < s->get_pending_recv_msg_size() - .5 || u > s->get_pending_recv_msg_size() + .5) bad = "recv_buf_usage is wrong";
		if (!bad.empty()) j.str("bad", bad);
		return j.done();
	}
};
int main(int argc, char** argv) { // limit riv hiv
	world w(atol(argv[1]), atoi(argv[2]), atoi(argv[3])); std::string line;
	while (std::getline(std::cin, line)) if (line == "reset") {w.reset(); answer("{}");} else answer(w.command(line));
	return 0;
}
