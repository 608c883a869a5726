// the receiving half of a datagram socket over a mock transport; every message carries its sender's address
#include "quiet.h"
#include "vtime.h"
#include <ext/udp.h>
#include "mockudp.h"
#include "cmd.h"
#include <map>
#include <deque>
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
struct dummy_matrix : public st_asio_wrapper::i_matrix {
	service_pump& sp;
	dummy_matrix(service_pump& s) : sp(s) {}
	bool started() const {return true;}
	service_pump& get_service_pump() {return sp;}
	const service_pump& get_service_pump() const {return sp;}
	bool socket_exist(boost::uint_fast64_t) {return false;}
	boost::shared_ptr<tracked_executor> find_socket(boost::uint_fast64_t) {return boost::shared_ptr<tracked_executor>();}
	bool del_socket(boost::uint_fast64_t) {return true;}
};
typedef boost::asio::ip::udp::endpoint endpoint;
typedef st_asio_wrapper::udp::generic_socket<packer<>, udp_unpacker, dummy_matrix, mock_dgram> base;
static endpoint addr(int i) {return endpoint(boost::asio::ip::make_address("10.0.0." + std::to_string(i)), 1000 + i);}
static std::map<std::string, endpoint> sender; static std::string wrong;
template<typename M> std::string take(const M& m) { // checks the address of a message
	std::string b(m.data(), m.size());
	if (!b.empty() && (!sender.count(b) || sender[b] != m.peer_addr)) wrong = "a message came with a wrong address";
	return b;
}
struct offer {std::vector<std::string> ms; int t;};
struct sock : public base {
	std::vector<offer> offers, syncs; std::deque<int> script; int sj; bool overlap, inside;
	sock(dummy_matrix& s) : base(s), sj(0), overlap(false), inside(false) {}
	bool bind(const endpoint& e) {boost::system::error_code ec; return !next_layer().bind(e, ec);}
	bool connect(const endpoint& e) {boost::system::error_code ec; return !next_layer().connect(e, ec);}
	int next() {if (script.empty()) return -1; int d = script.front(); script.pop_front(); return d;}
#ifdef ST_ASIO_SYNC_DISPATCH
	size_t on_msg(list<base::out_msg_type>& can) {
		offer o; for (auto& m : can) o.ms.push_back(take(m)); o.t = sj; syncs.push_back(o);
		for (int i = 0; i < sj && !can.empty(); ++i) can.pop_front();
		return sj;
	}
#endif
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
	size_t on_msg_handle(out_queue_type& q) {
		out_container_type c; q.swap(c); int d = next(); if (d < 0) d = (int) c.size();
		offer o; for (auto& m : c) o.ms.push_back(take(m)); o.t = d; offers.push_back(o);
		for (int i = 0; i < d && !c.empty(); ++i) c.pop_front();
		size_t n = 0; q.move_items_in_front(c, n);
		return d;
	}
#else
	int k = -1; // accept k, refuse the next, accept everything else
	bool on_msg_handle(base::out_msg_type& m) {
		offer o; o.ms.push_back(take(m)); o.t = k != 0; if (k >= 0) --k; if (!o.t) k = -1;
		offers.push_back(o);
		return o.t;
	}
#endif
};
struct world {
	service_pump sp; dummy_matrix srv; boost::asio::io_context& io; boost::asio::executor_work_guard<boost::asio::io_context::executor_type> w;
	boost::shared_ptr<sock> s; size_t limit; int riv, hiv;
	std::map<int, std::string> body; unsigned serial; double m0, b0;
	world(size_t l, int r, int h) : srv(sp), io(sp.assign_io_context()), w(io.get_executor()), limit(l), riv(r), hiv(h), serial(0) {reset();}
	void poll() {while (io.poll()) ;}
	void reset() {
		if (s) {s->script.clear(); s->sj = 0; s->next_layer().close(); s->force_shutdown(); for (int i = 0; i < 6; ++i) {poll(); vt_us += 100000;} poll();}
		s = boost::make_shared<sock>(boost::ref(srv));
		s->recv_buf_size(limit);
#ifdef CONN
		s->set_connect_mode(); s->set_peer_addr(1001, "10.0.0.1");
#endif
		sender.clear(); wrong.clear(); s->msg_resuming_interval(riv * 10); s->msg_handling_interval(hiv * 10);
		s->start(); poll(); body.clear();
		m0 = s->get_statistic().recv_msg_sum; b0 = s->get_statistic().recv_byte_sum;
	}
	std::string mk(size_t n) {++serial; std::string r(n, 0); unsigned v = serial; for (size_t i = 0; i < n; ++i) {r[i] = (char) (33 + v % 90); v = v / 90 + 77 * (unsigned) i;} return r;}
	int id_of(const std::string& b) {if (b.empty()) return 0; for (auto& x : body) if (x.second == b) return x.first; return -1;}
	std::string offs(const std::vector<offer>& v) {std::vector<std::string> r; for (auto& o : v) {json j; std::vector<int> i; for (auto& m : o.ms) i.push_back(id_of(m)); j.arr("ids", i).num("t", o.t); r.push_back(j.done());} return jarr(r);}
	void plan(std::istringstream& is) {
		int d; s->script.clear(); while (is >> d) s->script.push_back(d);
#ifndef ST_ASIO_DISPATCH_BATCH_MSG
		s->k = s->script.empty() ? -1 : s->script.front();
#endif
	}
	std::string command(const std::string& line) {
		std::istringstream is(line); std::string k; is >> k; std::string bad; std::vector<int> popped;
		s->offers.clear(); s->syncs.clear();
		auto& t = s->next_layer();
		if (k == "read") { // read sj n len:id ... script
			int n; is >> s->sj >> n; std::string wire;
			for (int i = 0; i < n; ++i) {size_t len; char c; int id; is >> len >> c >> id; std::string b = mk(len); if (len) body[id] = b; wire += b;}
#ifdef CONN
			endpoint from = addr(1);
#else
			endpoint from = addr(1 + serial % 3);
#endif
			if (!wire.empty()) sender[wire] = from;
			plan(is);
			if (!t.reading()) bad = "not reading"; else t.feed(wire, from);
			poll();
		}
		else if (k == "tick") {plan(is); vt_us += 10000; poll();}
		else if (k == "pop") {sock::out_msg m; s->pop_first_pending_recv_msg(m); if (!m.empty()) popped.push_back(id_of(take(m)));}
		else if (k == "popall") {sock::out_container_type c; s->pop_all_pending_recv_msg(c); for (auto& m : c) popped.push_back(id_of(take(m)));}
#ifdef ST_ASIO_PASSIVE_RECV
		else if (k == "ask") {s->recv_msg(); if (serial % 2) s->recv_msg(); poll(); if (serial % 3 == 0) {s->recv_msg(); poll();} if (!s->is_reading()) bad = "is_reading() is wrong";}
#endif
		poll();
		double m1 = s->get_statistic().recv_msg_sum, b1 = s->get_statistic().recv_byte_sum;
		json j;
		j.raw("offers", offs(s->offers)).raw("sync", offs(s->syncs)).arr("popped", popped).num("dm", (long) (m1 - m0)).num("db", (long) (b1 - b0)); m0 = m1; b0 = b1;
		j.num("bytes", s->get_pending_recv_msg_size()).b("avail", s->is_recv_buffer_available()).b("reading", t.reading()).b("idle", s->is_recv_idle()).b("disp", s->is_dispatching());
		j.num("overlap", t.overlap_wr + t.overlap_rd);
		double u = s->recv_buf_usage() * limit; if (u < s->get_pending_recv_msg_size() - .5 || u > s->get_pending_recv_msg_size() + .5) bad = "recv_buf_usage is wrong";
		if (!wrong.empty()) bad = wrong;
		if (!bad.empty()) j.str("bad", bad);
		return j.done();
	}
};
int main(int argc, char** argv) { // limit riv hiv
	world w(atol(argv[1]), atoi(argv[2]), atoi(argv[3])); std::string line;
	while (std::getline(std::cin, line)) if (line == "reset") {w.reset(); answer("{}");} else answer(w.command(line));
	return 0;
}
