// the sending half of a datagram socket over a mock transport
#include "quiet.h"
#include "vtime.h"
#include <ext/udp.h>
#include "mockudp.h"
#include "cmd.h"
#include <map>
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
struct dummy_matrix : public st_asio_wrapper::i_matrix {
	service_pump& sp;
	dummy_matrix(service_pump& s) : sp(s) {}
	bool started() const {return true;}
	service_pump& get_service_pump() {return sp;}
	const service_pump& get_service_pump() const {return sp;}
	bool socket_exist(boost::uint_fast64_t) {return false;}
	boost::shared_ptr<tracked_executor> find_socket(boost::uint_fast64_t) {return boost::shared_ptr<tracked_executor>();}
	bool del_socket(boost::uint_fast64_t) {return true;}
};
typedef boost::asio::ip::udp::endpoint endpoint;
static endpoint addr(int i) {return endpoint(boost::asio::ip::make_address("10.0.0." + std::to_string(i)), 1000 + i);}
static int addr_of(const endpoint& e) {for (int i = 1; i < 4; ++i) if (e == addr(i)) return i; return -1;}
typedef st_asio_wrapper::udp::generic_socket<packer<>, udp_unpacker, dummy_matrix, mock_dgram> base;
struct sock : public base {
	std::vector<std::string> log, errs, notes, alls; std::string bad; int again; bool closed; // again: what a failed message's handler does, 1: send again, 2: with priority
	sock(dummy_matrix& m) : base(m), again(0), closed(false) {}
	bool bind(const endpoint& e) {boost::system::error_code ec; return !next_layer().bind(e, ec);}
	bool connect(const endpoint& e) {boost::system::error_code ec; return !next_layer().connect(e, ec);}
	void on_send_error(const boost::system::error_code& ec, base::in_msg& msg) {
		if (closed) bad = "a send error after the link was closed";
		errs.push_back(std::string(msg.data(), msg.size()));
		if (again) {bool p = again == 2; again = 0; std::string s(msg.data(), msg.size()); send_native_msg(msg.peer_addr, s, true, p);}
	}
	void on_close() {closed = true; log.push_back("\"close\""); base::on_close();}
	bool do_start() {closed = false; return base::do_start();}
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	void on_msg_send(base::in_msg_type& m) {notes.push_back(std::string(m.data(), m.size()));}
	void on_all_msg_send(base::in_msg_type& m) {alls.push_back(std::string(m.data(), m.size()));}
#endif
};
static const bool CONNECT =
#ifdef CONN
	true;
#else
	false;
#endif
struct world {
	service_pump sp; dummy_matrix mx; boost::asio::io_context& io; boost::asio::executor_work_guard<boost::asio::io_context::executor_type> w;
	boost::shared_ptr<sock> s; std::map<int, std::string> body; unsigned serial, steps; size_t limit;
	world(size_t l) : mx(sp), io(sp.assign_io_context()), w(io.get_executor()), serial(0), steps(0), limit(l) {reset();}
	void poll() {while (io.poll()) ;}
	void close() {s->force_shutdown(); for (int i = 0; i < 8; ++i) {poll(); vt_us += 50000;} poll();}
	void reset() {
		if (s) {s->again = 0; close();}
		s = boost::make_shared<sock>(boost::ref(mx)); s->send_buf_size(limit); s->set_local_addr(999, "10.0.0.9"); s->set_peer_addr(1001, "10.0.0.1"); body.clear();
		if (CONNECT) s->set_connect_mode();
	}
	int id_of(const std::string& b) {for (auto& x : body) if (x.second == b) return x.first; return -1;}
	std::vector<int> ids(const std::vector<std::string>& v) {std::vector<int> r; for (auto& x : v) r.push_back(id_of(x)); return r;}
	std::string command(const std::string& line) {
		std::istringstream is(line); std::string k, bad; is >> k; bool ret = true; std::vector<std::string> sent, popped;
		s->log.clear(); s->errs.clear(); s->notes.clear(); s->alls.clear(); s->bad.clear(); ++steps;
		auto& t = s->next_layer();
		auto to = [](int a, const endpoint& e) {return "{\"id\":" + std::to_string(a) + ",\"to\":" + std::to_string(addr_of(e)) + "}";};
		if (k == "start") {std::string r; is >> r; t.fail_bind = r == "nobind"; t.fail_connect = r == "noconn"; s->start(); poll(); if (r == "nobind") close(), s->log.clear(); t.fail_bind = t.fail_connect = false;}
		else if (k == "send") {
			int id, a, o, p; is >> id >> a >> o >> p; bool n = serial % 2;
			char c[12]; sprintf(c, "%c%07d", 'a' + id, ++serial % 10000000); std::string b = n ? std::string(c, 8) + "zz" : std::string(c, 8);
			std::string wire = n ? b : std::string("\0\x0a", 2) + b; body[id] = wire;
			const char* ps[2] = {b.data(), b.data() + 3}; size_t ls[2] = {3, b.size() - 3};
			switch (serial % 3) { // the forms of sending
			case 0: ret = a ? n ? s->send_native_msg(addr(a), b, o, p) : s->send_msg(addr(a), b, o, p) : n ? s->send_native_msg(b, o, p) : s->send_msg(b, o, p); break;
			case 1: ret = a ? n ? s->send_native_msg(addr(a), b.data(), b.size(), o, p) : s->send_msg(addr(a), b.data(), b.size(), o, p) : n ? s->send_native_msg(b.data(), b.size(), o, p) : s->send_msg(b.data(), b.size(), o, p); break;
			default: ret = a ? n ? s->send_native_msg(addr(a), ps, ls, 2, o, p) : s->send_msg(addr(a), ps, ls, 2, o, p) : n ? s->send_native_msg(ps, ls, 2, o, p) : s->send_msg(ps, ls, 2, o, p);
			}
		}
		else if (k == "big") {int a, o; is >> a >> o; std::string b(70000, 'b'); ret = a ? s->send_msg(addr(a), b, o) : s->send_msg(b, o);}
		else if (k == "beat") {int id; is >> id; body[id] = std::string("\0\x02", 2); s->send_heartbeat();}
		else if (k == "setpeer") {int p; is >> p; s->set_peer_addr(1000 + p, "10.0.0." + std::to_string(p));}
		else if (k == "drain") {if (!t.writing()) bad = "not writing"; else {endpoint e = t.to; std::string d = t.drain(); sent.push_back(to(id_of(d), e));}}
		else if (k == "fail") {std::string e; is >> e; if (!t.writing()) bad = "not writing"; else t.write_error(e == "refused" ? boost::asio::error::make_error_code(boost::asio::error::connection_refused) : e == "toobig" ? boost::asio::error::make_error_code(boost::asio::error::message_size) : boost::asio::error::make_error_code(boost::asio::error::host_unreachable));}
		else if (k == "resend") {int p; is >> p; s->again = p ? 2 : 1; if (!t.writing()) bad = "not writing"; else t.write_error(boost::asio::error::host_unreachable);}
		else if (k == "pop") {base::in_msg m; s->pop_first_pending_send_msg(m); if (!m.empty()) popped.push_back(to(id_of(std::string(m.data(), m.size())), m.peer_addr));}
		else if (k == "popall") {base::in_container_type c; s->pop_all_pending_send_msg(c); for (auto& m : c) popped.push_back(to(id_of(std::string(m.data(), m.size())), m.peer_addr));}
		else if (k == "force") {if (steps % 2) s->force_shutdown(); else s->disconnect(); for (int i = 0; i < 8; ++i) {poll(); vt_us += 50000;} if (t.is_open()) bad = "the transport is still open";}
		poll();
		if (s->started() && !t.reading()) bad = "not reading";
		if (t.overlap_rd || t.overlap_wr) bad = "two operations were outstanding on the transport";
		json j; j.b("ret", ret).raw("sent", jarr(sent)).arr("err", ids(s->errs)).arr("note", ids(s->notes)).arr("all", ids(s->alls)).raw("popped", jarr(popped)).raw("log", jarr(s->log));
		j.num("bytes", s->get_pending_send_msg_size()).b("avail", s->is_send_buffer_available()).b("started", s->started()).b("writing", t.writing()).b("connected", s->connected());
		if (!s->bad.empty()) bad = s->bad;
		if (!bad.empty()) j.str("bad", bad);
		return j.done();
	}
};
int main(int argc, char** argv) {
	world w(atol(argv[1])); std::string line;
	while (std::getline(std::cin, line)) if (line == "reset") {w.reset(); answer("{}");} else answer(w.command(line));
	return 0;
}
