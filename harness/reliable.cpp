// a reliable datagram socket in virtual time, its peer is played by the driver over a plain socket of the loopback network
#define ST_ASIO_WANT_MSG_SEND_NOTIFY
#include "quiet.h"
#include "vtime.h"
#include <ext/reliable_udp.h>
#include "cmd.h"
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
struct dummy_matrix : public st_asio_wrapper::i_matrix {
	service_pump& sp;
	dummy_matrix(service_pump& s) : sp(s) {}
	bool started() const {return true;}
	service_pump& get_service_pump() {return sp;}
	const service_pump& get_service_pump() const {return sp;}
	bool socket_exist(boost::uint_fast64_t) {return false;}
	boost::shared_ptr<tracked_executor> find_socket(boost::uint_fast64_t) {return boost::shared_ptr<tracked_executor>();}
	bool del_socket(boost::uint_fast64_t) {return true;}
};
typedef st_asio_wrapper::ext::udp::reliable_socket2<dummy_matrix> base; typedef boost::asio::ip::udp::endpoint endpoint;
struct sock : public base {
	std::vector<std::string> got, notes; int closes;
	sock(dummy_matrix& m) : base(m), closes(0) {}
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
	size_t on_msg_handle(out_queue_type& q) {out_container_type c; q.swap(c); for (auto& m : c) got.push_back(std::string(m.data(), m.size())); return c.size();}
#else
	bool on_msg_handle(base::out_msg_type& m) {got.push_back(std::string(m.data(), m.size())); return true;}
#endif
	void on_msg_send(base::in_msg_type& m) {notes.push_back(std::string(m.data(), m.size()));}
	void on_close() {++closes; base::on_close();}
};
static int output(const char* b, int n, ikcpcb*, void* user) {return ((sock*) user)->output(b, n);}
static bool again(ikcpcb*, IUINT32 now) {return (vt_us / 1000) % 5 == 3;}
struct world {
	service_pump sp; dummy_matrix mx; boost::asio::io_context& io; boost::asio::executor_work_guard<boost::asio::io_context::executor_type> w;
	boost::shared_ptr<sock> s; boost::asio::ip::udp::socket peer; endpoint at; unsigned serial, limit; bool conn; IUINT32 rn, una; std::vector<IUINT32> nos; std::vector<std::string> stash;
	world(bool c, unsigned l, unsigned win) : mx(sp), io(sp.assign_io_context()), w(io.get_executor()), peer(io), serial(0), limit(l), conn(c) {
		kw().window = win; kw().again = &again; kw().record = true; boost::system::error_code ec; peer.open(boost::asio::ip::udp::v4()); peer.bind(endpoint(boost::asio::ip::make_address("127.0.0.1"), 0)); peer.non_blocking(true); reset();
	}
	void poll() {while (io.poll()) ;}
	void pass(int ms) {for (int i = 0; i < ms; ++i) {vt_us += 1000; poll();}}
	void close() {s->force_shutdown(); poll(); for (int i = 0; i < 40; ++i) {pass(10); look();}}
	std::vector<std::string> look() { // what the peer gets
		std::vector<std::string> r; char b[5000]; endpoint e; boost::system::error_code ec;
		for (size_t n; n = peer.receive_from(boost::asio::buffer(b), e, 0, ec), !ec;) {at = e; r.push_back(std::string(b, n));}
		return r;
	}
	void reset() {
		if (s) {close(); std::weak_ptr<int> none; s.reset(); poll(); if (kw().alive && kw().bad.empty()) kw().bad = "a kcp was not released";}
		s = boost::make_shared<sock>(boost::ref(mx)); s->send_buf_size(limit); s->set_local_addr(0, "127.0.0.1"); s->set_peer_addr(peer.local_endpoint().port(), "127.0.0.1"); if (conn) s->set_connect_mode();
		while ((vt_us / 1000) % 5) vt_us += 1000;
		vt_us -= vt_us % 1000; look(); rn = una = 0; s->set_max_nsnd_que(0);
	}
	void to(const std::string& d) {endpoint e = s->lowest_layer().local_endpoint(); boost::system::error_code ec; peer.send_to(boost::asio::buffer(d), e, 0, ec); poll();}
	static std::string num(char c, IUINT32 n, const std::string& x = "") {std::string d(1, c); d.append((const char*) &n, 4); return d + x;}
	std::string command(const std::string& line) {
		std::istringstream is(line); std::string k, bad; is >> k; bool ret = true; s->got.clear(); s->notes.clear(); s->closes = 0; kw().given.clear();
		if (k == "create") {ikcpcb* c = s->create_kcpcb(7, s.get()); ret = c; if (c) {ikcp_setoutput(c, &output); if (s->get_kcpcb() != c) bad = "another kcp than the created one"; rn = una = 0;}}
		else if (k == "start") {kw().interval = 13; s->start(); poll(); kw().interval = 10;}
		else if (k == "send") {
			int id, o, p; is >> id >> o >> p; char c[16]; sprintf(c, "%c%07u", 'a' + id, ++serial % 10000000); std::string b(c, 8); const char* ps[2] = {b.data(), b.data() + 3}; size_t ls[2] = {3, 5};
			ret = serial % 3 == 0 ? s->send_native_msg(b, o, p) : serial % 3 == 1 ? s->send_native_msg(ps, ls, 2, o, p) : s->send_native_msg(b.data(), b.size(), o, p);
		}
		else if (k == "tick") pass(5);
		else if (k == "setmax") {int m; is >> m; s->set_max_nsnd_que(m); if ((int) s->get_max_nsnd_que() != m) bad = "another limit than the given one";}
		else if (k == "ack") {int n; is >> n; una += n; to(num('A', una));}
		else if (k == "data") {
			std::string w; is >> w;
			if (w == "next") {char c = (char) ('0' + rn % 4); ++rn; to(num('D', rn - 1, std::string(3000, c)));} // the payload names the number
			else if (w == "fill") {char c = (char) ('0' + rn % 4); rn += 2; to(num('D', rn - 2, std::string(3000, c)));}
			else if (w == "ahead") to(num('D', rn + 1, std::string(30, (char) ('0' + (rn + 1) % 4))));
			else if (w == "dup") to(num('D', rn - 1, "x"));
			else to("Zjunk");
		}
		else if (k == "raw") to(std::string(20, 'r'));
		else if (k == "close") close();
		poll();
		std::vector<std::string> wire, given, notes, got;
		auto id = [](const std::string& m) {return m.size() == 8 ? std::to_string(m[0] - 'a') : std::string("-1");};
		if (k != "close") for (auto& d : look()) wire.push_back(d[0] == 'A' && d.size() == 5 ? "100" : d[0] == 'D' && d.size() == 13 ? id(d.substr(5)) : d.size() == 8 ? std::to_string(50 + d[0] - 'a') : "-1");
		for (auto& m : kw().given) given.push_back(id(m));
		for (auto& m : s->notes) notes.push_back(id(m));
		for (auto& m : s->got) got.push_back(m == std::string(m.size(), m[0]) ? m[0] == 'r' ? "9" : std::string(1, m[0]) : "-1");
		json j; j.b("ret", ret).raw("wire", jarr(wire)).raw("given", jarr(given)).raw("note", jarr(notes)).raw("got", jarr(got)).num("bytes", s->get_pending_send_msg_size()).b("started", s->started()).b("kcp", s->get_kcpcb() != NULL).num("alive", kw().alive).num("closes", s->closes);
		if (!kw().bad.empty()) bad = kw().bad;
		kw().bad.clear(); if (!bad.empty()) j.str("bad", bad);
		return j.done();
	}
};
int main(int argc, char** argv) {
	world w(atol(argv[1]), atol(argv[2]), atol(argv[3])); std::string line;
	while (std::getline(std::cin, line)) if (line == "reset") {w.reset(); answer("{}");} else answer(w.command(line));
	return 0;
}
