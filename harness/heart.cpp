// a socket with heartbeats over the mock transport; the clock moves by whole seconds
#include "quiet.h"
#include "vtime.h"
#ifdef AUTO
#define ST_ASIO_HEARTBEAT_INTERVAL 2
#define ST_ASIO_HEARTBEAT_MAX_ABSENCE 2
#endif
#include <ext/tcp.h>
#include "mock.h"
#include "cmd.h"
#include "dummy.h"
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
#if FRAME == 1 // prefix and suffix
typedef prefix_suffix_packer PK; typedef prefix_suffix_unpacker UP;
#elif FRAME == 2
typedef packer2<> PK; typedef unpacker2<> UP;
#elif FRAME == 3 // no heartbeats
typedef fixed_length_packer PK; typedef fixed_length_unpacker UP;
#elif FRAME == 4
typedef packer<> PK; typedef non_copy_unpacker UP;
#elif FRAME == 5
typedef packer2<shared_buffer<i_buffer> > PK; typedef flexible_unpacker<> UP;
#else
typedef packer<> PK; typedef unpacker<> UP;
#endif
struct dummy_matrix : public st_asio_wrapper::i_matrix {
	service_pump& sp; long dels;
	dummy_matrix(service_pump& s) : sp(s), dels(0) {}
	bool started() const {return true;}
	service_pump& get_service_pump() {return sp;}
	const service_pump& get_service_pump() const {return sp;}
	bool socket_exist(boost::uint_fast64_t) {return false;}
	boost::shared_ptr<tracked_executor> find_socket(boost::uint_fast64_t) {return boost::shared_ptr<tracked_executor>();}
	bool del_socket(boost::uint_fast64_t) {++dels; return true;}
};
#ifdef CLIENT
typedef st_asio_wrapper::tcp::client_socket_base<PK, UP, dummy_matrix, mock_socket> base;
typedef dummy_matrix keeper;
#else
typedef st_asio_wrapper::tcp::server_socket_base<PK, UP, dummy_server, mock_socket> base;
typedef dummy_server keeper;
#endif
static int POLICY; // 0: default, 1: stop, 2: continue
static void conf(prefix_suffix_packer& p) {p.prefix_suffix("<<", ">");}
static void conf(prefix_suffix_unpacker& p) {p.prefix_suffix("<<", ">");}
template<typename T> static void conf(T&) {}
static void conf(fixed_length_unpacker& p) {p.fixed_length(4);}
struct sock : public base {
	std::vector<std::string> log; std::string bad, expect;
	sock(keeper& k) : base(k) {
		conf(*boost::dynamic_pointer_cast<PK>(ST_THIS packer())); conf(*boost::dynamic_pointer_cast<UP>(ST_THIS unpacker()));
	}
	void on_connect() {log.push_back("connect"); base::on_connect();}
	void on_close() {log.push_back("close"); base::on_close();}
	bool on_heartbeat_error() {log.push_back("dead"); return 0 == POLICY ? base::on_heartbeat_error() : POLICY == 2;}
	bool on_msg_handle(base::out_msg_type& m) {log.push_back("msg"); if (std::string(m.data(), m.size()).find(expect) == std::string::npos) bad = "another message was delivered: " + std::string(m.data(), m.size()); return true;}
#ifdef CLIENT
	int prepare_reconnect(const boost::system::error_code&) {return 0;}
#endif
};
static std::string frame(const std::string& b) {
#if FRAME == 1
	return "<<" + b + ">";
#elif FRAME == 3
	return b;
#else
	size_t n = b.size() + 2; return std::string(1, (char) (n >> 8)) + (char) n + b;
#endif
}
struct world {
	service_pump sp; keeper kp; boost::asio::io_context& io; boost::asio::executor_work_guard<boost::asio::io_context::executor_type> w;
	boost::shared_ptr<sock> s; unsigned serial; std::string rest;
	world() : kp(sp), io(sp.assign_io_context()), w(io.get_executor()), serial(0) {reset();}
	void poll() {while (io.poll()) ;}
	void pass(long ms) {for (poll(); ms > 0; ms -= 50) {vt_us += 50000; poll();}}
	void reset() {
		if (s) {
#ifdef CLIENT
			s->set_reconnect(false);
#endif
			s->next_layer().close(); s->force_shutdown(); pass(1000); s->stop_all_timer(); pass(5000);
		}
		s = boost::make_shared<sock>(boost::ref(kp));
#ifndef CLIENT
		s->next_layer().force_open();
#endif
		rest.clear();
	}
	std::string command(const std::string& line) {
		std::istringstream is(line); std::string k, bad; is >> k; bool ret = true; std::vector<std::string> sent;
		s->log.clear(); s->bad.clear();
		auto& t = s->next_layer();
		if (k == "start") s->start();
		else if (k == "connected") {if (!t.connecting()) bad = "not connecting"; else t.connected(boost::system::error_code());}
		else if (k == "tick") pass(1000);
		else if (k == "starthb") {int i, m; is >> i >> m; s->start_heartbeat(i, m);}
		else if (k == "stophb") s->stop_timer(sock::TIMER_HEARTBEAT_CHECK);
		else if (k == "check") {int i, m; is >> i >> m; ret = s->check_heartbeat(i, m);}
		else if (k == "force") s->force_shutdown(
#ifdef CLIENT
			true
#endif
		);
		else if (k == "send") {std::string b(1, (char) ('a' + serial++ % 20)); b += "out"; s->send_msg(b, true);}
		else if (k == "drain") {
			if (!t.writing()) bad = "not writing";
			else {
				std::string d = t.drain((size_t) -1), h = frame("");
				while (!d.empty()) {
#if FRAME != 3
					if (d.compare(0, h.size(), h) == 0) {sent.push_back("\"h\""); d.erase(0, h.size()); continue;}
#endif
					if (d.size() < frame("aout").size() || d.compare(0, frame("aout").size(), frame(d.substr(frame("aout").find('a'), 4)))) {bad = "unknown bytes were written"; break;}
					sent.push_back("\"m\""); d.erase(0, frame("aout").size());
				}
			}
		}
		else { // received: hb msg hbmsg part
			std::string b = std::string(1, (char) ('A' + serial++ % 20)) + "in.", d;
			if (k == "hb") d = frame(""); else if (!rest.empty()) {d = rest; rest.clear();} else {s->expect = b; d = frame(b); if (k == "hbmsg") d = frame("") + d; else if (k == "part") {rest = d.substr(1); d.resize(1);}}
			if (!t.reading()) bad = "not reading";
			for (size_t n = 0; !d.empty() && t.reading(); d.erase(0, n)) {n = t.feed(d.data(), d.size()); poll();}
			if (!d.empty()) bad = "not reading any more";
		}
		poll();
		if (!s->is_connected()) rest.clear();
		json j; std::vector<std::string> lg; for (auto& x : s->log) lg.push_back("\"" + x + "\"");
		j.raw("log", jarr(lg)).raw("sent", jarr(sent)).b("ret", ret).b("on", s->is_timer(sock::TIMER_HEARTBEAT_CHECK)).b("conn", s->is_connected()).b("writing", t.writing()).b("connecting", t.connecting());
		if (!s->bad.empty()) bad = s->bad;
		if (!bad.empty()) j.str("bad", bad);
		return j.done();
	}
};
int main(int argc, char** argv) {
	POLICY = argc > 1 ? atoi(argv[1]) : 0;
	world w; std::string line;
	while (std::getline(std::cin, line)) if (line == "reset") {w.reset(); answer("{}");} else answer(w.command(line));
	return 0;
}
