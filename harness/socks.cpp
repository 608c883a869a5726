// the client of a SOCKS4 (default) or SOCKS5 proxy over the mock transport: every byte it sends and every reply it gets is under the driver's control
#define ST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION 1
#include "quiet.h"
#include "vtime.h"
#include <ext/tcp.h>
#include "mock.h"
#include "cmd.h"
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
#ifdef SOCKS5
typedef st_asio_wrapper::tcp::proxy::socks5::client_socket_base<packer<>, unpacker<>, i_matrix, mock_socket> base;
#else
typedef st_asio_wrapper::tcp::proxy::socks4::client_socket_base<packer<>, unpacker<>, i_matrix, mock_socket> base;
#endif
struct sock : public base {
	std::vector<std::string> log; bool closed; std::string bad;
	sock(boost::asio::io_context& io) : base(io), closed(false) {}
	void on_connect() {if (closed) bad = "connected after the link was closed"; log.push_back("connect");}
	void on_close() {if (closed) bad = "closed twice"; closed = true; log.push_back("close"); base::on_close();}
	bool on_msg_handle(std::string& m) {log.push_back("msg"); if (m != "7") bad = "a message was changed"; return true;}
	int prepare_reconnect(const boost::system::error_code&) {return 20;}
	bool do_start() {closed = false; return base::do_start();}
};
struct world {
	service_pump sp; boost::asio::io_context& io; boost::asio::executor_work_guard<boost::asio::io_context::executor_type> w; boost::shared_ptr<sock> s; bool relevant;
	world() : io(sp.assign_io_context()), w(io.get_executor()), relevant(false) {reset();}
	void poll() {while (io.poll()) ;}
	// until nothing happens by itself any more
	void settle(long ms) {for (long i = 0; i < ms; i += 2) {poll(); auto& t = s->next_layer(); if (t.connecting() || t.writing() || (t.reading() && s->started()) || (s->closed && !s->started() && !s->is_reconnect())) break; vt_us += 2000;} poll();}
	void reset() {
		if (s) {s->set_reconnect(false); s->next_layer().close(); s->force_shutdown(); for (int i = 0; i < 30; ++i) {poll(); vt_us += 100000;} poll();}
		s = boost::make_shared<sock>(boost::ref(io)); s->set_server_addr(1080, "127.0.0.1"); s->set_reconnect(true);
	}
	void say(const std::string& d) { // a segment arrives
		auto& t = s->next_layer(); size_t at = 0;
		while (at < d.size() && t.reading()) {at += t.feed(d.data() + at, d.size() - at); poll();}
	}
	static std::string bytes(std::istringstream& is, int n) {std::string r; for (int i = 0, x; i < n && is >> x; ++i) r += (char) x; return r;}
	std::string command(const std::string& line) {
		std::istringstream is(line); std::string k; is >> k; std::string bad; bool ret = true; long wait = 400;
		s->log.clear(); s->bad.clear(); auto& t = s->next_layer();
		if (k == "start") s->start();
		else if (k == "target") {
			std::string n; is >> n;
			ret = n == "v4" ? s->set_target_addr(0x1234, "10.1.2.254") : n == "v4b" ? s->set_target_addr(80, "192.168.255.1") : n == "v6" ? s->set_target_addr(65535, "2001:db8::ff01")
				: n == "d1" ? s->set_target_addr(1, "d") : n == "d20" ? s->set_target_addr(8080, std::string(20, 'e')) : n == "d57" ? s->set_target_addr(0x807f, std::string(57, 'f'))
				: n == "long" ? s->set_target_addr(80, std::string(300, 'g')) : n == "empty" ? s->set_target_addr(80, "") : s->set_target_addr(0, "10.1.2.3");
		}
#ifdef SOCKS5
		else if (k == "auth") ret = s->set_auth("usr", "pw");
		else if (k == "badauth") ret = s->set_auth("", "pw") || s->set_auth("usr", "") || s->set_auth(std::string(40, 'u'), std::string(40, 'p'));
#endif
		else if (k == "setrec") {int r; is >> r; s->set_reconnect(r);}
		else if (k == "connected" || k == "refused") {if (!t.connecting()) bad = "not connecting"; else t.connected(k == "connected" ? boost::system::error_code() : boost::asio::error::make_error_code(boost::asio::error::connection_refused)); poll();}
		else if (k == "drain") {int n; is >> n; if (!t.writing()) bad = "not writing"; else {t.drain(n); poll();}}
		else if (k == "werr") {if (!t.writing()) bad = "not writing"; else t.write_error(boost::asio::error::connection_reset); poll();}
		else if (k == "broken") {std::string h; is >> h; if (!t.reading()) bad = "not reading"; if (t.writing()) t.write_error(boost::asio::error::broken_pipe); t.read_error(h == "eof" ? boost::asio::error::make_error_code(boost::asio::error::eof) : boost::asio::error::make_error_code(boost::asio::error::connection_reset)); poll();}
		else if (k == "reply" || k == "msg") {int n; is >> n; std::string d = bytes(is, n); if (!t.reading()) bad = "not reading"; else say(d);}
		else if (k == "doomed") {
			int n, m; is >> n >> m; std::string a = bytes(is, n), b = bytes(is, m); if (!t.reading()) bad = "not reading"; else {say(a); if (s->is_connected()) bad = "connected with a part of a bad reply"; else say(b);}
			if (t.writing()) bad = "goes on after a bad reply";
		}
		else if (k == "force") {int r; is >> r; s->force_shutdown(r);}
		else if (k == "graceful") {int r; is >> r; s->graceful_shutdown(r); wait = 3000;}
		else if (k == "late") {
			int r, before, n; std::string how; is >> how >> r >> before >> n; std::string d = bytes(is, n); wait = 3000; if (!t.reading()) bad = "not reading";
			if (before) {if (how == "force") s->force_shutdown(r); else s->graceful_shutdown(r); poll(); say(d);}
			else {t.feed(d.data(), d.size()); if (how == "force") s->force_shutdown(r); else s->graceful_shutdown(r);}
			poll();
		}
		else if (k == "send") {const char* m = "\7\7"; s->send_msg(m, 2, true);}
		// a link which has been shut down: the rest needs time
		if (k == "graceful" || k == "late") {for (long i = 0; i < wait && (s->log.empty() || s->log.back() != "close"); i += 2) {poll(); vt_us += 2000;}}
		settle(400);
		json j; std::vector<std::string> lg; for (auto& x : s->log) lg.push_back(jq(x));
		std::vector<int> out; if (t.writing()) {std::string o(t.write_size(), 0); boost::asio::buffer_copy(boost::asio::buffer(&o[0], o.size()), t.c().wr.wbufs); for (unsigned char x : o) out.push_back(x);}
		j.raw("log", jarr(lg)).b("ret", ret).arr("out", out).b("started", s->started()).b("conn", s->is_connected()).b("connecting", t.connecting()).b("reading", t.reading()).b("rec", s->is_reconnect());
		if (t.c().overlap_rd || t.c().overlap_wr) bad = "two operations were outstanding on the transport";
		if (s->closed && !s->started() && t.is_open()) bad = "the transport is still open after the close";
		if (!s->bad.empty()) bad = s->bad;
		if (!bad.empty()) j.str("bad", bad);
		return j.done();
	}
};
int main() {
	world w; std::string line;
	while (std::getline(std::cin, line)) if (line == "reset") {w.reset(); answer("{}");} else answer(w.command(line));
	fflush(stdout); _exit(0);
}
