// the whole life of one client or server socket over the mock transport
#define ST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION 1
#include "quiet.h"
#include "vtime.h"
#include <ext/tcp.h>
#include "mock.h"
#include "cmd.h"
#include "dummy.h"
#include <map>
#include <deque>
#if defined(ST_ASIO_DELAY_CLOSE) && ST_ASIO_DELAY_CLOSE > 0
static const bool TRACK = false; static const long MORE = ST_ASIO_DELAY_CLOSE * 1000; // a delayed close waits for nothing
#else
static const bool TRACK = true; static const long MORE = 0;
#endif
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
struct dummy_matrix : public st_asio_wrapper::i_matrix {
	service_pump& sp; long dels;
	dummy_matrix(service_pump& s) : sp(s), dels(0) {}
	bool started() const {return true;}
	service_pump& get_service_pump() {return sp;}
	const service_pump& get_service_pump() const {return sp;}
	bool socket_exist(boost::uint_fast64_t) {return false;}
	boost::shared_ptr<tracked_executor> find_socket(boost::uint_fast64_t) {return boost::shared_ptr<tracked_executor>();}
	bool del_socket(boost::uint_fast64_t) {++dels; return true;}
};
#ifdef SERVER
typedef st_asio_wrapper::tcp::server_socket_base<packer<>, unpacker<>, dummy_server, mock_socket> base;
typedef dummy_server keeper;
#else
typedef st_asio_wrapper::tcp::client_socket_base<packer<>, unpacker<>, dummy_matrix, mock_socket> base;
typedef dummy_matrix keeper;
#endif
struct sock : public base {
	std::vector<std::string> log, errs; bool closed, ever, easy; std::deque<bool> plan; std::string bad; int delay; long long asked; std::vector<std::string> got; bool inside;
	sock(keeper& k) : base(k), closed(false), ever(false), easy(true), delay(-1), asked(0), inside(false) {}
	void note(const std::string& s) {if (closed && (TRACK || s != "held")) bad = s + " after the link was closed"; log.push_back(s);}
	void on_connect() {note("connect"); ever = true; base::on_connect();}
	void on_close() {if (closed) bad = "closed twice"; note("close"); closed = true; base::on_close();}
	void after_close() {base::after_close();}
	void on_recv_error(const boost::system::error_code& ec) {note("recv_error"); base::on_recv_error(ec);}
	void on_unpack_error() {note("unpack_error"); base::on_unpack_error();}
	void on_send_error(const boost::system::error_code& ec, in_container_type& can) {note("send_error"); for (auto& m : can) errs.push_back(std::string(m.data(), m.size())); base::on_send_error(ec, can);}
	void on_async_shutdown_error() {note("timeout"); base::on_async_shutdown_error();}
	bool on_msg_handle(std::string& m) {bool ok = plan.empty() ? true : plan.front(); if (!plan.empty()) plan.pop_front(); note(ok ? "msg" : "offer"); got.push_back(m); return ok;}
#ifndef SERVER
	int prepare_reconnect(const boost::system::error_code&) {note("prep"); asked = vt_us; return delay;}
#endif
	bool do_start() {closed = false; return base::do_start();}
	bool user_timer() {if (closed) bad = "a timer ran after the link was closed"; if (!started()) bad = "a timer ran after the link was shut down"; return true;}
};
struct world {
	service_pump sp; keeper kp; boost::asio::io_context& io; boost::asio::executor_work_guard<boost::asio::io_context::executor_type> w;
	boost::shared_ptr<sock> s; std::map<int, std::string> body; unsigned serial; long dels0; boost::function<void(const boost::system::error_code&)> held; unsigned steps;
	int posted, ran; long long graced; std::string fed; std::vector<std::string> expect; // messages fed, in order
	world() : kp(sp), io(sp.assign_io_context()), w(io.get_executor()), serial(0), steps(0) {reset();}
	void poll() {while (io.poll()) ;}
	void pass(long ms) {vt_us += ms * 1000; poll();}
	void reset() {
		if (s) {
			held = 0; s->plan.clear();
#ifndef SERVER
			s->set_reconnect(false);
#endif
			s->next_layer().close(); s->force_shutdown(); for (int i = 0; i < 8 + MORE / 100; ++i) {poll(); vt_us += 100000;} poll();
		}
		s = boost::make_shared<sock>(boost::ref(kp)); s->next_layer().force_open();
#ifndef SERVER
		s->next_layer().close(); s->set_local_addr(1234);
#endif
		s->msg_handling_interval(20);
		body.clear(); dels0 = kp.dels; posted = ran = 0; graced = 0; fed.clear(); expect.clear(); s->got.clear();
	}
	int id_of(const std::string& b) {for (auto& x : body) if (x.second == b) return x.first; return -1;}
	std::string frame(const std::string& b) {size_t n = b.size() + 2; return std::string(1, (char) (n >> 8)) + (char) n + b;}
	void extras() { // calls of the application around the operation
		++steps;
		if (s->started() && steps % 3 == 0) {++posted; boost::shared_ptr<sock> p = s; sock* r = s.get(); s->post([this, r] {++ran; if (r->closed && TRACK) r->bad = "a posted call ran after the link was closed";});}
		if (s->started() && steps % 2 == 0) s->set_timer(sock::TIMER_END + 1, 7, boost::bind(&sock::user_timer, s.get()));
	}
	std::string command(const std::string& line) {
		std::istringstream is(line); std::string k; is >> k; std::string bad; std::vector<int> sent; long took = -1;
		s->log.clear(); s->errs.clear(); s->bad.clear(); s->plan.clear();
		auto& t = s->next_layer();
		extras();
		if (k == "start") {
#ifdef SERVER
			if (!t.is_open()) t.force_open();
#endif
			s->start();
		}
		else if (k == "recycle") {s->reset(); s->closed = false; s->got.clear(); expect.clear(); dels0 = kp.dels;}
		else if (k == "force" || k == "graceful" || k == "setrec") {
			int r; is >> r; if (k == "graceful" && s->is_connected()) graced = vt_us;
#ifdef SERVER
			if (k == "force") {if (steps % 2) s->force_shutdown(); else s->disconnect();} else s->graceful_shutdown();
			if (steps % 3 == 0) {if (k == "force") s->force_shutdown(); else s->graceful_shutdown();}
#else
			if (k == "force") {if (steps % 2) s->force_shutdown(r); else s->disconnect(r);} else if (k == "graceful") s->graceful_shutdown(r); else s->set_reconnect(r);
#endif
		}
		else if (k == "connected" || k == "refused") {if (!t.connecting()) bad = "not connecting"; else t.connected(k == "connected" ? boost::system::error_code() : boost::asio::error::make_error_code(boost::asio::error::connection_refused));}
		else if (k == "broken") {std::string h; is >> h; if (!t.reading()) bad = "not reading"; if (t.writing()) t.write_error(boost::asio::error::broken_pipe); t.read_error(h == "eof" ? boost::asio::error::make_error_code(boost::asio::error::eof) : boost::asio::error::make_error_code(boost::asio::error::connection_reset));}
		else if (k == "bad") {if (!t.reading()) bad = "not reading"; else t.feed("\xff\xff", 2);}
		else if (k == "msg") {
			int ok; is >> ok; s->plan.push_back(ok); std::string f = fed.empty() ? frame("in" + std::to_string(++serial)) : fed;
			if (fed.empty()) expect.push_back(f.substr(2)); else {expect.push_back(f.substr(2)); f.erase(0, 3);}
			fed.clear();
			if (!t.reading()) bad = "not reading"; else t.feed(f.data(), f.size());
		}
		else if (k == "half") {fed = frame("in" + std::to_string(++serial)); if (!t.reading()) bad = "not reading"; else t.feed(fed.data(), 3);}
		else if (k == "send") {int id; is >> id; std::string b = "out" + std::to_string(++serial); body[id] = frame(b); std::string m = body[id]; s->send_native_msg(m, true);}
		else if (k == "drain") {
			if (!t.writing()) bad = "not writing";
			else {std::string d = t.drain((size_t) -1); while (!d.empty()) {bool hit = false; for (auto& x : body) if (d.compare(0, x.second.size(), x.second) == 0) {sent.push_back(x.first); d.erase(0, x.second.size()); hit = true; break;} if (!hit) {bad = "unknown bytes were written"; break;}}}
		}
		else if (k == "werr") {if (!t.writing()) bad = "not writing"; else t.write_error(boost::asio::error::connection_reset);}
		else if (k == "race") {
			std::string io, call; int r, first; is >> io >> call >> r >> first;
			auto complete = [&] {
				if (io == "ok" || io == "refused") {if (!t.connecting()) bad = "not connecting"; else t.connected(io == "ok" ? boost::system::error_code() : boost::asio::error::make_error_code(boost::asio::error::connection_refused));}
				else if (io == "msg") {std::string f = frame("in" + std::to_string(++serial)); expect.push_back(f.substr(2)); if (!t.reading()) bad = "not reading"; else t.feed(f.data(), f.size());}
				else if (io == "eof") {if (!t.reading()) bad = "not reading"; if (t.writing()) t.write_error(boost::asio::error::broken_pipe); t.read_error(boost::asio::error::eof);}
				else if (!t.writing()) bad = "not writing";
				else if (io == "werr") t.write_error(boost::asio::error::connection_reset);
				else {std::string d = t.drain((size_t) -1); for (auto& x : body) if (d == x.second) sent.push_back(x.first); if (sent.size() != 1) bad = "unknown bytes";}
			};
			if (first) complete();
			if (call == "graceful" && s->is_connected()) graced = vt_us;
#ifdef SERVER
			call == "force" ? s->force_shutdown() : s->graceful_shutdown();
#else
			call == "force" ? s->force_shutdown(r) : s->graceful_shutdown(r);
#endif
			if (!first) complete();
		}
		else if (k == "hold") held = s->make_handler_error([this](const boost::system::error_code&) {s->note("held");});
		else if (k == "release") {auto h = held; held = 0; h(boost::system::error_code());}
		else if (k == "nobind") {int b; is >> b; t.c().fail_bind = b;}
		else if (k == "wait") {
			int d, tw; is >> d >> tw; std::string want; is >> want; s->delay = d; if (want == "retry") s->plan.push_back(d > 0);
			long long t0 = vt_us; long nb0 = t.c().nbind; long limit = want == "nothing" ? 400 + MORE : want == "timeout" ? 1500 : want == "prep" ? 400 + std::max(d, 0) : 600 + MORE;
			poll();
			for (long i = 0; i < limit; ++i) {
				bool done = want == "connect" ? t.connecting() : want == "close" ? !s->log.empty() && s->log.back() == "close" : want == "timeout" ? !s->log.empty() : want == "retry" ? !s->log.empty() : want == "prep" ? !s->log.empty() && (d < 0 ? !s->started() : t.connecting() || (t.c().fail_bind && t.c().nbind > nb0)) : want == "giveup" ? !s->started() : false;
				if (done) break;
				pass(1);
			}
			took = want == "prep" ? (vt_us - s->asked) / 1000 : (vt_us - (want == "timeout" ? graced : t0)) / 1000;
			if (tw >= 0 && want == "prep" && d >= 0 && (t.connecting() || t.c().nbind > nb0) && (took < tw || took > tw + 1)) bad = "the next connect came after " + std::to_string(took) + " ms";
			if (tw >= 0 && want == "timeout" && (took < tw * 9 / 10 || took > tw * 11 / 10)) bad = "the graceful shutdown ended after " + std::to_string(took) + " ms";
		}
		poll();
		if (!t.reading() && !fed.empty()) fed.clear(); // the rest of a frame doesn't survive the link
		json j; std::vector<std::string> lg; for (auto& x : s->log) {json q; lg.push_back("\"" + x + "\"");}
		std::vector<int> err; for (auto& e : s->errs) err.push_back(id_of(e));
		for (size_t i = 0, x = 0; i < s->got.size(); ++i) { // what was offered is what was fed, refused ones again and again
			while (x < expect.size() && expect[x] != s->got[i]) ++x;
			if (x == expect.size()) {bad = "a message was offered which was not received or out of order: " + s->got[i]; break;}
		}
		if (s->closed && t.is_open()) bad = "the transport is still open after the close";
		if (TRACK && s->closed && ran < posted) bad = "closed before a posted call has run";
		if (t.c().overlap_rd || t.c().overlap_wr) bad = "two operations were outstanding on the transport";
		bool ut = s->is_timer(sock::TIMER_END + 1);
		if (ut && !s->started()) bad = "a timer is still running";
		j.raw("log", jarr(lg)).arr("sent", sent).arr("err", err).num("dels", kp.dels - dels0); dels0 = kp.dels;
		j.b("started", s->started()).b("conn", s->is_connected()).b("connecting", t.connecting()).b("reading", t.reading()).b("writing", t.writing()).b("broken", s->is_broken()).b("obsolete", s->obsoleted());
#ifdef SERVER
		j.b("rec", false);
#else
		j.b("rec", s->is_reconnect());
#endif
		j.b("shutting", s->is_shutting_down()); j.num("tmr", s->is_timer(sock::TIMER_DELAY_CLOSE));
		if (s->is_connected() && !s->is_ready()) bad = "connected but not ready";
		if (!s->bad.empty()) bad = s->bad;
		if (!bad.empty()) j.str("bad", bad);
		return j.done();
	}
};
int main() {
	world w; std::string line;
	while (std::getline(std::cin, line)) if (line == "reset") {w.reset(); answer("{}");} else answer(w.command(line));
	return 0;
}
