// threads which send and receive synchronously on one link, workers which run its strands, and a world which moves the bytes; see coop.h
#define ST_ASIO_SYNC_SEND
#define ST_ASIO_SYNC_RECV
#include "quiet.h"
#include "vtime.h"
#include "coop.h"
#include <ext/tcp.h>
#include "mock.h"
#include "cmd.h"
#include "dummy.h"
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
struct dummy_matrix : public st_asio_wrapper::i_matrix {
	service_pump& sp; dummy_matrix(service_pump& s) : sp(s) {}
	bool started() const {return true;}
	service_pump& get_service_pump() {return sp;}
	const service_pump& get_service_pump() const {return sp;}
	bool socket_exist(boost::uint_fast64_t) {return false;}
	boost::shared_ptr<tracked_executor> find_socket(boost::uint_fast64_t) {return boost::shared_ptr<tracked_executor>();}
	bool del_socket(boost::uint_fast64_t) {return true;}
};
#ifdef CLIENT
typedef st_asio_wrapper::tcp::client_socket_base<packer<>, unpacker<>, dummy_matrix, mock_socket> base;
typedef dummy_matrix keeper;
#else
typedef st_asio_wrapper::tcp::server_socket_base<packer<>, unpacker<>, dummy_server, mock_socket> base;
typedef dummy_server keeper;
#endif
static std::vector<std::string> EV; static coop* C = nullptr;
static long long T0;
static void ev(json& j) {j.num("t", vt_us - T0); EV.push_back(j.done());}
static void ev(const std::string& e) {json j; j.str("e", e); ev(j);}
static void ev(const std::string& e, const std::vector<int>& ids) {json j; j.str("e", e); j.arr("ids", ids); ev(j);}
static std::vector<int> ids_of(std::string& acc) {std::vector<int> r; while (acc.size() >= 6) {r.push_back(atoi(acc.substr(2, 4).c_str())); acc.erase(0, 6);} return r;}
template<typename L> static std::vector<int> ids_in(const L& can) {std::string s; std::vector<int> r; for (auto& m : can) s.append(m.data(), m.size()); while (s.size() >= 6) {r.push_back(atoi(s.substr(2, 4).c_str())); s.erase(0, 6);} return r;}
static std::string num4(int i) {char b[8]; snprintf(b, sizeof b, "%04d", i); return b;}
static std::string wire(int i) {return std::string("\0\6", 2) + num4(i);}
struct sock : public base {
	bool again = true;
	sock(keeper& k) : base(k) {}
	static std::vector<int> bodies(const list<std::string>& can) {std::vector<int> r; for (auto& m : can) r.push_back(atoi(m.c_str())); return r;}
#ifdef ST_ASIO_SYNC_DISPATCH
	size_t on_msg(list<std::string>& can) {
		if (can.empty()) return 1;
		size_t n = C ? 1 + C->rnd((unsigned) can.size()) : can.size(); list<std::string> some; some.splice(some.end(), can, can.begin(), std::next(can.begin(), n)); ev("msg", bodies(some)); return n;
	}
#endif
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
	size_t on_msg_handle(out_queue_type& can) {out_container_type some; can.move_items_out(some); std::vector<int> ids; for (auto& m : some) ids.push_back(atoi(m.c_str())); ev("msg", ids); return ids.size();}
#else
	bool on_msg_handle(std::string& m) {ev("msg", std::vector<int>(1, m.empty() ? -1 : atoi(m.c_str())));
#ifdef ST_ASIO_PASSIVE_RECV
		recv_msg();
#endif
		return true;}
#endif
	#ifdef CLIENT
	void on_connect() {ev("up"); base::on_connect();}
#endif
	void on_close() {ev("closed"); base::on_close();}
	void on_recv_error(const boost::system::error_code& ec) {base::on_recv_error(ec);}
#ifdef ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY
	void on_msg_send(in_container_type& can) {if (C) ev("told", ids_in(can));}
#endif
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
	void on_msg_discard(in_container_type& can) {ev("gone", ids_in(can));}
#endif
#ifdef CLIENT
	int prepare_reconnect(const boost::system::error_code&) {return again ? 20 : -1;}
#endif
};
static std::string run(unsigned seed, const std::string& kind) {
	EV.clear(); T0 = vt_us;
	bool sends = kind != "recv", recvs = kind != "send";
	service_pump sp; keeper kp(sp); boost::asio::io_context& io = sp.assign_io_context(); auto w = boost::asio::make_work_guard(io); io.poll();
	auto s = boost::make_shared<sock>(boost::ref(kp)); auto& nl = s->next_layer(); std::string acc, bad;
	nl.on_write = [&] {
		auto d = nl.c().wr.done; auto& b = nl.c().wr.wbufs; std::string x(boost::asio::buffer_size(b), 0); boost::asio::buffer_copy(boost::asio::buffer(&x[0], x.size()), b);
		nl.c().wr.done = [&, d, x](const boost::system::error_code& ec, size_t n) {if (!ec) {acc += x; ev("written", ids_of(acc));} else acc.clear(); d(ec, n);};
	};
	bool ended;
	{
	coop c(seed); C = &c; bool stop = false, broken = false; std::vector<coop::task*> callers; std::map<coop::task*, int> in_recv; int serial = 1000, fserial = 5000; std::string half;
	unsigned small = c.rnd(4) == 0; if (small) s->send_buf_size(12);
	unsigned pops = c.rnd(3) == 0; unsigned n = 1 + c.rnd(3); bool mix = c.rnd(2);
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
	pops = 1;
#endif
#ifndef CLIENT
	nl.force_open();
#endif
	bool early = c.rnd(4) == 0;
#ifdef CLIENT
	bool was = false;
#endif
	auto begin = [&] {
		s->start();
#ifndef CLIENT
		ev("up");
#endif
	};
	if (!early) {
		begin();
#ifdef CLIENT
		was = true;
#endif
		while (io.poll()) ;
	}
	for (unsigned i = 0; i < n; ++i)
		callers.push_back(c.add("c" + std::to_string(i), [&, i] {
			coop::task* me = coop::me();
			for (unsigned k = 1 + c.rnd(3); k > 0; --k) {
				unsigned d = c.rnd(3) == 0 ? 30 + 40 * c.rnd(2) : 0;
				if (recvs && (!sends || c.rnd(2))) {
					int dup = 0; for (auto& r : in_recv) if (r.second && r.first != me && c.blocked(r.first) && nl.reading()) dup = 1;
					{json j; j.str("e", "call"); j.str("k", "recv"); j.num("c", i); j.num("dur", d * 1000LL); j.num("dup", dup); j.arr("ids", std::vector<int>()); j.b("over", true); ev(j);}
					list<std::string> can; std::string r;
					in_recv[me] = 1;
					try {sync_call_result re = s->sync_recv_msg(can, d); r = SUCCESS == re ? "S" : TIMEOUT == re ? "T" : DUPLICATE == re ? "D" : "N";} catch (...) {r = "X";}
					in_recv[me] = 0;
					std::vector<int> ids; for (auto& m : can) ids.push_back(atoi(m.c_str()));
					{json j; j.str("e", "ret"); j.num("c", i); j.str("r", r); j.arr("ids", ids); ev(j);}
				}
				else {
					int a = serial++; std::vector<int> ids(1, a); unsigned f = c.rnd(8); bool over = c.rnd(2), prior = c.rnd(4) == 0, safe = f == 6, async = false;
					if (f == 5 && (pops || prior)) f = 0;
					
					if (f == 5) ids.push_back(serial++);
					if (f == 7) async = mix;
					{json j; j.str("e", "call"); j.str("k", async ? "async" : "send"); j.num("c", i); j.num("dur", d * 1000LL); j.num("dup", 0); j.arr("ids", ids); j.b("over", over); ev(j);}
					std::string r = "?", m = wire(a); sync_call_result re = SUCCESS; bool ok = true;
					try {
						switch (f) {
						case 0: re = s->direct_sync_send_msg((const std::string&) m, d, over, prior); break;
						case 1: re = s->direct_sync_send_msg(m, d, over, prior); break;
						case 2: re = s->sync_send_native_msg(m.data(), m.size(), d, over, prior); break;
						case 3: re = s->sync_send_msg(num4(a).data(), 4, d, over, prior); break;
						case 4: {std::string b = num4(a); re = s->sync_send_native_msg((const std::string&) m, d, over, prior); break;}
						case 5: {list<std::string> can; can.push_back(m); can.push_back(wire(a + 1)); re = s->direct_sync_send_msg(can, d, over, prior); break;}
						case 6: {std::string b = num4(a); re = s->sync_safe_send_native_msg(m, d, over, prior); break;}
						default: if (async) ok = s->direct_send_msg(m, over, prior); else re = s->direct_sync_send_msg((const std::string&) m, d, over, prior); break;
						}
						r = async ? (ok ? "A" : "N") : SUCCESS == re ? "S" : TIMEOUT == re ? "T" : DUPLICATE == re ? "D" : "N";
					} catch (...) {r = "X";}
					{json j; j.str("e", "ret"); j.num("c", i); j.str("r", r); j.arr("ids", std::vector<int>()); ev(j);}
				}
				c.did(); if (c.rnd(3) == 0) c.sleep(1000 * c.rnd(40));
			}
		}, true));
	for (unsigned i = 1 + c.rnd(2); i > 0; --i)
		c.add("w", [&] {while (!stop) {if (io.poll_one()) c.did(); else c.rest(); c.point();}});
	c.add("world", [&] {
		auto feed = [&](std::string x, const std::vector<int>& ids) {
			std::lock_guard<std::recursive_mutex> lk(nl.m()); if (!nl.reading()) {half.clear(); return;} // has just been aborted
			int wt = -1; for (size_t i = 0; i < callers.size(); ++i) if (in_recv[callers[i]] && c.blocked(callers[i])) wt = (int) i;
			{json j; j.str("e", "feed"); j.arr("ids", ids); j.num("w", wt); ev(j);}
			nl.feed(x.data(), x.size()); c.did();
		};
		std::function<bool(unsigned)> act = [&](unsigned k) {
			switch (k) {
			case 0: case 1: if (nl.writing()) {nl.drain((size_t) -1); c.did(); return true;} break;
			case 2: case 3: if (recvs && nl.reading()) {
				std::string x = half.empty() ? "" : half; std::vector<int> ids; if (!half.empty()) {ids.push_back(fserial++); half.clear();}
				for (unsigned i = c.rnd(3); i > 0 || x.empty(); i -= i > 0) {x += wire(fserial); ids.push_back(fserial++);}
				if (nl.read_room() < x.size()) x.resize(x.size()); // there is always room: messages are tiny
				feed(x, ids); return true;
			} break;
			case 4: if (recvs && nl.reading() && half.empty()) {std::string x = wire(fserial); half = x.substr(3); feed(x.substr(0, 3), std::vector<int>()); return true;} break;
			case 5: if (pops && sends) {sock::in_msg m; s->pop_first_pending_send_msg(m); std::string t(m.data(), m.size()); ev("gone", ids_of(t)); c.did();} break;
			case 6: if (pops && sends) {sock::in_container_type can; s->pop_all_pending_send_msg(can); ev("gone", ids_in(can)); c.did();} break;
#ifdef CLIENT
			case 7: if (nl.connecting()) {half.clear(); bool ok = c.rnd(4) != 0; if (ok) broken = false; nl.connected(ok ? boost::system::error_code() : boost::asio::error::connection_refused); c.did(); return true;} break;
			case 8: if (!nl.reading()) return act(9); ev("break"); broken = true; nl.write_error(boost::asio::error::connection_reset); nl.read_error(boost::asio::error::eof); c.did(); break;
			case 9: ev("break"); broken = true; s->force_shutdown(c.rnd(2)); c.did(); break;
#else
			case 8: if (!nl.reading()) return act(9); ev("break"); broken = true; nl.write_error(boost::asio::error::connection_reset); nl.read_error(boost::asio::error::eof); c.did(); break;
			case 9: ev("break"); broken = true; s->force_shutdown(); c.did(); break;
			case 10: ev("break"); broken = true; s->graceful_shutdown(); c.did(); break;
#endif
			default: break;
			}
			return false;
		};
		if (early) {c.sleep(1000 * c.rnd(50)); begin(); c.did();}
		unsigned brk = c.rnd(3) == 0; bool quick = c.rnd(3) == 0;
		if (quick) {for (unsigned k = c.rnd(80); k > 0; --k) c.point(true); act(8 + c.rnd(2));} // right into the first calls
		for (unsigned k = c.rnd(quick ? 6 : 24); k > 0; --k) {
			unsigned a = c.rnd(11); if (a >= 8 && !(brk && c.rnd(3) == 0)) a -= 8;
			act(a); c.point(true);
			unsigned z = c.rnd(6); if (z == 0) c.sleep(1000 * c.rnd(40)); else if (z == 1) c.rest(); else if (z == 2) c.settle();
		}
		for (int i = 0; i < 40; ++i) { // everything which is possible happens
			c.settle();
			if (!half.empty() && nl.reading() && recvs) act(2); else if (nl.writing()) act(0);
#ifdef CLIENT
			else if (nl.connecting()) {half.clear(); broken = false; nl.connected(boost::system::error_code()); c.did();}
#endif
			else c.sleep(10000);
		}
		c.settle();
		{
			std::vector<int> b; for (size_t i = 0; i < callers.size(); ++i) if (c.blocked(callers[i])) b.push_back((int) i);
			json j; j.str("e", "quiet"); j.arr("ids", b); j.b("ready", s->is_ready() && !nl.writing()); j.num("pend", (long long) s->get_pending_send_msg_size()); ev(j);
		}
		for (int i = 0; i < 4; ++i) { // callers which come later are woken up, too
			ev("break");
#ifdef CLIENT
			s->set_reconnect(false); s->again = false; if (nl.connecting()) nl.connected(boost::asio::error::connection_refused);
#endif
			s->force_shutdown(); c.did(); c.sleep(100000);
		}
	}, true);
	ended = c.run(); ev(ended ? "end" : "hang");
	stop = true;
	if (!ended) { // the hanging threads can't be ended
		json j; j.raw("ev", jarr(EV)); answer(j.done()); _exit(0);
	}
	for (;;) {bool left = false; ++c.progress; for (auto& t : c.all) if (!t->done) {left = true; t->essential = true;} if (!left) break; if (!c.run()) break;}
	}
	C = nullptr;
	nl.on_write = nullptr; nl.close();
#ifdef CLIENT
	s->set_reconnect(false); s->again = false;
#endif
	s->force_shutdown(); for (int i = 0; i < 8; ++i) {while (io.poll()) ; vt_us += 100000;}
	json j; j.raw("ev", jarr(EV)); if (!bad.empty()) j.str("bad", bad);
	return j.done();
}
int main() {
	std::string line;
	while (std::getline(std::cin, line)) {std::istringstream is(line); unsigned seed; std::string kind; is >> seed >> kind; answer(run(seed, kind));}
	_exit(0);
}
