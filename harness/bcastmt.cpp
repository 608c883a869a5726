// several threads broadcast to the links of a server, add, remove and use them, while a service thread writes; see coop.h
#include "quiet.h"
#include "vtime.h"
#include "coop.h"
#define ST_ASIO_START_OBJECT_ID 1
#include <ext/tcp.h>
#include "mock.h"
#include "cmd.h"
#include <map>
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
struct mock_acceptor { // never asked to do anything
	typedef mock_socket::executor_type executor_type; executor_type ex;
	mock_acceptor(boost::asio::io_context& io) : ex(io.get_executor()) {}
	bool is_open() const {return false;}
	template<typename P> void open(const P&, boost::system::error_code&) {}
	template<typename O> void set_option(const O&, boost::system::error_code&) {}
	template<typename E> void bind(const E&, boost::system::error_code&) {}
	void listen(int, boost::system::error_code&) {}
	void cancel(boost::system::error_code&) {}
	void close(boost::system::error_code&) {}
	template<typename S, typename H> void async_accept(S&, const H&) {}
	struct ctx {boost::asio::execution_context& c; boost::asio::io_context& context() const {return static_cast<boost::asio::io_context&>(c);}};
	ctx get_executor() {return ctx {boost::asio::query(ex, boost::asio::execution::context)};}
};
struct family {typedef boost::asio::ip::tcp::endpoint endpoint; typedef mock_acceptor acceptor;};
typedef st_asio_wrapper::tcp::server_socket_base<packer<>, unpacker<>, st_asio_wrapper::tcp::i_server, mock_socket> base;
struct sock : public base {template<typename A> sock(A& a) : base(a) {}};
typedef st_asio_wrapper::tcp::generic_server<sock, family> keeper0;
typedef boost::shared_ptr<sock> ptr;
struct keeper : public keeper0 {
	keeper(service_pump& sp) : keeper0(sp) {}
	bool init() {return true;}
	void uninit() {}
	ptr make() {return keeper0::create_object();}
	bool put(ptr const& p) {return keeper0::add_socket(p);}
};
static std::vector<std::string> EV;
static const int N = 4;
// <seed> <live at first> <buffers are small> ; ops of thread 1 ; ... (op object message)
static std::string run(service_pump& sp, boost::asio::io_context& io, const std::string& line) {
	EV.clear(); std::istringstream is(line); unsigned seed; int nl, small; is >> seed >> nl >> small; std::string part; std::getline(is, part, ';');
	std::vector<std::string> parts; while (std::getline(is, part, ';')) parts.push_back(part);
	std::string bad; bool ended; std::vector<int> lv; std::vector<std::string> fin;
	{
	keeper k(sp); std::vector<ptr> o(1); std::vector<std::string> bytes(N + 1);
	for (int i = 1; i <= N; ++i) {
		o.push_back(k.make()); mock_socket& t = o[i]->next_layer(); t.force_open(); if (small && i <= nl) o[i]->send_buf_size(15);
		t.on_write = [&, i] {auto& b = o[i]->next_layer().c().wr.wbufs; size_t s = boost::asio::buffer_size(b), at = bytes[i].size(); bytes[i].resize(at + s); boost::asio::buffer_copy(boost::asio::buffer(&bytes[i][at], s), b);};
	}
	for (int i = 1; i <= nl; ++i) {k.put(o[i]); lv.push_back(i);}
	while (io.poll()) ;
	{
		coop c(seed); bool stop = false; size_t left = parts.size();
		for (size_t t = 0; t < parts.size(); ++t)
			c.add("t" + std::to_string(t + 1), [&, t] {
				std::istringstream ps(parts[t]); std::string op; int x, m, r = 1;
				while (ps >> op >> x >> m) {
					std::string who = "\"t\":" + std::to_string(t + 1); char b[16]; snprintf(b, sizeof b, "m%07d", m); const std::string s(b);
					bool bc = op != "add" && op != "del" && op != "send";
					EV.push_back("{\"e\":\"call\"," + who + ",\"op\":" + jq(bc ? "bc" : op) + ",\"x\":" + std::to_string(x) + ",\"m\":" + std::to_string(m) + "}");
					try {
					if (op == "add") r = k.put(o[x]); else if (op == "del") k.del_socket(o[x], false);
					else if (op == "send") r = o[x]->send_msg(s, true);
					else if (op == "bc") k.broadcast_msg(s, true);
					else if (op == "bcptr") k.broadcast_msg(s.data(), s.size(), true);
					else if (op == "safe") k.safe_broadcast_msg(s);
					else if (op == "safeptr") k.safe_broadcast_msg(s.data(), s.size());
					else if (op == "native") {std::string f = std::string(1, 0) + (char) 10 + s; k.broadcast_native_msg((const std::string&) f, true);}
					else {std::string f = std::string(1, 0) + (char) 10 + s; k.safe_broadcast_native_msg((const std::string&) f);}
					} catch (const std::exception& e) {bad = std::string("an exception: ") + e.what();}
					if (!r) bad = op + " failed";
					EV.push_back("{\"e\":\"ret\"," + who + "}"); c.did(); if (c.rnd(3) == 0) c.sleep(1000 * c.rnd(60));
				}
				if (--left == 0) stop = true; c.did();
			}, true);
		c.add("w", [&] {
			while (!stop) {
				bool any = io.poll_one() > 0; int i = 1 + c.rnd(N); mock_socket& t = o[i]->next_layer();
				if (!any && t.writing()) {t.drain((size_t) -1); any = true;} else if (!any) for (i = 1; i <= N && !any; ++i) if (o[i]->next_layer().writing()) {o[i]->next_layer().drain((size_t) -1); any = true;}
				if (any) c.did(); else c.rest(); c.point();
			}
		}, true);
		ended = c.run();
		if (!ended) {std::string tail; for (size_t i = EV.size() > 12 ? EV.size() - 12 : 0; i < EV.size(); ++i) tail += EV[i]; answer("{\"ev\":[],\"bad\":\"a thread waits for ever\"}"); fprintf(stderr, "%s\n", tail.c_str()); _exit(3);}
	}
	for (bool any = true; any;) {any = false; while (io.poll()) any = true; for (int i = 1; i <= N; ++i) if (o[i]->next_layer().writing()) {o[i]->next_layer().drain((size_t) -1); any = true;}}
	for (int i = 1; i <= N; ++i) {
		if (o[i]->get_pending_send_msg_size()) {sock::in_container_type can; o[i]->pop_all_pending_send_msg(can); for (auto& m : can) bytes[i] += std::string(m.data(), m.size());}
		std::vector<int> ids; for (size_t at = 0; at + 10 <= bytes[i].size(); at += 10) ids.push_back(atoi(bytes[i].substr(at + 3, 7).c_str()));
		if (bytes[i].size() % 10) bad = "bytes are missing"; json j; j.arr("x", ids); fin.push_back(j.s.substr(4));
		o[i]->next_layer().on_write = nullptr; o[i]->next_layer().close(); o[i]->force_shutdown();
	}
	for (int i = 0; i < 8; ++i) {while (io.poll()) ; vt_us += 100000;}
	o.clear(); while (io.poll()) ;
	}
	json b; b.str("e", "begin").arr("live", lv).raw("fin", jarr(fin)); EV.insert(EV.begin(), b.done()); EV.push_back("{\"e\":\"rest\"}");
	json j; j.raw("ev", jarr(EV)); if (!bad.empty()) j.str("bad", bad);
	return j.done();
}
static service_pump* pump; static boost::asio::io_context* ctx;
static void drive() {std::string line; while (std::getline(std::cin, line)) answer(run(*pump, *ctx, line)); fflush(stdout); _exit(0);}
int main() {
	service_pump sp; pump = &sp; ctx = &sp.assign_io_context();
	boost::asio::post(*ctx, drive);
	sp.run_service(1); // links only start while the pump runs
	return 1;
}
