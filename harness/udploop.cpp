// real datagram sockets (UDP over the loopback network or unix domain, connected or not) in a service with several threads: many threads send to each other,
// handlers refuse
#define ST_ASIO_MSG_HANDLING_INTERVAL 4
#define ST_ASIO_MSG_RESUMING_INTERVAL 5
#include "quiet.h"
#include <ext/udp.h>
#include "cmd.h"
#include <unistd.h>
#include <atomic>
#include <map>
#include <mutex>
#include <thread>
#include <random>
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
#ifdef UNIX
typedef st_asio_wrapper::ext::udp::unix_socket base; typedef boost::asio::local::datagram_protocol::endpoint endpoint;
#else
typedef st_asio_wrapper::ext::udp::socket base; typedef boost::asio::ip::udp::endpoint endpoint;
#endif
static std::mutex EVM; static std::map<int, std::vector<std::string>> EV; static std::string BAD;
static std::map<std::string, long> arg; static std::vector<endpoint> ADDR; static std::atomic<long> flying[8], sent(0), got(0), busy(0);
static void ev(int d, const std::string& s) {std::lock_guard<std::mutex> l(EVM); EV[d].push_back(s);}
static void bad(const std::string& s) {std::lock_guard<std::mutex> l(EVM); if (BAD.empty()) BAD = s;}
static std::string big(int n, size_t len) {std::string s; for (unsigned v = n; s.size() < len; v = v * 1103515245 + 12345) s += (char) ('a' + (v >> 16) % 26); return s;}
struct sock : public base {
	int me; std::mt19937 rnd; std::string stuck;
	sock(i_matrix& m) : base(m), me(-1), rnd(1) {}
	template<typename M> void take(M& m, bool ok) {
		std::string s(m.data(), m.size()); int from, to, th, n; size_t len; int used = 0;
		if (sscanf(s.c_str(), "<%d %d %d %d %zu>%n", &from, &to, &th, &n, &len, &used) != 5 || s.size() != used + len || s.substr(used) != big(n, len)) {bad("a datagram was changed: " + s.substr(0, 40)); return;}
		if (to != me) bad("a datagram for " + std::to_string(to) + " was received by " + std::to_string(me));
		if (!(m.peer_addr == ADDR[from])) bad("a datagram of " + std::to_string(from) + " came with the address " + endpoint_to_string(m.peer_addr));
		ev(from * 8 + me, "{\"e\":\"recv\",\"g\":1,\"first\":true,\"s\":" + std::to_string(th) + ",\"n\":" + std::to_string(n) + ",\"ok\":" + (ok ? "true}" : "false}"));
		if (ok) {++got; --flying[me];}
	}
	bool refuse() {return rnd() % 100 < (unsigned long) arg["refuse"];}
#ifdef ST_ASIO_SYNC_DISPATCH
	size_t on_msg(list<base::out_msg_type>& can) {for (auto& m : can) take(m, true); can.clear(); return 1;}
#endif
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
	size_t on_msg_handle(out_queue_type& q) {
		out_container_type c; q.swap(c); size_t n = 0; if (busy++) {}
		if (!refuse()) {for (; !c.empty(); ++n) {take(c.front(), true); c.pop_front(); if (rnd() % 4 == 0) {++n; break;}}}
		--busy; size_t x = 0; q.move_items_in_front(c, x); return n;
	}
#else
	bool on_msg_handle(base::out_msg_type& m) {bool ok = !refuse(); take(m, ok); return ok;}
#endif
};
typedef st_asio_wrapper::udp::multi_socket_service_base<sock> service;
static endpoint addr(int i) {
#ifdef UNIX
	return endpoint("/tmp/vudp." + std::to_string(getpid()) + "." + std::to_string(i));
#else
	static std::vector<unsigned short> ports;
	while ((int) ports.size() <= i) {boost::asio::io_context io; boost::asio::ip::udp::socket s(io, boost::asio::ip::udp::endpoint(boost::asio::ip::make_address("127.0.0.1"), 0)); unsigned short p = s.local_endpoint().port(); if (std::find(ports.begin(), ports.end(), p) == ports.end()) ports.push_back(p);}
	return endpoint(boost::asio::ip::make_address("127.0.0.1"), ports[i]);
#endif
}
int main(int argc, char** argv) {
	for (int i = 1; i < argc; ++i) {char k[32]; long v; if (sscanf(argv[i], "%31[^=]=%ld", k, &v) == 2) arg[k] = v;}
	int ns = arg["socks"]; bool conn = arg["conn"]; if (conn) ns = 2;
	std::mt19937 rnd(arg["seed"]);
	for (int i = 0; i < ns; ++i) {ADDR.push_back(addr(i)); flying[i] = 0;
#ifdef UNIX
		unlink(ADDR[i].path().data());
#endif
	}
	service_pump sp; service srv(sp); std::vector<boost::shared_ptr<sock>> ss;
	sp.start_service(arg["threads"]);
	for (int i = 0; i < ns; ++i) {
		auto s = srv.create_object(); s->me = i; s->rnd.seed(arg["seed"] * 10 + i);
#ifdef UNIX
		s->set_local_addr(ADDR[i].path()); s->set_peer_addr(ADDR[(i + 1) % ns].path());
#else
		s->set_local_addr(ADDR[i].port(), "127.0.0.1"); s->set_peer_addr(ADDR[(i + 1) % ns].port(), "127.0.0.1");
#endif
		ss.push_back(s);
	}
	if (conn) {
#ifdef UNIX
		boost::system::error_code ec; // the peer of a connected unix socket must exist
		for (int i = 0; i < ns; ++i) {ss[i]->lowest_layer().open(ADDR[i].protocol(), ec); ss[i]->lowest_layer().bind(ADDR[i], ec);}
#endif
		for (auto& s : ss) s->set_connect_mode();
	}
	for (auto& s : ss) if (!srv.add_socket(s)) bad("a socket was not added");
	// while the first one is being connected, the other's port is not open yet; nothing is sent before both are there
	std::vector<std::thread> ts;
	for (int i = 0; i < ns; ++i) for (int t = 1; t <= arg["senders"]; ++t) {
		unsigned seed = rnd();
		ts.emplace_back([i, t, ns, seed, conn, &ss] {
			std::mt19937 r(seed); std::map<int, int> n;
			for (long k = 0; k < arg["per"]; ++k) {
				int to = (i + 1 + r() % (ns - 1)) % ns; size_t len = r() % 20 == 0 ? 3900 : r() % 5 == 0 ? r() % 900 : r() % 30;
				while (flying[to] >= 20) std::this_thread::sleep_for(std::chrono::microseconds(200)); // the kernel's buffers are small
				++flying[to];
				int no = n[to] + 1; std::string b = "<" + std::to_string(i) + " " + std::to_string(to) + " " + std::to_string(t) + " " + std::to_string(no) + " " + std::to_string(len) + ">" + big(no, len);
				ev(i * 8 + to, "{\"e\":\"call\",\"s\":" + std::to_string(t) + ",\"n\":" + std::to_string(no) + "}");
				bool dflt = to == (i + 1) % ns && r() % 2, ovf = r() % 2, ok; const char* ps[2] = {b.data(), b.data() + 5}; size_t ls[2] = {5, b.size() - 5};
				switch (r() % 3) {
				case 0: ok = dflt ? ss[i]->send_native_msg(b, ovf) : ss[i]->send_native_msg(ADDR[to], b, ovf); break;
				case 1: ok = dflt ? ss[i]->safe_send_native_msg(ps, ls, 2, ovf) : ss[i]->safe_send_native_msg(ADDR[to], ps, ls, 2, ovf); break;
				default: ok = dflt ? ss[i]->safe_send_native_msg(b.data(), b.size(), ovf) : ss[i]->send_native_msg(ADDR[to], b.data(), b.size(), ovf);
				}
				if (ok) {n[to] = no; ++sent;} else --flying[to];
				ev(i * 8 + to, "{\"e\":\"ret\",\"s\":" + std::to_string(t) + ",\"n\":" + std::to_string(no) + ",\"ok\":" + (ok ? "true}" : "false}"));
				if (r() % 4 == 0) std::this_thread::sleep_for(std::chrono::microseconds(r() % 300));
			}
		});
	}
	for (auto& t : ts) t.join();
	for (int i = 0; i < 3000 && got < sent; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10));
	std::this_thread::sleep_for(std::chrono::milliseconds(20)); // whatever comes twice
	sp.stop_service();
#ifdef UNIX
	for (auto& a : ADDR) unlink(a.path().data());
#endif
	if (!BAD.empty()) {json j; j.str("bad", BAD); printf("%s\n", j.done().c_str());}
	for (auto& d : EV) {json j; j.num("d", d.first).raw("ev", jarr(d.second)); printf("%s\n", j.done().c_str());}
	fflush(stdout); _exit(0);
}
