// a real server and real clients over the loopback network: many threads send, handlers refuse, links break
// variants: SSL_LINK, WS_LINK (both: websocket over ssl)
#define ST_ASIO_MAX_OBJECT_NUM 256
#define ST_ASIO_DELAY_CLOSE 0
#define ST_ASIO_MSG_HANDLING_INTERVAL 4
#define ST_ASIO_RECONNECT_INTERVAL 20
#include "quiet.h"
#if defined(SSL_LINK) && defined(WS_LINK)
#include <ext/ssl_websocket.h>
namespace LK = st_asio_wrapper::ext::websocket::ssl;
#elif defined(SSL_LINK)
#include <ext/ssl.h>
namespace LK = st_asio_wrapper::ext::ssl;
#elif defined(WS_LINK)
#include <ext/websocket.h>
namespace LK = st_asio_wrapper::ext::websocket;
#else
#include <ext/tcp.h>
namespace LK = st_asio_wrapper::ext::tcp;
#endif
#include "cmd.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <unistd.h>
#include <signal.h>
#include <string.h>
#include <atomic>
#include <map>
#include <mutex>
#include <thread>
#include <random>
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
#ifdef SSL_LINK
#include "pem.h"
#endif

static std::mutex EVM; static std::map<int, std::vector<std::string>> EV; static std::atomic<long> moved(0);
static std::vector<std::string>& evs(int d) {return EV[d];}
struct dir {std::atomic<bool> cut; std::atomic<long> ret, got; std::atomic<int> busy; dir() : cut(false), ret(0), got(0), busy(0) {}};
static std::map<int, dir> D; static int next_dir = 100;
static dir& get_dir(int d) {std::lock_guard<std::mutex> l(EVM); return D[d];}
static unsigned seed, PER = 50, SENDERS = 2, REFUSE = 0, BIG = 0; static std::atomic<bool> GO(true);
static unsigned mix(unsigned a, unsigned b, unsigned c) {unsigned r = (a + 1) * 2654435761u + b * 7919 + c * 104729 + seed * 31; r ^= r >> 15; r *= 2246822519u; r ^= r >> 13; r *= 3266489917u; return r ^ (r >> 16);}
static std::string text(int d, int s, int n) {
	char b[40]; int k = snprintf(b, sizeof b, "%d %d %d|", d, s, n); std::string r(b, k);
	unsigned x = mix(d * 16 + s, n, 1), len = BIG && x % 5 == 0 ? x / 7 % 3000 : x / 7 % 40;
	for (unsigned i = 0; i < len; ++i) r += (char) (x = x * 1664525u + 1013904223u, x >> 24);
	return r;
}
static void call(int d, int s, int n) {std::lock_guard<std::mutex> l(EVM); evs(d).push_back("{\"e\":\"call\",\"s\":" + std::to_string(s) + ",\"n\":" + std::to_string(n) + "}");}
static void ret(int d, int s, int n, bool ok) {std::lock_guard<std::mutex> l(EVM); if (ok) ++D[d].ret; evs(d).push_back("{\"e\":\"ret\",\"s\":" + std::to_string(s) + ",\"n\":" + std::to_string(n) + ",\"ok\":" + (ok ? "true" : "false") + "}");}
static std::atomic<bool> broke(false);
static void recv(int g, bool first, bool ok, const char* p, size_t len) { // called with every message which reached a handler
	int d = 0, s = 0, n = 0; std::string m(p, len); bool good = true;
#ifdef WS_LINK // the boundaries of messages are those of websocket, so the head written by the packer is still there
	good = len >= 2 && (size_t) (unsigned char) p[0] * 256 + (unsigned char) p[1] == len; m.erase(0, 2);
#endif
	good = good && sscanf(m.c_str(), "%d %d %d|", &d, &s, &n) == 3 && m == text(d, s, n);
	std::lock_guard<std::mutex> l(EVM); ++moved;
	if (!good) {evs(0).push_back("{\"e\":\"corrupt\"}"); return;}
	if (ok) ++D[d].got;
	evs(d).push_back("{\"e\":\"recv\",\"s\":" + std::to_string(s) + ",\"n\":" + std::to_string(n) + ",\"g\":" + std::to_string(g) + ",\"first\":" + (first ? "true" : "false") + ",\"ok\":" + (ok ? "true" : "false") + "}");
}
// one sending thread of one direction
template<typename S> void sender(const S& s, int d, int k) {
	dir& di = get_dir(d);
	for (unsigned n = 1; n <= PER && GO && !(di.cut && d >= 100); ++n) {
		std::string m = text(d, k, n);
		for (;;) {
			if (!GO || (di.cut && d >= 100)) {--di.busy; return;}
			if (!s->is_ready()) {std::this_thread::sleep_for(std::chrono::milliseconds(1)); continue;}
			unsigned how = mix(d, k, n * 3 + 2) % 6; bool ok;
			call(d, k, n);
			switch (how) {
			case 0: ok = s->send_msg(m.data(), m.size(), true); break;
			case 1: {size_t z = m.size() + 2; std::string f = std::string(1, (char) (z >> 8)) + (char) z + m; ok = s->send_native_msg(f.data(), f.size(), false); break;} // packed by the application
			case 2: ok = s->safe_send_msg(m.data(), m.size(), false); break;
			default: ok = s->send_msg(m.data(), m.size(), false);
			}
			ret(d, k, n, ok);
			if (ok) break;
			std::this_thread::sleep_for(std::chrono::microseconds(300));
		}
	}
	--di.busy;
}
static std::mutex THM; static std::vector<std::thread> TH;
template<typename S> void start_senders(const S& s, int d) {
	get_dir(d).busy = SENDERS;
	std::lock_guard<std::mutex> l(THM);
	for (unsigned k = 1; k <= SENDERS; ++k) TH.emplace_back([s, d, k] {sender(s, d, k);});
}
template<typename Base> struct link_base : public Base {
	int g; bool first; unsigned offers;
	template<typename A> link_base(A& a) : Base(a), g(0), first(true), offers(0) {}
	template<typename A, typename B> link_base(A& a, B& b) : Base(a, b), g(0), first(true), offers(0) {}
	bool refuse() {return REFUSE && mix(g, ++offers, 77) % 100 < REFUSE;}
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	void on_all_msg_send(typename Base::in_msg_type&) {}
#endif
#ifdef ST_ASIO_SYNC_DISPATCH
	size_t on_msg(list<typename Base::out_msg_type>& can) {for (auto& m : can) recv(g, first, true, m.data(), m.size()); can.clear(); return 1;} // what it leaves behind would be dispatched later
#endif
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
	size_t on_msg_handle(typename Base::out_queue_type& q) {
		if (refuse()) return 0;
		typename Base::out_container_type can; q.move_items_out(1 + mix(g, offers, 5) % 4, can); size_t n = 0;
		for (auto& m : can) {recv(g, first, true, m.data(), m.size()); ++n;}
		return n;
	}
#else
	bool on_msg_handle(typename Base::out_msg_type& m) {bool ok = !refuse(); recv(g, first, ok, m.data(), m.size()); return ok;}
#endif
};
static std::atomic<int> gens(0), objs(0);
static std::map<int, std::vector<std::string>> LIFE; static std::map<int, int> ALIVE; // of every object
static void life(int o, const std::string& e, int alive) {std::lock_guard<std::mutex> l(EVM); ++moved; LIFE[o].push_back("{\"e\":\"" + e + "}"); ALIVE[o] = alive;}
template<typename Base> struct living : public Base { // handshakes, connect and close of an object
	int o;
	template<typename A> living(A& a) : Base(a), o(++objs) {}
	template<typename A, typename B> living(A& a, B& b) : Base(a, b), o(++objs) {}
	void hs(int stage, const boost::system::error_code& ec) {life(o, "hs\",\"n\":" + std::to_string(stage) + ",\"ok\":" + (ec ? "false" : "true"), 1);}
#if defined(SSL_LINK) && defined(WS_LINK)
	void on_ssl_handshake(const boost::system::error_code& ec) {hs(1, ec); Base::on_ssl_handshake(ec);}
	void on_handshake(const boost::system::error_code& ec) {hs(2, ec); Base::on_handshake(ec);}
#elif defined(SSL_LINK) || defined(WS_LINK)
	void on_handshake(const boost::system::error_code& ec) {hs(1, ec); Base::on_handshake(ec);}
#endif
	bool do_start() {life(o, "start\"", 1); return Base::do_start();}
	void on_connect() {life(o, "up\"", 1); Base::on_connect();}
	void on_close() {life(o, "down\"", 0); Base::on_close();}
};
struct ssock : public link_base<living<LK::server_socket> > {
	typedef link_base<living<LK::server_socket> > base; int d;
	template<typename A> ssock(A& a) : base(a), d(0) {}
	template<typename A, typename B> ssock(A& a, B& b) : base(a, b), d(0) {}
	void on_connect() {base::on_connect(); g = ++gens; first = !broke; {std::lock_guard<std::mutex> l(EVM); d = next_dir++; D[d];} start_senders(boost::static_pointer_cast<ssock>(this->shared_from_this()), d);}
	void on_close() {if (d) get_dir(d).cut = true; base::on_close();}
};
struct csock : public link_base<living<LK::client_socket> > {
	typedef link_base<living<LK::client_socket> > base; int d; std::atomic<int> ups;
	template<typename A> csock(A& a) : base(a), d(0), ups(0) {}
	template<typename A, typename B> csock(A& a, B& b) : base(a, b), d(0), ups(0) {}
	void on_connect() {base::on_connect(); ++ups;}
	int prepare_reconnect(const boost::system::error_code&) {return 20;}
};
#ifdef SSL_LINK
typedef st_asio_wrapper::ssl::server_base<ssock> server_t; typedef st_asio_wrapper::ssl::multi_client_base<csock> client_t;
#else
typedef st_asio_wrapper::tcp::server_base<ssock> server_t; typedef st_asio_wrapper::tcp::multi_client_base<csock> client_t;
#endif

int main(int argc, char** argv) {
	signal(SIGPIPE, SIG_IGN);
	std::map<std::string, unsigned> o; for (int i = 1; i < argc; ++i) {std::string a = argv[i]; size_t p = a.find('='); o[a.substr(0, p)] = atoi(a.c_str() + p + 1);}
	seed = o["seed"]; unsigned links = o["links"]; SENDERS = o["senders"]; PER = o["per"]; REFUSE = o["refuse"]; BIG = o["big"]; unsigned breaks = o["breaks"], bad = o["bad"];
	service_pump sp;
#ifdef SSL_LINK
	server_t srv(sp, boost::asio::ssl::context::tlsv12_server); client_t cl(sp, boost::asio::ssl::context::tlsv12_client);
	use_pem(srv.context());
#else
	server_t srv(sp); client_t cl(sp);
#endif
	srv.set_server_addr(0, "127.0.0.1");
	sp.start_service(o["threads"]);
	unsigned short port = srv.next_layer().local_endpoint().port();
	std::vector<client_t::object_type> cs;
	for (unsigned i = 0; i < links; ++i) {
		auto c = cl.create_object(); c->d = 1 + i; c->set_server_addr(port, "127.0.0.1"); D[1 + i];
		if (!cl.add_socket(c)) {printf("{\"e\":\"setup\"}\n"); _exit(3);}
		cs.push_back(c);
	}
	// peers which don't speak the protocol: they close at once, send garbage or close in the middle of it
	auto spoil = [](int fd, unsigned how) {
		unsigned char b[64]; for (unsigned i = 0; i < sizeof b; ++i) b[i] = mix(how, i, 9); if (how % 3 == 2) memcpy(b, "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", 11);
		if (how % 3) (void) !write(fd, b, how % 3 == 1 ? 64 : 11);
		if (how % 3 == 1) shutdown(fd, SHUT_WR), (void) !read(fd, b, 64);
		close(fd);
	};
	auto address = [](unsigned short p) {sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(p); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); return a;};
	std::vector<std::thread> spoilers; int lfd = -1;
	if (bad) {
		spoilers.emplace_back([&, bad, port] {
			for (unsigned i = 0; i < bad; ++i) {
				int fd = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a = address(port);
				if (!::connect(fd, (sockaddr*) &a, sizeof a)) spoil(fd, mix(i, 1, 1)); else close(fd);
				std::this_thread::sleep_for(std::chrono::milliseconds(1));
			}
		});
		lfd = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a = address(0); socklen_t al = sizeof a; bind(lfd, (sockaddr*) &a, sizeof a); listen(lfd, 8); getsockname(lfd, (sockaddr*) &a, &al);
		unsigned n = 1 + bad / 2; unsigned short p = ntohs(a.sin_port);
		spoilers.emplace_back([&, n, lfd] {for (unsigned i = 0; i < n; ++i) {int fd = accept(lfd, NULL, NULL); if (fd >= 0) spoil(fd, mix(i, 2, 2));}});
		for (unsigned i = 0; i < n; ++i) {auto c = cl.create_object(); c->d = 0; c->set_server_addr(p, "127.0.0.1"); if (!cl.add_socket(c)) {printf("{\"e\":\"setup\"}\n"); _exit(3);}}
	}
	auto wait = [&](const std::function<bool()>& done) { // gives up only if nothing at all has moved for a long time
		long last = -1; auto t0 = std::chrono::steady_clock::now();
		while (!done()) {
			std::this_thread::sleep_for(std::chrono::milliseconds(2));
			if (last != moved) {last = moved; t0 = std::chrono::steady_clock::now();}
			else if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(60)) return false;
		}
		return true;
	};
	bool up = wait([&] {for (auto& c : cs) if (!c->is_ready()) return false; return srv.size() >= links;});
	for (auto& t : spoilers) t.join();
	for (auto& c : cs) start_senders(c, c->d);
	std::mt19937 rnd(seed);
	for (unsigned b = 0; b < breaks && up; ++b) { // a break somewhere in the middle of the traffic
		long m0 = moved; unsigned more = rnd() % (links * SENDERS * PER * 2 / (breaks + 1)); auto t0 = std::chrono::steady_clock::now();
		while (moved - m0 < (long) more && std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(400)) std::this_thread::sleep_for(std::chrono::microseconds(200));
		broke = true; auto& c = cs[rnd() % links]; get_dir(c->d).cut = true; int before = c->ups;
		switch (rnd() % 3) {
		case 0: c->force_shutdown(true); break;
		case 1: c->graceful_shutdown(true); break;
		default: {auto x = srv.at(rnd() % std::max<size_t>(srv.size(), 1)); if (!x) {c->force_shutdown(true); break;} for (auto& y : cs) get_dir(y->d).cut = true; x->force_shutdown(); before = -1; break;}
		}
		if (before >= 0) up = wait([&] {return c->ups > before;});
	}
	bool done = up && wait([&] {
		std::lock_guard<std::mutex> l(EVM);
		for (auto& x : D) if (x.first && x.second.busy) return false;
		for (auto& x : D) if (x.first && !x.second.cut && x.second.got < x.second.ret) return false;
		return true;
	});
	GO = false; for (size_t i = 0; ; ++i) {std::thread t; {std::lock_guard<std::mutex> l(THM); if (i >= TH.size()) break; t.swap(TH[i]);} t.join();}
	std::vector<int> cuts; {std::lock_guard<std::mutex> l(EVM); for (auto& x : D) if (x.second.cut) cuts.push_back(x.first);}
	std::this_thread::sleep_for(std::chrono::milliseconds(20)); // a duplicate would show up now
	cl.force_shutdown();
	bool closed = up && wait([&] {std::lock_guard<std::mutex> l(EVM); for (auto& x : ALIVE) if (x.second) return false; return true;});
#ifndef WS_LINK // a timer of the websocket stream itself may keep the service busy for half a minute
	if (closed) sp.stop_service();
#endif
	std::lock_guard<std::mutex> l(EVM);
	for (auto& x : LIFE) {
		std::string t; for (auto& e : x.second) t += (t.empty() ? "" : ",") + e;
		printf("{\"o\":%d,\"up\":%s,\"closed\":%s,\"ev\":[%s]}\n", x.first, up ? "true" : "false", closed ? "true" : "false", t.c_str());
	}
	for (auto& x : EV) {
		bool cut = std::find(cuts.begin(), cuts.end(), x.first) != cuts.end();
		std::string t; for (auto& e : x.second) t += (t.empty() ? "" : ",") + e;
		printf("{\"d\":%d,\"cut\":%s,\"up\":%s,\"done\":%s,\"ev\":[%s]}\n", x.first, cut ? "true" : "false", up ? "true" : "false", done ? "true" : "false", t.c_str());
	}
	fflush(stdout); _exit(0);
}
