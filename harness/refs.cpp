// real servers, clients (unix sockets) and udp sockets on several io_contexts; their references are looked at when everything has come to rest
#define ST_ASIO_RECONNECT_INTERVAL 10
#define ST_ASIO_ASYNC_ACCEPT_NUM PREP
#define ST_ASIO_DELAY_CLOSE 0
#include "quiet.h"
#include <ext/tcp.h>
#include <ext/udp.h>
#include "cmd.h"
#include <unistd.h>
#include <sys/stat.h>
#include <atomic>
#include <map>
#include <set>
#include <functional>
#include <mutex>
#include <thread>
#include <future>
using namespace st_asio_wrapper;
namespace T = st_asio_wrapper::ext::tcp; namespace U = st_asio_wrapper::ext::udp;
static std::mutex M; // guards everything below
static std::map<std::string, boost::weak_ptr<void>> alive; static std::map<std::string, std::weak_ptr<int>> unused;
struct seen {int up; boost::weak_ptr<T::unix_server_socket> s; seen() : up(0) {}};
static std::map<std::string, seen> srv; // by client: connections which the server has had
static std::map<std::string, int> closed; static int nexts = 0;
struct client_socket : public T::unix_client_socket {
	std::string key; client_socket(i_matrix& m) : T::unix_client_socket(m) {} client_socket(boost::asio::io_context& c) : T::unix_client_socket(c) {}
	virtual void on_connect() {send_msg(key.data(), key.size());}
	virtual void on_close() {T::unix_client_socket::on_close(); std::lock_guard<std::mutex> l(M); ++closed[key];}
	virtual bool on_msg(out_msg_type&) {return true;}
	virtual bool on_msg_handle(out_msg_type&) {return true;}
};
struct server_socket : public T::unix_server_socket {
	server_socket(st_asio_wrapper::tcp::i_server& s) : T::unix_server_socket(s) {}
	virtual bool on_msg(out_msg_type& m) {note(m); return true;}
	virtual bool on_msg_handle(out_msg_type& m) {note(m); return true;}
	void note(out_msg_type& m) {std::lock_guard<std::mutex> l(M); seen& s = srv[std::string(m.data(), m.size())]; ++s.up; s.s = boost::dynamic_pointer_cast<T::unix_server_socket>(shared_from_this());}
};
struct server_type : public st_asio_wrapper::tcp::unix_server_base<server_socket> {
	typedef st_asio_wrapper::tcp::unix_server_base<server_socket> super;
	server_type(service_pump& p) : super(p) {}
	using super::add_io_context_refs; using super::sub_io_context_refs;
	object_pool<server_socket>& pool() {return *this;}
	virtual void start_next_accept() {super::start_next_accept(); std::lock_guard<std::mutex> l(M); ++nexts;}
};
typedef st_asio_wrapper::tcp::multi_client_base<client_socket> clients_type;
struct single_type : public st_asio_wrapper::tcp::single_client_base<client_socket> {single_type(service_pump& p) : st_asio_wrapper::tcp::single_client_base<client_socket>(p) {}};
struct udp_socket : public U::socket {
	std::string key; udp_socket(i_matrix& m) : U::socket(m) {}
	virtual void on_close() {U::socket::on_close(); std::lock_guard<std::mutex> l(M); ++closed[key];}
};
typedef st_asio_wrapper::udp::multi_socket_service_base<udp_socket> udps_type;
static bool stuck = false;
static bool await(const std::function<bool()>& f) {for (int i = 0; i < 15000; ++i) {if (f()) return true; std::this_thread::sleep_for(std::chrono::milliseconds(1));} stuck = true; return false;}
struct world {
	std::unique_ptr<service_pump> p; std::unique_ptr<server_type> s; std::unique_ptr<clients_type> c; std::unique_ptr<single_type> one; std::unique_ptr<udps_type> u;
	std::map<std::string, boost::weak_ptr<client_socket>> cs; std::map<std::string, boost::weak_ptr<udp_socket>> us; std::string path; std::map<std::string, int> ups; int joins; bool blind;
	world() : joins(0), blind(false) {path = "/tmp/refs." + std::to_string(getpid()); mkdir(path.c_str(), 0700); path += "/s";}
	~world() {finish();}
	void finish() {if (p) p->stop_service(); s.reset(); c.reset(); one.reset(); u.reset(); p.reset();}
	void reset() {
		finish(); cs.clear(); us.clear(); {std::lock_guard<std::mutex> l(M); srv.clear(); closed.clear(); nexts = 0;} ups.clear(); joins = 0; blind = true;
		p.reset(new service_pump());
#if CTX > 1
		p->set_io_context_num(CTX); blind = false;
#endif
	}
	int up(const std::string& k) {std::lock_guard<std::mutex> l(M); return srv[k].up;}
	int down(const std::string& k) {std::lock_guard<std::mutex> l(M); return closed[k];}
	boost::shared_ptr<T::unix_server_socket> ss(const std::string& k) {std::lock_guard<std::mutex> l(M); return srv[k].s.lock();}
	// calls f where the object's callbacks run
	template<typename O> void within(O& o, const std::function<void()>& f) {
		if (!p->is_service_started()) {f(); return;}
		auto done = std::make_shared<std::promise<void>>(); o.post([f, done] {f(); done->set_value();}); done->get_future().wait();
	}
	template<typename O> void refs(O& o, int n) {within(o, [&o, n] {if (n > 0) o.add_io_context_refs(n); else o.sub_io_context_refs(-n);});}
	void change(const std::string& k, int n) {
		if (k == "sa") {if (n > 0) s->add_io_context_refs(n); else s->sub_io_context_refs(-n);}
		else if (k == "sp") refs(s->pool(), n);
		else if (k == "mp") refs(*c, n);
		else if (k == "up") refs(*u, n);
		else if (k[0] == 's') {auto o = ss(k.substr(1)); if (o) refs(*o, n);}
		else if (k[0] == 'c') {auto o = cs[k].lock(); if (o) refs(*o, n);}
		else {auto o = us[k].lock(); if (o) refs(*o, n);}
	}
	std::string command(const std::string& line) {
		std::istringstream is(line); std::string op, k, bad; int total, nconn, on; is >> op >> total >> on >> nconn; std::set<std::string> conn; for (int i = 0; i < nconn; ++i) {is >> k; conn.insert(k);}
		int fresh; is >> fresh; std::vector<std::string> joined; for (int i = 0; i < fresh; ++i) {is >> k; joined.push_back(k);}
		int n = 0; k.clear(); is >> k >> n; std::string must_close; int before = 0;
		if (op == "new") {
			if (k == "srv") {s.reset(new server_type(*p)); s->set_server_addr(path);}
			else if (k == "mc") c.reset(new clients_type(*p));
			else if (k == "uc") u.reset(new udps_type(*p));
			else {one.reset(new single_type(*p)); one->key = "sc"; one->set_server_addr(path);}
		}
		else if (op == "destroy") {if (k == "srv") s.reset(); else if (k == "mc") c.reset(); else if (k == "uc") u.reset(); else one.reset();}
		else if (op == "start") {if (one) one->set_reconnect(true); unlink(path.c_str()); p->start_service(8);}
		else if (op == "stop") p->stop_service();
		else if (op == "add") {auto o = c->create_object(); o->key = k; o->set_server_addr(path); cs[k] = o; if (!c->add_socket(o, n)) bad = "not added";}
		else if (op == "addu") {auto o = u->create_object(); o->key = k; o->set_local_addr(0, "127.0.0.1"); us[k] = o; if (!u->add_socket(o, n)) bad = "not added";}
		else if (op == "close") {
			must_close = k; before = down(k);
			if (k == "sc") within(*one, [&] {one->force_shutdown();});
			else if (k[0] == 'c') {auto o = cs[k].lock(); if (o) o->force_shutdown(); else bad = "the socket is gone";}
			else {auto o = us[k].lock(); if (o) o->force_shutdown(); else bad = "the socket is gone";}
		}
		else if (op == "kick") {auto o = ss(k); if (o) o->force_shutdown(); else bad = "the server's socket is gone";}
		else if (op == "renew") {if (k == "sc") one->force_shutdown(true); else {auto o = cs[k].lock(); if (o) o->force_shutdown(true); else bad = "the socket is gone";}}
		else if (op == "unlisten") s->stop_listen();
		else if (op == "listen") {unlink(path.c_str()); if (!s->start_listen()) bad = "cannot listen";}
		else if (op == "inc") change(k, n);
		else if (op == "dec") change(k, -n);
		else if (op == "ctx") {p->add_service_thread(2, false, 1); blind = false;}
		for (auto& x : joined) ++ups[x]; joins += fresh;
		std::vector<unsigned> v; int sum = -1; std::string why;
		auto rest = [&] {
			for (auto& x : joined) if (up(x) < ups[x]) {why = x + " has not connected"; return false;}
			if (!must_close.empty() && down(must_close) <= before) {why = must_close + " has not closed"; return false;}
			if (s && s->size() != conn.size()) {why = "the server has " + std::to_string(s->size()) + " sockets"; return false;}
			{std::lock_guard<std::mutex> l(M); if (nexts < joins) {why = "the server doesn't go on accepting"; return false;}}
			for (auto& x : cs) {auto o = x.second.lock(); if (o && o->key == x.first && on && o->is_connected() != (conn.count(x.first) > 0)) {why = x.first + (o->is_connected() ? " is connected" : " is not connected"); return false;}}
			if (one && on && one->is_connected() != (conn.count("sc") > 0)) {why = std::string("sc") + (one->is_connected() ? " is connected" : " is not connected"); return false;}
			if (blind) return true;
			boost::container::list<unsigned> r; p->get_io_context_refs(r); v.assign(r.begin(), r.end()); sum = 0; for (auto x : v) sum += (int) x;
			return sum == total;
		};
		if (!await(rest)) {
			if (bad.empty() && !blind && sum >= 0 && sum != total) bad = "the references are " + std::to_string(sum) + " instead of " + std::to_string(total);
			else if (bad.empty()) bad = "not as expected: " + why;
		}
		for (auto it = cs.begin(); it != cs.end();) if (it->second.expired()) cs.erase(it++); else ++it;
		json j; std::map<std::string, int> h;
		for (auto& x : cs) {auto o = x.second.lock(); if (o && o->key == x.first) h[x.first] = o->get_io_context_refs();}
		for (auto& x : us) {auto o = x.second.lock(); if (o && o->key == x.first) h[x.first] = o->get_io_context_refs();}
		for (auto& x : conn) {auto o = ss(x); h["s" + x] = o ? o->get_io_context_refs() : 0;}
		if (one) h["sc"] = one->get_io_context_refs();
		if (s) h["sp"] = s->pool().get_io_context_refs();
		if (c) h["mp"] = c->get_io_context_refs();
		if (u) h["up"] = u->get_io_context_refs();
		json hj; for (auto& x : h) hj.num(x.first, x.second);
		if (blind) v.clear();
		j.arr("v", v).raw("held", hj.done()); if (!bad.empty()) j.str("bad", bad);
		return j.done();
	}
};
static std::atomic<int> moves(0);
int main() {
	std::thread([] {int m = -1, n = 0; for (;;) {std::this_thread::sleep_for(std::chrono::seconds(1)); if (m == moves) ++n; else {m = moves; n = 0;} if (n > 40) {fprintf(stderr, "a command has not ended\n"); _exit(4);}}}).detach();
	world* w = new world(); std::string line; w->reset(); std::string dir = w->path.substr(0, w->path.size() - 2);
	while (++moves, std::getline(std::cin, line)) if (line == "reset") {w->reset(); answer("{}");} else {answer(w->command(line)); if (stuck) break;}
	if (!stuck) w->finish();
	unlink(w->path.c_str()); rmdir(dir.c_str()); fflush(stdout); _exit(stuck ? 3 : 0);
}
