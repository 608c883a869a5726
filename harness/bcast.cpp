// broadcasting to the links in a container (of server or client sockets) over the mock transport
#include "quiet.h"
#include "vtime.h"
#define ST_ASIO_RECONNECT false
#define ST_ASIO_START_OBJECT_ID 1
#define ST_ASIO_DELAY_CLOSE 1000
#include <ext/tcp.h>
#include "mock.h"
#include "cmd.h"
#include <map>
#include <errno.h>
#include <pthread.h>
#include <unistd.h>
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
static std::string bad;
static void oops(const std::string& s) {if (bad.empty()) bad = s;}
struct sock; static sock* waiter; static void waiting();
extern "C" {
int nanosleep(const struct timespec* r, struct timespec*) {waiting(); vt_us += r->tv_sec * 1000000LL + r->tv_nsec / 1000 + 1; return 0;}
int clock_nanosleep(clockid_t, int f, const struct timespec* r, struct timespec*) {long long t = r->tv_sec * 1000000LL + r->tv_nsec / 1000 + 1; waiting(); if (f) {if (t > vt_us) vt_us = t;} else vt_us += t; return 0;}
static int until(const struct timespec* a) {long long t = a->tv_sec * 1000000LL + a->tv_nsec / 1000 + 1; waiting(); if (t > vt_us) vt_us = t; return ETIMEDOUT;} // a sleep of boost::thread
int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec* a) {return until(a);}
int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec* a) {return until(a);}
}
#ifdef SERVER
struct mock_acceptor { // never asked to do anything
	typedef mock_socket::executor_type executor_type; executor_type ex;
	mock_acceptor(boost::asio::io_context& io) : ex(io.get_executor()) {}
	bool is_open() const {return false;}
	template<typename P> void open(const P&, boost::system::error_code&) {}
	template<typename O> void set_option(const O&, boost::system::error_code&) {}
	template<typename E> void bind(const E&, boost::system::error_code&) {}
	void listen(int, boost::system::error_code&) {}
	void cancel(boost::system::error_code&) {}
	void close(boost::system::error_code&) {}
	template<typename S, typename H> void async_accept(S&, const H&) {}
	struct ctx {boost::asio::execution_context& c; boost::asio::io_context& context() const {return static_cast<boost::asio::io_context&>(c);}};
	ctx get_executor() {return ctx {boost::asio::query(ex, boost::asio::execution::context)};}
};
struct family {typedef boost::asio::ip::tcp::endpoint endpoint; typedef mock_acceptor acceptor;};
typedef st_asio_wrapper::tcp::server_socket_base<packer<>, unpacker<>, st_asio_wrapper::tcp::i_server, mock_socket> base;
#else
typedef st_asio_wrapper::tcp::client_socket_base<packer<>, unpacker<>, i_matrix, mock_socket> base;
#endif
struct sock : public base {
	template<typename A> sock(A& a) : base(a) {send_buf_size(CAP * 10 - 5);}
	virtual bool is_ready() {waiter = this; return base::is_ready();}
	bool on_msg_handle(std::string&) {return true;}
};
#ifdef SERVER
typedef st_asio_wrapper::tcp::generic_server<sock, family> keeper0;
#else
typedef st_asio_wrapper::tcp::multi_client_base<sock> keeper0;
#endif
typedef boost::shared_ptr<sock> ptr;
struct keeper : public keeper0 {
	keeper(service_pump& sp) : keeper0(sp) {}
	bool init() {return true;}
	void uninit() {}
	ptr make() {return keeper0::create_object();}
	bool put(ptr const& p) {return keeper0::add_socket(p);}
};
static std::string frame(const std::string& b) {size_t n = b.size() + 2; return std::string(1, (char) (n >> 8)) + (char) n + b;}
struct world {
	service_pump& sp; boost::asio::io_context& io; std::unique_ptr<keeper> k; ptr o[HS + 1]; std::map<std::string, int> known; std::map<int, std::string> text; unsigned serial, waits; std::set<int> brk; std::map<int, std::vector<int>> sent; bool in_bcast;
	world(service_pump& s) : sp(s), io(sp.assign_io_context()), serial(0), waits(0), in_bcast(false) {reset();}
	void poll() {while (io.poll()) ;}
	void end(ptr& p) {if (!p) return; p->next_layer().close(); p->force_shutdown();}
	void reset() {
		for (auto& p : o) end(p);
		for (int i = 0; i < 14; ++i) {poll(); vt_us += 100000000;}
		poll(); for (auto& p : o) p.reset();
		if (k) k.reset();
		poll(); k.reset(new keeper(sp)); known.clear(); text.clear();
	}
	const std::string& fresh(int id) {char b[16]; snprintf(b, sizeof b, "m%07u", ++serial); text[id] = b; known[b] = id; return text[id];}
	std::vector<int> ids(const std::string& bytes) {
		std::vector<int> r; for (size_t i = 0; i < bytes.size(); i += 10) {std::string b = bytes.substr(i, 10); auto f = known.find(b.size() == 10 ? b.substr(2) : b); if (b.size() != 10 || frame(b.substr(2)) != b || f == known.end()) {oops("unknown bytes"); r.push_back(0);} else r.push_back(f->second);}
		return r;
	}
	std::vector<int> writing(int h) {auto& t = o[h]->next_layer(); std::string s(t.write_size(), 0); if (!s.empty()) boost::asio::buffer_copy(boost::asio::buffer(&s[0], s.size()), t.c().wr.wbufs); return ids(s);}
	void written(int h) {auto& t = o[h]->next_layer(); if (!t.writing()) {oops("not writing"); return;} for (int x : ids(t.drain((size_t) -1))) sent[h].push_back(x); poll();}
	void broken(int h) {auto& t = o[h]->next_layer(); if (!t.reading()) oops("not reading"); else t.read_error(boost::asio::error::eof); poll();}
	void wait() {
		if (++waits > 200) {answer("{\"bad\":\"a sender waits for ever\"}"); _exit(3);}
		if (!in_bcast) {oops("a sender waited"); return;}
		for (int h = 1; h <= HS; ++h) if (o[h].get() == waiter) {if (brk.erase(h)) broken(h); else written(h); return;}
		oops("waited for nothing");
	}
	void bcast(std::istringstream& is) {
		int n, safe, ovf, prior, form, native, x; std::vector<std::string> m, b; is >> safe >> ovf >> prior >> form >> native >> n;
		for (int i = 0; i < n; ++i) {is >> x; m.push_back(fresh(x)); b.push_back(native ? frame(m.back()) : m.back());}
		brk.clear(); while (is >> x) brk.insert(x);
		waits = 0; in_bcast = true; std::string c1 = b[0], c2 = n > 1 ? b[1] : "";
		const char* p[] = {c1.data(), c1.data() + 3}; size_t l[] = {3, c1.size() - 3}; std::vector<char> v(c1.begin(), c1.end()); bool o_ = ovf != 0, p_ = prior != 0;
#define GO(F) if (n == 2) k->F(c1, c2, o_, p_); else switch (form % 6) { \
		case 0: {const std::string& c = c1; k->F(c, o_, p_);} break; case 1: k->F(c1.data(), c1.size(), o_, p_); break; case 2: k->F(p, l, 2, o_, p_); break; \
		case 3: k->F(v, o_, p_); break; case 4: k->F(&v[0], v.size(), o_, p_); break; default: k->F(c1, o_, p_);}
		if (safe) {if (native) {GO(safe_broadcast_native_msg)} else {GO(safe_broadcast_msg)}}
		else if (native) {GO(broadcast_native_msg)} else {GO(broadcast_msg)}
		in_bcast = false; if (c1 != b[0] || (n > 1 && c2 != b[1])) oops("the message was consumed");
		if (!brk.empty()) oops("did not wait for a full link");
	}
	std::string command(const std::string& line) {
		std::istringstream is(line); std::string op; int h = 0; is >> op; bool ok = true; bad.clear(); sent.clear();
		if (op == "bcast") bcast(is);
		else {
			is >> h;
			if (op == "add") {o[h] = k->make();
#ifdef SERVER
				o[h]->next_layer().force_open();
#endif
				ok = k->put(o[h]);}
			else if (op == "up") {poll(); vt_us += 60000; poll(); auto& t = o[h]->next_layer(); if (!t.connecting()) oops("not connecting"); else t.connected(boost::system::error_code());}
			else if (op == "del") {
#ifdef SERVER
				ok = k->del_socket(o[h], false);
#else
				ok = k->del_socket(o[h]->id());
#endif
			}
			else if (op == "shut") broken(h);
			else if (op == "pass") {for (int i = 0; i < 12; ++i) {vt_us += 100000000; poll();} for (int i = 1; i <= HS; ++i) if (o[i] && o[i]->obsoleted()) {if (k->find(o[i]->id())) oops("a closed link stayed in the container"); o[i].reset();}}
			else if (op == "written") written(h);
			else if (op == "send") {int id, ovf, prior; is >> id >> ovf >> prior; const std::string m = fresh(id); ok = o[h]->send_msg(m, ovf != 0, prior != 0);}
		}
		poll(); json j; j.b("ok", ok); std::vector<std::string> qs, ws, ss;
		for (int i = 1; i <= HS; ++i) {
			bool see = o[i] && (k->find(o[i]->id()) || o[i]->is_connected()); json w; w.arr("x", see ? writing(i) : std::vector<int>()); json s; s.arr("x", sent[i]);
			qs.push_back(see ? std::to_string((double) o[i]->get_pending_send_msg_size() / 10).substr(0, 4) : "-1"); ws.push_back(w.s.substr(4)); ss.push_back(s.s.substr(4));
			if (o[i] && (o[i]->next_layer().c().overlap_wr || o[i]->next_layer().c().overlap_rd)) oops("overlapping operations");
		}
		j.raw("q", jarr(qs)).raw("w", jarr(ws)).raw("sent", jarr(ss)); if (!bad.empty()) j.str("bad", bad);
		return j.done();
	}
};
static world* W; static void waiting() {if (W) W->wait();}
static service_pump* pump;
static void drive() {
	world w(*pump); W = &w; std::string line;
	while (std::getline(std::cin, line)) if (line == "reset") {w.reset(); answer("{}");} else answer(w.command(line));
	_exit(0);
}
int main() {
	service_pump sp; pump = &sp; boost::asio::io_context& io = sp.assign_io_context();
	boost::asio::post(io, drive);
	sp.run_service(1);
	return 1;
}
