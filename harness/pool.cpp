// an object pool (of server or client sockets) over the mock transport
#include "quiet.h"
#include "vtime.h"
#define ST_ASIO_RECONNECT false
#define ST_ASIO_FREE_OBJECT_INTERVAL 1
#define ST_ASIO_START_OBJECT_ID 1
#include <ext/tcp.h>
#include "mock.h"
#include "cmd.h"
#include <map>
#include <unistd.h>
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
struct sock;
static std::string bad; static std::map<const void*, long> alive; static long births, creates;
static void oops(const std::string& s) {if (bad.empty()) bad = s;}
#ifdef SERVER
struct mock_acceptor { // never asked to do anything
	typedef mock_socket::executor_type executor_type; executor_type ex;
	mock_acceptor(boost::asio::io_context& io) : ex(io.get_executor()) {}
	bool is_open() const {return false;}
	template<typename P> void open(const P&, boost::system::error_code&) {}
	template<typename O> void set_option(const O&, boost::system::error_code&) {}
	template<typename E> void bind(const E&, boost::system::error_code&) {}
	void listen(int, boost::system::error_code&) {}
	void cancel(boost::system::error_code&) {}
	void close(boost::system::error_code&) {}
	template<typename S, typename H> void async_accept(S&, const H&) {}
	struct ctx {boost::asio::execution_context& c; boost::asio::io_context& context() const {return static_cast<boost::asio::io_context&>(c);}};
	ctx get_executor() {return ctx {boost::asio::query(ex, boost::asio::execution::context)};}
};
struct family {typedef boost::asio::ip::tcp::endpoint endpoint; typedef mock_acceptor acceptor;};
typedef st_asio_wrapper::tcp::server_socket_base<packer<>, unpacker<>, st_asio_wrapper::tcp::i_server, mock_socket> base;
#else
typedef st_asio_wrapper::tcp::client_socket_base<packer<>, unpacker<>, i_matrix, mock_socket> base;
#endif
struct sock : public base {
	std::vector<std::string> got; bool refuse, closed; long taken;
	template<typename A> sock(A& a) : base(a), refuse(false), closed(false), taken(0) {++births; alive[this] = births; dispatch_strand_ok();}
	~sock() {if (started()) oops("an object was destroyed which is still running"); alive.erase(this);}
	void dispatch_strand_ok() {msg_handling_interval(20);}
	bool on_msg_handle(std::string& m) {got.push_back(m); return !refuse;}
	void on_close() {closed = true; base::on_close();}
	bool tick() {return true;}
#ifdef SERVER
	void take_over(boost::shared_ptr<type_of_object_restore> old) {taken = old ? (long) old->id() : -1; if (old && (old->started() || !old->obsoleted())) oops("taken over from a running link");}
#endif
};
#ifdef SERVER
typedef st_asio_wrapper::tcp::generic_server<sock, family> keeper0;
#else
typedef st_asio_wrapper::tcp::multi_client_base<sock> keeper0;
#endif
typedef boost::shared_ptr<sock> ptr;
struct keeper : public keeper0 {
	keeper(service_pump& sp) : keeper0(sp) {max_size(LIMIT);}
	bool init() {return true;}
	void uninit() {}
	void on_create(ptr const& p) {++creates; if (!p) oops("no object"); else if (p->started()) oops("a created object is already running");}
	ptr make() {return keeper0::create_object();}
	bool put(ptr const& p) {return keeper0::add_socket(p);}
	void timers(bool on) {if (on) object_pool<sock>::start(); else object_pool<sock>::stop();}
};
static std::string frame(const std::string& b) {size_t n = b.size() + 2; return std::string(1, (char) (n >> 8)) + (char) n + b;}
struct world {
	service_pump& sp; boost::asio::io_context& io; std::unique_ptr<keeper> k; std::map<int, ptr> held; std::map<int, std::pair<const void*, long>> slot; std::map<int, sock*> raw; std::set<int> up; unsigned step, serial;
	world(service_pump& s) : sp(s), io(sp.assign_io_context()), step(0), serial(0) {reset();}
	void poll() {while (io.poll()) ;}
	void pass(long ms) {vt_us += ms * 1000; poll();}
	void reset() {
		if (k) {
			std::vector<ptr> all; for (auto& h : slot) if (is_alive(h.first)) {ptr p = k->find(raw[h.first]->id()); if (p) all.push_back(p);}
			for (auto& h : held) if (h.second) all.push_back(h.second);
			for (size_t i = 0; i < k->invalid_object_size(); ++i) all.push_back(k->invalid_object_at(i));
			for (auto& p : all) {p->next_layer().close(); p->force_shutdown();}
			for (int i = 0; i < 8; ++i) {poll(); vt_us += 100000;}
			all.clear(); held.clear(); poll(); k.reset(); poll();
		}
		slot.clear(); raw.clear(); up.clear(); alive.clear(); bad.clear();
		k.reset(new keeper(sp));
	}
	bool is_alive(int h) {auto i = alive.find(slot[h].first); return slot[h].first && i != alive.end() && i->second == slot[h].second;}
	int slot_of(const void* p) {for (auto& s : slot) if (s.second.first == p && is_alive(s.first)) return s.first; return 0;}
	void fresh(sock* s) { // nothing of an earlier life may show up
		auto& t = s->next_layer();
		if (!s->got.empty()) oops("a message of an earlier life was delivered");
		if (t.writing()) oops("bytes of an earlier life are being written");
		std::string in = "in" + std::to_string(++serial), out = "out" + std::to_string(++serial);
		s->refuse = false;
		if (!t.reading()) {oops("not reading"); return;}
		std::string f = frame(in); t.feed(f.data(), f.size()); poll();
		if (s->got.size() != 1 || s->got[0] != in) oops("the first message was delivered " + std::to_string(s->got.size()) + " times");
		s->send_msg(out.data(), out.size()); poll();
		if (!t.writing()) oops("not writing"); else if (t.drain((size_t) -1) != frame(out)) oops("other bytes than the message were written");
		poll(); if (t.writing()) oops("more than the message was written");
		statistic st = s->get_statistic();
		if (st.send_msg_sum != 1 || st.recv_msg_sum != 1 || st.send_byte_sum != frame(out).size() || st.recv_byte_sum != in.size()) oops("the counters don't start at zero");
		// leave as much behind as possible
		s->refuse = true; f = frame("refused") + frame("behind") + frame("half").substr(0, 3); t.feed(f.data(), f.size()); poll();
		s->send_msg("inflight", 8, true); s->send_msg("pending", 7, true); poll();
		s->set_timer(sock::TIMER_END + 2, 1000000, boost::bind(&sock::tick, s));
	}
	std::string command(const std::string& line) {
		std::istringstream is(line); std::string op; is >> op; int h = 0; long r = 0; is >> h; ++step; bad.clear();
		if (op == "create") {
			int reuse; is >> reuse; long b = births, c = creates; const void* want = slot.count(h) ? slot[h].first : 0; bool was = slot.count(h) && is_alive(h);
			ptr p = k->make(); if (!p) {oops("nothing created"); answer("{}"); return "{}";}
			if (creates != c + 1) oops("a creation was not reported once");
			if (reuse && (!was || p.get() != want || births != b)) oops("a removed object was not recycled, or another one");
			if (!reuse && births != b + 1) oops("an object was recycled");
			if (reuse) {
				sock* s = p.get(); statistic st = s->get_statistic();
				if (st.send_msg_sum || st.recv_msg_sum || st.send_byte_sum || st.recv_byte_sum) oops("a recycled object has old counters");
				if (s->started() || !s->is_broken() || s->obsoleted()) oops("a recycled object is not like new");
				if (s->get_pending_send_msg_size() || s->get_pending_recv_msg_size()) oops("a recycled object has old messages");
				if (s->is_timer(sock::TIMER_END + 2)) oops("a recycled object has old timers");
				if (s->next_layer().is_open()) oops("a recycled object has an open transport");
				if (!s->closed) oops("an object was recycled which was not closed");
			}
			p->got.clear(); p->closed = false; p->taken = 0;
			slot[h] = std::make_pair((const void*) p.get(), alive[p.get()]); raw[h] = p.get(); held[h] = p; r = (long) p->id();
#ifdef SERVER
			p->next_layer().force_open();
#endif
		}
		else if (op == "add") r = k->put(held[h]);
		else if (op == "drop") {held[h].reset(); r = 1;}
		else if (op == "hold") {
			int live; long id; is >> live >> id; ptr p = live ? k->find(id) : k->invalid_object_find(id); held[h] = p; r = p && p.get() == raw[h];
			if (live && !k->exist(id)) oops("exist denies a live object");
			if (live && k->find_socket(id).get() != (tracked_executor*) p.get()) oops("find_socket found another object");
		}
		else if (op == "del") {
			long id; is >> id;
#ifdef SERVER
			r = k->del_socket(held[h], false);
#else
			r = k->del_socket(id);
#endif
		}
		else if (op == "kill") {
			switch (step % 3) {
			case 0: k->force_shutdown(held[h]); break;
			case 1: k->disconnect(held[h]); break;
			default:
#ifdef SERVER
				k->del_socket(held[h], true);
#else
				if (k->find(held[h]->id()) == held[h]) k->del_socket(held[h]->id());
				held[h]->force_shutdown();
#endif
			}
		}
		else if (op == "break") {auto& t = raw[h]->next_layer(); if (!t.reading()) {if (!raw[h]->refuse) oops("not reading");} if (t.writing()) t.write_error(boost::asio::error::broken_pipe); if (t.reading()) t.read_error(boost::asio::error::eof); else raw[h]->force_shutdown();}
		else if (op == "pass" || op == "sweep") {
			if (op == "sweep") k->timers(true);
			pass(60);
			for (auto& x : raw) if (is_alive(x.first) && x.second->next_layer().connecting()) x.second->next_layer().connected(boost::system::error_code());
			poll();
			if (op == "sweep") {for (int i = 0; i < 35; ++i) pass(100); k->timers(false); poll();}
		}
		else if (op == "kick") r = (long) k->clear_obsoleted_object();
		else if (op == "free") r = (long) k->free_object(h > 2 * LIMIT ? (size_t) -1 : h);
#ifdef SERVER
		else if (op == "restore" || op == "init") {
			long id; is >> id; long old = (long) held[h]->id(); held[h]->taken = 0; r = k->restore_socket(held[h], id, op == "init");
			if (op == "restore" && held[h]->taken != (r ? id : 0)) oops("take_over was not called as it should");
			if ((long) held[h]->id() != (r ? id : old)) oops("the object has another id");
			if (r && op == "init" && old != id && k->find(id) != held[h]) oops("the object can't be found under its new id");
		}
#endif
		poll();
		for (auto& x : raw) if (is_alive(x.first)) {
			bool u = x.second->is_connected() && x.second->started();
			if (u && !up.count(x.first)) fresh(x.second);
			if (u) up.insert(x.first); else up.erase(x.first);
		} else up.erase(x.first);
		vt_us += 200; poll();
		// what can be seen of the pool
		std::vector<std::string> live; std::vector<int> inv, gone, ups; size_t nl = 0, in = k->invalid_object_size();
		std::set<const void*> lives, invs; statistic sum; std::map<int, long> ids;
		k->do_something_to_all([&](ptr const& p) {++nl; if (!lives.insert(p.get()).second) oops("an object is twice in the pool"); sum.send_msg_sum += p->get_statistic().send_msg_sum; sum.recv_byte_sum += p->get_statistic().recv_byte_sum; int s = slot_of(p.get()); if (!s) oops("a dead object is in the pool"); ids[s] = (long) p->id(); if (ids[s] <= 0) oops("no id");});
		for (auto& x : ids) {live.push_back("[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]"); ptr p = k->find(x.second); if (!p || slot_of(p.get()) != x.first) oops("a live object is not found under its id");}
		for (size_t i = 0; i < in; ++i) {ptr p = k->invalid_object_at(i); if (!invs.insert(p.get()).second) oops("an object was removed twice"); int s = slot_of(p.get()); if (!s) oops("a dead object is in the pool"); inv.push_back(s);}
		std::sort(inv.begin(), inv.end());
		statistic all = k->get_statistic();
		if (all.send_msg_sum != sum.send_msg_sum || all.recv_byte_sum != sum.recv_byte_sum) oops("the pool's statistic is not the sum of its objects'");
		if (k->size() != nl || nl > LIMIT) oops("wrong pool size");
#ifndef SERVER
		if (k->valid_size() != (size_t) std::count_if(ids.begin(), ids.end(), [&](std::pair<const int, long>& x) {return raw[x.first]->is_connected();})) oops("wrong number of connected objects");
#endif
		for (int i = 1; i <= SLOTS; ++i) if (!slot.count(i) || !is_alive(i)) gone.push_back(i); else if (up.count(i)) ups.push_back(i);
		json j; j.num("ok", r).raw("live", jarr(live)).arr("inv", inv).arr("gone", gone).arr("up", ups);
		if (!bad.empty()) j.str("bad", bad);
		return j.done();
	}
};
static service_pump* pump;
static void drive() {
	world w(*pump); std::string line;
	while (std::getline(std::cin, line)) if (line == "reset") {w.reset(); answer("{}");} else answer(w.command(line));
	_exit(0);
}
int main() {
	service_pump sp; pump = &sp; boost::asio::io_context& io = sp.assign_io_context();
	boost::asio::post(io, drive);
	sp.run_service(1);
	return 1;
}
