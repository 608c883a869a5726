// a server whose acceptor and links are in memory
#include "quiet.h"
#include "vtime.h"
#include <ext/tcp.h>
#include "mock.h"
#include "cmd.h"
#include <map>
#include <deque>
#include <unistd.h>
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
static std::string bad; static void oops(const std::string& s) {if (bad.empty()) bad = s;}
static std::map<const void*, int> alive;
struct mock_acceptor {
	typedef mock_socket::executor_type executor_type; typedef boost::system::error_code error_code; executor_type ex;
	struct one {mock_socket* s; std::function<void(const error_code&)> h;};
	std::deque<one> q; bool opened, bound, listens; std::string fail;
	static mock_acceptor*& cur() {static mock_acceptor* p = 0; return p;}
	mock_acceptor(boost::asio::io_context& io) : ex(io.get_executor()), opened(false), bound(false), listens(false) {cur() = this;}
	bool is_open() const {return opened;}
	template<typename P> void open(const P&, error_code& ec) {if (opened) oops("opened twice"); ec = error_code(); opened = true;}
	template<typename O> void set_option(const O&, error_code& ec) {ec = error_code();}
	template<typename E> void bind(const E&, error_code& ec) {ec = error_code(); if (!opened) ec = boost::asio::error::bad_descriptor; else if (bound) ec = boost::asio::error::invalid_argument; else if (fail == "bind") ec = boost::asio::error::address_in_use; else bound = true;}
	void listen(int, error_code& ec) {ec = error_code(); if (!opened) ec = boost::asio::error::bad_descriptor; else if (fail == "listen") ec = boost::asio::error::address_in_use; else listens = true;}
	void cancel(error_code& ec) {ec = error_code(); while (!q.empty()) finish(boost::asio::error::operation_aborted);}
	void close(error_code& ec) {cancel(ec); opened = bound = listens = false;}
	template<typename S, typename H> void async_accept(S& s, const H& h) {
		one o = {&s, h}; auto e = ex;
		o.h = [e, h](const error_code& ec) {boost::asio::post(e, [h, ec] {H x(h); x(ec);});};
		if (!listens) o.h(opened ? boost::asio::error::invalid_argument : boost::asio::error::bad_descriptor); else q.push_back(o);
	}
	void finish(const error_code& ec) {one o = q.front(); q.pop_front(); if (!ec) o.s->force_open(); o.h(ec);}
	struct ctx {boost::asio::execution_context& c; boost::asio::io_context& context() const {return static_cast<boost::asio::io_context&>(c);}};
	ctx get_executor() {return ctx {boost::asio::query(ex, boost::asio::execution::context)};}
};
struct family {typedef boost::asio::ip::tcp::endpoint endpoint; typedef mock_acceptor acceptor;};
typedef st_asio_wrapper::tcp::server_socket_base<packer<>, unpacker<>, st_asio_wrapper::tcp::i_server, mock_socket> base;
struct sock : public base {
	int starts; std::vector<std::string> got;
	template<typename A> sock(A& a) : base(a), starts(0) {alive[this] = 1;}
	~sock() {alive.erase(this);}
	bool do_start() {++starts; return base::do_start();}
	bool on_msg_handle(std::string& m) {got.push_back(m); return true;}
};
typedef boost::shared_ptr<sock> ptr;
struct keeper : public st_asio_wrapper::tcp::generic_server<sock, family> {
	typedef st_asio_wrapper::tcp::generic_server<sock, family> super; bool yes; std::string how; int nacc, nerr, due; std::set<const void*> seen;
	keeper(service_pump& sp) : super(sp), yes(true), nacc(0), nerr(0), due(0) {max_size(LIMIT);}
	int async_accept_num() {return NUM;}
	bool on_accept(ptr const& p) {
		++nacc; if (!p->next_layer().is_open()) oops("a connection is reported which is not open");
		if (p->started() || exist(p->id())) oops("a connection was reported which is live already");
		return yes;
	}
	bool on_accept_error(const boost::system::error_code& ec, ptr const& p) {
		if (boost::asio::error::operation_aborted == ec) return super::on_accept_error(ec, p);
		++nerr;
		if (how == "go") return true;
		if (how == "later") {++due; set_timer(TIMER_END + 7, 50, boost::bind(&keeper::again, this)); return false;}
		return super::on_accept_error(ec, p);
	}
	bool again() {for (; due > 0; --due) start_next_accept(); return false;}
};
static std::string frame(const std::string& b) {size_t n = b.size() + 2; return std::string(1, (char) (n >> 8)) + (char) n + b;}
struct world {
	service_pump& sp; boost::asio::io_context& io; std::unique_ptr<keeper> k; unsigned serial;
	world(service_pump& s) : sp(s), io(sp.assign_io_context()), serial(0) {reset();}
	void poll() {while (io.poll()) ;}
	void settle() {poll(); for (int i = 0; i < 3; ++i) {vt_us += 30000; poll();}}
	void reset() {
		if (k) {k->stop_listen(); k->force_shutdown(); k->stop_service(); k->due = 0; for (int i = 0; i < 8; ++i) {poll(); vt_us += 100000;} poll(); k.reset(); poll();}
		bad.clear(); alive.clear(); k.reset(new keeper(sp));
	}
	mock_acceptor& a() {return k->next_layer();}
	std::string command(const std::string& line) {
		std::istringstream is(line); std::string op, arg; is >> op >> arg; bool r = true; bad.clear(); k->nacc = k->nerr = 0; size_t size0 = k->size();
		if (op == "begin") {a().fail = arg; k->start_service(); r = k->service_started();}
		else if (op == "halt") k->stop_service();
		else if (op == "listen") {a().fail = arg; r = k->start_listen();}
		else if (op == "stop") {k->due = 0; k->stop_timer(keeper::TIMER_END + 7); k->stop_listen();}
		else if (op == "restart") {k->due = 0; k->stop_timer(keeper::TIMER_END + 7); k->stop_listen(); a().fail = ""; r = k->start_listen();}
		else if (op == "arrive") {
			k->yes = arg == "1"; mock_socket* s = a().q.front().s; a().finish(boost::system::error_code()); poll();
			if (k->nacc != 1) oops("the connection was reported " + std::to_string(k->nacc) + " times");
			r = k->size() == size0 + 1;
			if (!r && mock_socket::all().count(s) && s->is_open()) oops("a refused connection is still open");
			ptr p; k->do_something_to_all([&](ptr const& x) {if (&x->lowest_layer() == s) p = x;});
			if (r && !p) oops("another object than the accepted one is live");
			if (p) { // it works
				if (!p->started() || !p->is_connected() || p->starts != 1) oops("the link is not started exactly once");
				else if (!p->next_layer().reading()) oops("the link is not reading");
				else {std::string m = "in" + std::to_string(++serial), f = frame(m); p->next_layer().feed(f.data(), f.size()); poll(); if (p->got.size() != 1 || p->got[0] != m) oops("the link doesn't deliver");}
			}
		}
		else if (op == "error") {k->how = arg; a().finish(boost::asio::error::no_descriptors); poll(); if (k->nerr != 1) oops("the failure was reported " + std::to_string(k->nerr) + " times");}
		else if (op == "later") {for (int i = 0; i < 6; ++i) {vt_us += 10000; poll();}}
		else if (op == "break") {int n = atoi(arg.c_str()); std::vector<ptr> v; k->do_something_to_all([&](ptr const& p) {if ((int) v.size() < n) v.push_back(p);}); for (auto& p : v) p->next_layer().read_error(boost::asio::error::eof); poll(); for (int i = 0; i < 7; ++i) {vt_us += 10000; if (!k->due) poll();}}
		poll();
		if (op == "halt") {for (int i = 0; i < 7; ++i) {vt_us += 10000; poll();}}
		size_t live = 0; k->do_something_to_all([&](ptr const& p) {++live; if (!p->started() || !p->next_layer().is_open()) oops("a live link doesn't run");});
		if (live != k->size()) oops("wrong pool size");
		if (k->is_listening() != (a().listens && a().opened)) oops(k->is_listening() ? "it says it is listening" : "the acceptor is still listening");
		json j; j.b("ok", r).b("svc", k->service_started()).b("lis", k->is_listening()).num("acc", a().q.size()).num("live", live);
		if (!bad.empty()) j.str("bad", bad);
		return j.done();
	}
};
static service_pump* pump;
static void drive() {
	world w(*pump); std::string line;
	while (std::getline(std::cin, line)) if (line == "reset") {w.reset(); answer("{}");} else answer(w.command(line));
	_exit(0);
}
int main() {
	service_pump sp; pump = &sp; boost::asio::io_context& io = sp.assign_io_context();
	boost::asio::post(io, drive);
	sp.run_service(1);
	return 1;
}
