// sockets, servers and object pools which are customized by ext::callbacks; every hook is raised as the library does it: a virtual call on the wrapped class
#include "quiet.h"
#include <ext/tcp.h>
#include <ext/udp.h>
#include <ext/callbacks.h>
#include "cmd.h"
#include <functional>
#include <map>
#include <memory>
using namespace st_asio_wrapper;
namespace C = st_asio_wrapper::ext::callbacks; namespace T = st_asio_wrapper::ext::tcp; namespace U = st_asio_wrapper::ext::udp;
static std::vector<std::string> calls; static const void* who; static std::vector<const void*> args; static std::string bad; static int user_result, builtin_result; static std::string raised;
template<typename R> struct conv {static R f(int v) {return R(v);}};
template<> struct conv<void> {static void f(int) {}};
template<> struct conv<bool> {static bool f(int v) {return v != 0;}};
static const size_t NUMBER = 4242;
template<typename A> void same(A& a, size_t i) {if (i >= args.size() || (const void*) &a != args[i]) bad = "a wrong argument";}
static void same(size_t& a, size_t i) {if (i >= args.size() || a != NUMBER) bad = "a wrong argument";}
template<typename A> void same(boost::shared_ptr<A>& a, size_t i) {if (i >= args.size() || ((const void*) &a != args[i] && a.get() != args[i])) bad = "a wrong argument";}
template<typename A> void same(const boost::shared_ptr<A>& a, size_t i) {same(const_cast<boost::shared_ptr<A>&>(a), i);}
inline void each(size_t) {}
template<typename A, typename... O> void each(size_t i, A& a, O&... o) {same(a, i); each(i + 1, o...);}
template<typename... A> void note(const char* what, const char* hook, const void* obj, A&... a) {
	if (raised != hook) bad = std::string("function of ") + hook + " was called";
	if (obj != who) bad = "a wrong object";
	each(0, a...); calls.push_back(what);
}
template<typename Tag, typename F> struct user;
template<typename Tag, typename R, typename S, typename... A> struct user<Tag, R(S*, A...)> {
	static R function(S* s, A... a) {note("user", Tag::name(), s, a...); return conv<R>::f(user_result);}
	R operator()(S* s, A... a) const {return function(s, a...);}
};
struct hook {std::function<void(int, int)> reg; std::function<int()> raise;};
#define HOOK(R, N, PARAMS, ARGS, LOCALS) {struct tag {static const char* name() {return #N;}}; typedef user<tag, typename W::fo_##N> usr; \
	h[#N].reg = [w](int how, int pass) { \
		if (how) {if (pass == 2) w->register_##N(usr()); else w->register_##N(usr(), pass == 1);} \
		else {if (pass == 2) w->register_##N(&usr::function); else w->register_##N(&usr::function, pass == 1);}}; \
	h[#N].raise = [b]() -> int {LOCALS return as<R>::f([&]() -> R {return b->N ARGS;});};}
template<typename R> struct as {template<typename F> static int f(F fn) {return (int) fn();}};
template<> struct as<void> {template<typename F> static int f(F fn) {fn(); return 0;}};
#define BASE0(R, N) virtual R N() {note("builtin", #N, me()); return conv<R>::f(builtin_result);}
#define BASE1(R, N, P) virtual R N(P p) {note("builtin", #N, me(), p); return conv<R>::f(builtin_result);}
#define BASE2(R, N, P, Q) virtual R N(P p, Q q) {note("builtin", #N, me(), p, q); return conv<R>::f(builtin_result);}
#define A0 args.clear();
#define A1(x) args.clear(); args.push_back(&x);
#define A2(x, y) args.clear(); args.push_back(&x); args.push_back(&y);
typedef boost::system::error_code ec_t;

// what a socket does by itself: say so
#ifdef ST_ASIO_SYNC_DISPATCH
#define BASE_SYNC BASE1(size_t, on_msg, list<typename S::out_msg_type>&)
#define HOOK_SYNC HOOK(size_t, on_msg, , (m), list<typename W::out_msg_type> m; A1(m))
#else
#define BASE_SYNC
#define HOOK_SYNC
#endif
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
#define BASE_HANDLE BASE1(size_t, on_msg_handle, typename S::out_queue_type&)
#define HOOK_HANDLE HOOK(size_t, on_msg_handle, , (m), typename W::out_queue_type m; A1(m))
#else
#define BASE_HANDLE BASE1(bool, on_msg_handle, typename S::out_msg_type&)
#define HOOK_HANDLE HOOK(bool, on_msg_handle, , (m), typename W::out_msg_type m; A1(m))
#endif
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
#define BASE_SEND BASE1(void, on_msg_send, typename S::in_msg_type&)
#define HOOK_SEND HOOK(void, on_msg_send, , (m), typename W::in_msg_type m; A1(m))
#else
#define BASE_SEND
#define HOOK_SEND
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
#define BASE_ALL BASE1(void, on_all_msg_send, typename S::in_msg_type&)
#define HOOK_ALL HOOK(void, on_all_msg_send, , (m), typename W::in_msg_type m; A1(m))
#else
#define BASE_ALL
#define HOOK_ALL
#endif
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
#define BASE_SHRINK BASE1(size_t, calc_shrink_size, size_t) BASE1(void, on_msg_discard, typename S::in_container_type&)
#define HOOK_SHRINK HOOK(size_t, calc_shrink_size, , (NUMBER), A1(NUMBER)) HOOK(void, on_msg_discard, , (m), typename W::in_container_type m; A1(m))
#else
#define BASE_SHRINK
#define HOOK_SHRINK
#endif
template<typename S> struct talking : public S {
	template<typename A> talking(A& a) : S(a) {}
	const void* me() const {return static_cast<const talking*>(this);}
	BASE0(bool, obsoleted) BASE0(bool, is_ready) BASE0(void, send_heartbeat) BASE0(void, reset) BASE0(bool, on_heartbeat_error)
	BASE2(void, on_send_error, const ec_t&, typename S::in_container_type&) BASE1(void, on_recv_error, const ec_t&) BASE0(void, on_close) BASE0(void, after_close)
	BASE_SYNC BASE_HANDLE BASE_SEND BASE_ALL BASE_SHRINK
};
template<typename S> struct talking_tcp : public talking<S> {
	template<typename A> talking_tcp(A& a) : talking<S>(a) {}
	const void* me() const {return static_cast<const talking_tcp*>(this);}
	BASE0(void, on_connect) BASE0(void, on_unpack_error) BASE0(void, on_async_shutdown_error)
};
struct talking_client : public talking_tcp<T::client_socket> {
	template<typename A> talking_client(A& a) : talking_tcp<T::client_socket>(a) {}
	BASE1(int, prepare_reconnect, const ec_t&)
};
struct talking_server_socket : public talking_tcp<T::server_socket> {
	typedef T::server_socket::type_of_object_restore type_of_object_restore;
	template<typename A> talking_server_socket(A& a) : talking_tcp<T::server_socket>(a) {}
	BASE1(void, take_over, boost::shared_ptr<type_of_object_restore>)
};
struct talking_udp : public talking<U::socket> {template<typename A> talking_udp(A& a) : talking<U::socket>(a) {}};
struct quiet_server : public st_asio_wrapper::tcp::server_base<talking_server_socket> {
	typedef st_asio_wrapper::tcp::server_base<talking_server_socket> super;
	quiet_server(service_pump& p) : super(p) {}
};
struct talking_server : public quiet_server {
	template<typename A> talking_server(A& a) : quiet_server(a) {}
	const void* me() const {return this;}
	BASE0(int, async_accept_num) BASE0(void, start_next_accept) BASE1(bool, on_accept, object_ctype&) BASE2(bool, on_accept_error, const ec_t&, object_ctype&)
};
struct talking_pool : public object_pool<T::client_socket> {
	talking_pool(service_pump& p) : object_pool<T::client_socket>(p) {}
	virtual bool init() {return true;} virtual void uninit() {}
	const void* me() const {return this;}
	BASE1(void, on_create, object_ctype&)
};
typedef std::map<std::string, hook> hooks;
template<typename W, typename B> void general(hooks& h, W* w, B* b) {
	HOOK(bool, obsoleted, , (), A0) HOOK(bool, is_ready, , (), A0) HOOK(void, send_heartbeat, , (), A0) HOOK(void, reset, , (), A0) HOOK(bool, on_heartbeat_error, , (), A0)
	HOOK(void, on_send_error, , (e, m), ec_t e; typename W::in_container_type m; A2(e, m)) HOOK(void, on_recv_error, , (e), ec_t e; A1(e)) HOOK(void, on_close, , (), A0) HOOK(void, after_close, , (), A0)
	HOOK_SYNC HOOK_HANDLE HOOK_SEND HOOK_ALL HOOK_SHRINK
}
template<typename W, typename B> void stream(hooks& h, W* w, B* b) {
	general(h, w, b); HOOK(void, on_connect, , (), A0) HOOK(void, on_unpack_error, , (), A0) HOOK(void, on_async_shutdown_error, , (), A0)
}
struct object {virtual ~object() {} hooks h; const void* me;};
struct pump : public service_pump {pump() : service_pump(1) {}};
static pump P; static quiet_server Q(P); static boost::asio::io_context io;
#if TARGET == 1
struct subject : public object {typedef C::c_socket<talking_client> type; std::shared_ptr<type> p; subject() : p(std::make_shared<type>(io)) {
	talking_client* b = p.get(); me = b; stream(h, p.get(), b); typedef type W; type* w = p.get(); HOOK(int, prepare_reconnect, , (e), ec_t e; A1(e))}};
#elif TARGET == 2
struct subject : public object {typedef C::s_socket<talking_server_socket> type; std::shared_ptr<type> p; subject() : p(std::make_shared<type>(static_cast<st_asio_wrapper::tcp::i_server&>(Q))) {
	talking_server_socket* b = p.get(); me = b; stream(h, p.get(), b); typedef type W; type* w = p.get();
	HOOK(void, take_over, , (s), boost::shared_ptr<talking_server_socket::type_of_object_restore> s = boost::make_shared<talking_server_socket>(static_cast<st_asio_wrapper::tcp::i_server&>(Q)); args.clear(); args.push_back(s.get());)}};
#elif TARGET == 3
struct subject : public object {typedef C::g_socket<talking_udp> type; std::shared_ptr<type> p; subject() : p(std::make_shared<type>(io)) {talking_udp* b = p.get(); me = b; general(h, p.get(), b);}};
#elif TARGET == 4
struct subject : public object {typedef C::server<talking_server> type; std::shared_ptr<type> p; subject() : p(std::make_shared<type>(P)) {
	talking_server* b = p.get(); me = b; typedef type W; type* w = p.get();
	typedef talking_server::object_type ptr;
	HOOK(int, async_accept_num, , (), A0) HOOK(void, start_next_accept, , (), A0) HOOK(bool, on_accept, , (o), const ptr o = boost::make_shared<talking_server_socket>(static_cast<st_asio_wrapper::tcp::i_server&>(Q)); A1(o)) HOOK(bool, on_accept_error, , (e, o), ec_t e; const ptr o = boost::make_shared<talking_server_socket>(static_cast<st_asio_wrapper::tcp::i_server&>(Q)); A2(e, o))}};
#else
struct wrapped_pool : public C::object_pool<talking_pool> {wrapped_pool(service_pump& p) : C::object_pool<talking_pool>(p) {}};
struct subject : public object {typedef wrapped_pool type; std::shared_ptr<type> p; subject() : p(std::make_shared<type>(P)) {
	talking_pool* b = p.get(); me = b; typedef type W; type* w = p.get(); typedef boost::shared_ptr<T::client_socket> ptr; HOOK(void, on_create, , (o), const ptr o = boost::make_shared<T::client_socket>(io); A1(o))}};
#endif
int main() {
	std::map<std::string, std::unique_ptr<subject>> objs; std::string line;
	while (std::getline(std::cin, line)) {
		std::istringstream in(line); std::string k; in >> k; json j; bad.clear(); calls.clear(); raised.clear();
		if (k == "reset") objs.clear();
		else {
			std::string o, n, how, pass; in >> o >> n; std::unique_ptr<subject>& s = objs[o]; if (!s) s.reset(new subject); hook& x = s->h[n];
			if (!x.raise) bad = "unknown hook";
			else if (k == "reg") {in >> how >> pass; x.reg(how == "functor", pass == "D" ? 2 : pass == "T");}
			else {in >> user_result >> builtin_result; raised = n; who = s->me; int r = x.raise(); std::vector<std::string> c; for (auto& v : calls) c.push_back(jq(v)); j.raw("calls", jarr(c)).num("r", r);}
		}
		if (!bad.empty()) j.str("bad", bad);
		answer(j.done());
	}
	for (auto& o : objs) o.second.release(); // the virtual functions above don't do what a real teardown needs
	fflush(stdout); _exit(0);
}
