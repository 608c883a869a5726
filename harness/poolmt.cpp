// an object pool used by several threads at once; its shared mutex is a scheduling point
#include "quiet.h"
#include "vtime.h"
#include "steps.h"
#include <boost/thread.hpp>
struct hook_mutex {
	boost::shared_mutex m;
	void lock() {sched::point(); m.lock();}
	void unlock() {m.unlock(); sched::point();}
	bool try_lock() {sched::point(); return m.try_lock();}
	void lock_shared() {sched::point(); m.lock_shared();}
	void unlock_shared() {m.unlock_shared(); sched::point();}
	bool try_lock_shared() {sched::point(); return m.try_lock_shared();}
};
#define ST_ASIO_SHARED_MUTEX_TYPE hook_mutex
#define ST_ASIO_SHARED_LOCK_TYPE boost::shared_lock
#define ST_ASIO_START_OBJECT_ID 1
#include <ext/tcp.h>
#include "mock.h"
#include "cmd.h"
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
struct dummy_matrix : public st_asio_wrapper::i_matrix {
	service_pump& sp; dummy_matrix(service_pump& s) : sp(s) {}
	bool started() const {return true;}
	service_pump& get_service_pump() {return sp;}
	const service_pump& get_service_pump() const {return sp;}
	bool socket_exist(boost::uint_fast64_t) {return false;}
	boost::shared_ptr<tracked_executor> find_socket(boost::uint_fast64_t) {return boost::shared_ptr<tracked_executor>();}
	bool del_socket(boost::uint_fast64_t) {return true;}
};
typedef st_asio_wrapper::tcp::client_socket_base<packer<>, unpacker<>, i_matrix, mock_socket> sock;
typedef boost::shared_ptr<sock> ptr;
struct keeper : public object_pool<sock> {
	dummy_matrix dm;
	keeper(service_pump& sp, size_t limit) : object_pool<sock>(sp), dm(sp) {max_size(limit);}
	bool init() {return true;}
	void uninit() {}
	ptr make() {return create_object(dm);}
	bool add(ptr const& p) {return add_object(p);}
	bool del(ptr const& p) {return del_object(p);}
	bool del(boost::uint_fast64_t id) {return del_object(id);}
	bool init_id(ptr const& p, boost::uint_fast64_t id) {return init_object_id(p, id);}
};
static std::vector<std::string> EV; static std::mutex EVM;
static void ev(const std::string& s) {std::lock_guard<std::mutex> l(EVM); EV.push_back(s);}
// <limit> <objects> <initially live> ; per thread: op o id op o id ... ; schedule
static std::string run(const std::string& line) {
	EV.clear(); std::istringstream is(line); size_t limit; int n, nl; is >> limit >> n >> nl; std::string part; std::getline(is, part, ';');
	std::vector<std::string> parts; while (std::getline(is, part, ';')) parts.push_back(part);
	service_pump sp; std::string bad;
	{
	keeper k(sp, limit); std::vector<ptr> o(1); std::vector<int> lv;
	for (int i = 1; i <= n; ++i) {o.push_back(k.make()); if ((int) o[i]->id() != i) bad = "ids are not issued in sequence";}
	for (int i = 1; i <= nl; ++i) {k.add(o[i]); lv.push_back(i);}
	json b; b.str("e", "begin").arr("live", lv); ev(b.done());
	auto num = [&](ptr const& p) {for (int i = 1; i <= n; ++i) if (o[i] == p) return i; return 0;};
	{
		sched sc;
		for (size_t t = 0; t + 1 < parts.size(); ++t)
			sc.add("t" + std::to_string(t + 1), [&, t] {
				std::istringstream ps(parts[t]); std::string op; int x, id;
				while (ps >> op >> x >> id) {
					ev("{\"e\":\"call\",\"t\":" + std::to_string(t + 1) + ",\"op\":\"" + op + "\",\"o\":" + std::to_string(x) + ",\"id\":" + std::to_string(id) + "}");
					long r = op == "add" ? k.add(o[x]) : op == "del" ? k.del(o[x]) : op == "delid" ? k.del((boost::uint_fast64_t) id) : op == "init" ? k.init_id(o[x], id) : op == "find" ? (id % 2 ? num(k.find(id)) : num(boost::dynamic_pointer_cast<sock>(k.find(id)))) : (long) k.size();
					ev("{\"e\":\"ret\",\"t\":" + std::to_string(t + 1) + ",\"res\":" + std::to_string(r) + "}");
					sched::point();
				}
			});
		std::istringstream ss(parts.back()); std::string t;
		while (ss >> t) if (ctl* c = sc.find(t)) sc.step(c);
		for (bool any = true; any;) {any = false; for (auto& c : sc.all) if (!c->done && sc.step(c.get())) any = true;}
	}
	std::vector<std::string> live; std::vector<int> rem;
	k.do_something_to_all([&](ptr const& p) {live.push_back("[" + std::to_string(num(p)) + "," + std::to_string((long) p->id()) + "]"); if (k.container().find(p->id()) == k.container().end()) bad = "an object is not stored under its id";});
	for (size_t i = 0; i < k.invalid_object_size(); ++i) rem.push_back(num(k.invalid_object_at(i)));
	json j; j.str("e", "rest").raw("live", jarr(live)).arr("rem", rem); ev(j.done());
	}
	json j; j.raw("ev", jarr(EV)); if (!bad.empty()) j.str("bad", bad);
	return j.done();
}
int main() {std::string line; while (std::getline(std::cin, line)) answer(run(line)); return 0;}
