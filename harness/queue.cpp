// drives queue<Container, Lockable> of container.h
#include "quiet.h"
#include <container.h>
#include "cmd.h"
#include <thread>
#include <atomic>
#include <random>
#include <mutex>
using namespace st_asio_wrapper;

struct item { // a message: identity and size, swappable, clearable
	long id_; size_t n; std::string pad;
	item() : id_(-1), n(0) {}
	item(long i, size_t s) : id_(i), n(s), pad("x") {}
	bool empty() const {return 0 == n;}
	size_t size() const {return n;}
	const char* data() const {return pad.data();}
	void clear() {id_ = -1; n = 0; pad.clear();}
	void swap(item& o) {std::swap(id_, o.id_); std::swap(n, o.n); pad.swap(o.pad);}
};
typedef list<item> can;

static std::atomic<long> ticket(0);
static thread_local long my_seq = -1;
class log_lockable { // a mutex which remembers the order of the critical sections
public:
	typedef boost::lock_guard<log_lockable> lock_guard;
	bool is_lockable() const {return true;}
	void lock() {m.lock(); if (my_seq < 0) my_seq = ticket++;}
	void unlock() {m.unlock();}
private:
	std::mutex m;
};
template<typename C> class log_queue : public queue<C, log_lockable> {};

template<typename Q> struct driver {
	Q q;
	std::string obs() {json j; j.num("bytes", q.size_in_byte()).num("num", q.size()).b("empty", q.is_empty()); return j.done();}
	static std::string ids(const can& c) {std::string t = "["; bool f = true; for (auto i = c.begin(); i != c.end(); ++i) {if (!f) t += ","; t += std::to_string(i->id_); f = false;} return t + "]";}
	std::vector<long> seen; size_t stop;
	bool see(item& i) {seen.push_back(i.id_); return seen.size() >= stop;}
	// returns the json array of the identities which came out
	std::string op(const std::string& k, long a, const std::vector<std::pair<long, size_t> >& items) {
		can src; size_t bytes = 0;
		for (auto& p : items) {src.emplace_back(p.first, p.second); bytes += p.second;}
		static const long MARK = 1000000;
		can dest;
		std::string out = "[]";
		bool mark = false;
		if (k == "enq") {item i(items[0].first, items[0].second); if (!q.enqueue(i)) return "\"false\"";}
		else if (k == "enqc") {const item i(items[0].first, items[0].second); if (!q.enqueue(i)) return "\"false\"";}
		else if (k == "front") {item i(items[0].first, items[0].second); if (!q.enqueue_front(i)) return "\"false\"";}
		else if (k == "frontc") {const item i(items[0].first, items[0].second); if (!q.enqueue_front(i)) return "\"false\"";}
		else if (k == "in") {q.move_items_in(src, bytes); if (!src.empty()) return "\"src not empty\"";}
		else if (k == "in0") {q.move_items_in(src); if (!src.empty()) return "\"src not empty\"";}
		else if (k == "infront") {q.move_items_in_front(src, bytes); if (!src.empty()) return "\"src not empty\"";}
		else if (k == "infront0") {q.move_items_in_front(src); if (!src.empty()) return "\"src not empty\"";}
		else if (k == "swap") {q.swap(src); out = ids(src);}
		else if (k == "clear") q.clear();
		else if (k == "deq") {item i; if (q.try_dequeue(i)) out = "[" + std::to_string(i.id_) + "]"; else if (i.id_ != -1) return "\"touched\"";}
		else if (k == "outall" || k == "outn" || k == "outb") {
			if (a % 2) {dest.emplace_back(MARK, 7); mark = true;} // removed items are appended behind what the destination holds
			if (k == "outall") q.move_items_out(dest); else if (k == "outn") q.move_items_out(dest, (size_t) a); else q.move_items_out((size_t) a, dest);
			if (mark) {if (dest.empty() || dest.front().id_ != MARK) return "\"destination overwritten\""; dest.pop_front();}
			out = ids(dest);
		}
		else if (k == "each" || k == "until") {
			seen.clear(); stop = k == "each" ? (size_t) -1 : (size_t) a;
			if (k == "each") q.do_something_to_all(boost::bind(&driver::see, this, boost::placeholders::_1));
			else q.do_something_to_one(boost::bind(&driver::see, this, boost::placeholders::_1));
			json j; j.arr("x", seen); out = j.s.substr(4);
		}
		else return "\"unknown\"";
		return out;
	}
};

template<typename Q> void serve() {
	Q* d = new Q;
	std::string line;
	while (std::getline(std::cin, line)) {
		std::istringstream is(line); std::string k; is >> k;
		if (k == "reset") {delete d; d = new Q; answer("{}"); continue;}
		long a, n; is >> a >> n; std::vector<std::pair<long, size_t> > items;
		for (long i = 0; i < n; ++i) {long id; size_t s; is >> id >> s; items.push_back(std::make_pair(id, s));}
		std::string out = d->op(k, a, items);
		json j; j.raw("out", out).raw("obs", d->obs());
		answer(j.done());
	}
	delete d;
}

// a long random sequential history (sizes up to 10^5), or a concurrent one ordered by the critical sections
static std::string op_json(const std::string& k, long a, const std::vector<std::pair<long, size_t> >& items) {
	std::vector<std::string> v;
	for (auto& p : items) v.push_back("{\"id\":" + std::to_string(p.first) + ",\"n\":" + std::to_string(p.second) + "}");
	json j; j.str("k", k).num("a", a).raw("items", jarr(v)); return j.done();
}
template<typename D> void random_op(D& d, std::mt19937& g, long& next_id, bool conc, std::string& opj, std::string& out, size_t maxsz, bool calm = false) {
	static const char* ks[] = {"enq", "enqc", "front", "frontc", "in", "in0", "infront", "infront0", "swap", "clear", "deq", "outall", "outn", "outb", "each", "until"};
	int w = g() % 100; int ki;
	if (calm) ki = w < 45 ? 0 + g() % 2 : w < 60 ? 4 + g() % 2 : w < 70 ? 2 + g() % 2 : w < 85 ? 10 : w < 92 ? 12 : 13;
	else ki = w < 40 ? g() % 8 : w < 88 ? 10 + g() % 6 : w < 90 ? 8 : w < 91 ? 9 : g() % 8;
	std::string k = ks[ki];
	std::vector<std::pair<long, size_t> > items; long a = 0;
	int n = ki < 4 ? 1 : ki < 9 ? g() % 5 : 0;
	for (int i = 0; i < n; ++i) items.push_back(std::make_pair(next_id++, (size_t) (g() % (maxsz + 1))));
	if (k == "outn" || k == "until") a = (k == "until") + g() % 6;
	if (k == "outb") a = g() % 4 ? g() % (3 * maxsz + 2) : g() % 3;
	my_seq = -1;
	out = d.op(k, a, items);
	opj = op_json(k, a, items);
}
int main(int argc, char** argv) {
	std::string mode = argc > 1 ? argv[1] : "lock";
	if (mode == "lock") serve<driver<lock_queue<can> > >();
	else if (mode == "nolock") serve<driver<non_lock_queue<can> > >();
	else if (mode == "random") { // seed, operations
		std::mt19937 g(atoi(argv[2])); int n = atoi(argv[3]); driver<lock_queue<can> > d; long id = 0;
		static const size_t mx[] = {1, 3, 100, 100000};
		size_t m = mx[atoi(argv[2]) % 4];
		for (int i = 0; i < n; ++i) {
			std::string o, out; random_op(d, g, id, false, o, out, m);
			json r; r.raw("out", out).raw("obs", d.obs());
			json j; j.str("e", "op").raw("op", o).raw("res", r.done()); answer(j.done());
		}
	}
	else if (mode == "conc") { // seed, operations per thread, threads
		int seed = atoi(argv[2]), n = atoi(argv[3]), t = atoi(argv[4]);
		static log_queue<can> shared;
		std::vector<std::vector<std::pair<long, std::string> > > logs(t);
		std::vector<std::thread> ths; std::atomic<int> go(0); std::atomic<bool> unlocked(false);
		struct ref {log_queue<can>& q;};
		struct sdriver {
			std::vector<long> seen; size_t stop;
		};
		static driver<log_queue<can>>* dd = new driver<log_queue<can>>[1];
		for (int ti = 0; ti < t; ++ti) ths.emplace_back([&, ti] {
			std::mt19937 g(seed * 100 + ti); long id = 1 + ti * 100000;
			++go; while (go < t);
			for (int i = 0; i < n; ++i) {
				std::string o, out; random_op(*dd, g, id, true, o, out, 9, true);
				json r; r.raw("out", out);
				json j; j.str("e", "op").raw("op", o).raw("res", r.done());
				if (my_seq < 0) {unlocked = true; j.b("unlocked", true);}
				logs[ti].push_back(std::make_pair(my_seq, j.done()));
			}
		});
		for (auto& x : ths) x.join();
		std::vector<std::pair<long, std::string> > all;
		for (auto& l : logs) all.insert(all.end(), l.begin(), l.end());
		std::sort(all.begin(), all.end());
		for (auto& p : all) answer(p.second);
		my_seq = 0;
		std::string out = dd->op("each", 0, std::vector<std::pair<long, size_t> >()); // final state
		json r; r.raw("out", out).raw("obs", dd->obs());
		json j; j.str("e", "op").raw("op", op_json("each", 0, std::vector<std::pair<long, size_t> >())).raw("res", r.done()); answer(j.done());
	}
	return 0;
}
