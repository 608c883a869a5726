// basic_buffer under the operations of the specification; with argument "random SEED N" it chooses them itself and records the history
#include "quiet.h"
#include <ext/ext.h>
#include "cmd.h"
using namespace st_asio_wrapper::ext;
static std::vector<int> bytes(const basic_buffer& b) {std::vector<int> v; for (size_t i = 0; i < b.size(); ++i) v.push_back((unsigned char) b.data()[i]); return v;}
struct op {std::string k; std::string src; size_t pos, n; int ch;};
static const size_t HUGE_N = 1000000, TOO_BIG = (size_t) UINT_MAX + 1;
struct state {
	basic_buffer a, b; std::string bad;
	bool apply(const op& o) { // true: exception
		const size_t n = o.n >= HUGE_N ? TOO_BIG : o.n; const char c = (char) o.ch;
		// self-contained copy of the argument on the heap, so that overreads show
		char* s = (char*) malloc(o.src.size() + 1); memcpy(s, o.src.c_str(), o.src.size() + 1);
		bool thrown = false;
		try {
			if (o.k == "appendc") {if (o.n == 1 && o.ch != 1) a.append(c); else if (o.n == 1) a += c; else a.append(n, c);}
			else if (o.k == "appendx") a.append(n, c);
			else if (o.k == "append") {if (o.src.size() % 2) a.append(s, o.src.size()); else a.append(std::string(s, o.src.size()));}
			else if (o.k == "appendstr") {if (o.src.size() % 2) a.append(s); else a += (const char*) s;}
			else if (o.k == "appendhuge") a.append((const char*) s, TOO_BIG);
			else if (o.k == "append2") a.append2(s, o.src.size());
			else if (o.k == "append2str") a.append2(s);
			else if (o.k == "append2huge") a.append2((const char*) s, TOO_BIG);
			else if (o.k == "appendb") a.append(b);
			else if (o.k == "appendself") a += a;
			else if (o.k == "appendsub") {if (a.data()) a.append((const char*) a.data() + o.pos, o.n);}
			else if (o.k == "assignsub") {if (a.data()) a.assign((const char*) a.data() + o.pos, o.n);}
			else if (o.k == "assign") a.assign((const char*) s, o.src.size());
			else if (o.k == "assignhuge") a.assign((const char*) s, TOO_BIG);
			else if (o.k == "assigncopy") a = b;
			else if (o.k == "assignself") {basic_buffer& r = a; a = r;}
			else if (o.k == "assignch") a = c;
			else if (o.k == "assignlen") a.assign(o.n);
			else if (o.k == "copyctor") {basic_buffer t(b); if (t.size() && t.data() == b.data()) bad = "shared storage"; a.swap(t);}
			else if (o.k == "ctorfrom") {basic_buffer t(b, o.pos); a.swap(t);}
			else if (o.k == "ctorsub") {basic_buffer t(b, o.pos, o.n); a.swap(t);}
			else if (o.k == "ctorlen") {if (o.n % 2) {basic_buffer t((int) o.n); a.swap(t);} else {basic_buffer t((size_t) o.n); a.swap(t);}}
			else if (o.k == "ctorrep") {basic_buffer t(o.n, c); a.swap(t);}
			else if (o.k == "ctorbuf") {basic_buffer t((const char*) s, o.src.size()); a.swap(t);}
			else if (o.k == "ctorstr") {basic_buffer t(s); a.swap(t);}
			else if (o.k == "erase") a.erase(o.pos, o.n);
			else if (o.k == "erasefrom") a.erase(o.pos);
			else if (o.k == "eraseall") a.erase();
			else if (o.k == "resize") a.resize(n);
			else if (o.k == "reserve") {a.reserve(n); if (a.capacity() < o.n) bad = "reserved less than asked";}
			else if (o.k == "shrink") a.shrink_to_fit();
			else if (o.k == "clear") a.clear();
			else if (o.k == "clean") a.clean();
			else if (o.k == "swap") a.swap(b);
			else bad = "unknown operation";
		}
		catch (const std::exception&) {thrown = true;}
		free(s);
		if (a.capacity() < a.size() || b.capacity() < b.size()) bad = "capacity below length";
		if (a.empty() != (a.size() == 0)) bad = "empty() does not match size()";
		if (a.size() && b.size() && a.data() == b.data()) bad = "shared storage";
		return thrown;
	}
};
int main(int argc, char** argv) {
	if (argc > 3 && std::string(argv[1]) == "random") {
		unsigned x = (unsigned) atoi(argv[2]); int N = atoi(argv[3]);
		auto rnd = [&](unsigned n) {x = x * 1664525u + 1013904223u; return (x >> 8) % n;};
		static const char* ks[] = {"appendc", "append", "appendstr", "append2", "append2str", "appendb", "appendself", "appendsub", "assignsub", "assign", "assigncopy", "assignself", "assignch",
			"assignlen", "copyctor", "ctorfrom", "ctorsub", "ctorlen", "ctorrep", "ctorbuf", "ctorstr", "erase", "erasefrom", "eraseall", "resize", "reserve", "shrink", "clear", "clean", "swap",
			"append", "append", "appendc", "append", "erase", "swap", "reserve", "resize"};
		static const size_t sizes[] = {0, 1, 2, 7, 15, 16, 17, 31, 32, 33, 48, 64, 65};
		state s;
		for (int i = 0; i < N; ++i) {
			op o; o.k = ks[rnd(sizeof ks / sizeof *ks)]; o.n = sizes[rnd(13)]; o.pos = rnd(3) ? rnd((unsigned) s.a.size() + 3) : sizes[rnd(13)]; o.ch = 1 + rnd(5);
			if (rnd(9) == 0) o.ch = 0;
			size_t sl = sizes[rnd(13)]; for (size_t j = 0; j < sl; ++j) o.src += (char) (rnd(40) ? 1 + rnd(5) : 0);
			if (s.a.size() > 200) {o.k = rnd(2) ? "eraseall" : "swap"; if (s.b.size() > 200) o.k = "clear";}
			if (o.k == "appendsub" || o.k == "assignsub") {o.pos = rnd((unsigned) s.a.size() + 1); o.n = rnd((unsigned) (s.a.size() - o.pos) + 1);}
			bool t = s.apply(o); 
			std::vector<int> src; for (char ch : o.src) src.push_back((unsigned char) ch);
			json j; j.str("e", "op").str("k", o.k).arr("src", src).num("pos", o.pos).num("n", o.n).num("ch", o.ch).b("throws", t).arr("a", bytes(s.a)).arr("b", bytes(s.b));
			if (!s.bad.empty()) j.str("bad", s.bad);
			answer(j.done());
		}
		return 0;
	}
	state* s = new state; std::string line;
	while (std::getline(std::cin, line)) {
		if (line == "reset") {delete s; s = new state; answer("{}"); continue;}
		std::istringstream is(line); op o; is >> o.k >> o.pos >> o.n >> o.ch; int v; while (is >> v) o.src += (char) v;
		bool t = s->apply(o);
		json j; j.b("throws", t).arr("a", bytes(s->a)).arr("b", bytes(s->b));
		if (!s->bad.empty()) j.str("bad", s->bad);
		answer(j.done());
		// unspecified bytes are marked
		if (o.k == "resize" || o.k == "assignlen" || o.k == "ctorlen") ;
	}
	delete s;
	return 0;
}
