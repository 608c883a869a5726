// the sending half of a server socket over the mock transport
#include "quiet.h"
#include "vtime.h"
#include <ext/tcp.h>
#include "mock.h"
#include "cmd.h"
#include "dummy.h"
#include <map>
#include <deque>
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
static long SHRINK = -2;
struct sock;
typedef st_asio_wrapper::tcp::server_socket_base<packer<>, unpacker<>, dummy_server, mock_socket> base;
struct sock : public base {
	std::vector<std::string> err, gone, note, all;
	int again; // -1: leave it, 0/1: send what could not be sent again (1: in front of the others)
	sock(dummy_server& s) : base(s), again(-1) {}
	void on_send_error(const boost::system::error_code&, in_container_type& can) {for (auto& m : can) err.push_back(std::string(m.data(), m.size()));
		if (again < 0) return;
		in_container_type mine; mine.swap(can);
		if (again) for (auto i = mine.rbegin(); i != mine.rend(); ++i) direct_send_msg(std::string(i->data(), i->size()), true, true);
		else for (auto& m : mine) direct_send_msg(std::string(m.data(), m.size()), true);
	}
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
	size_t calc_shrink_size(size_t s) {return SHRINK == -2 ? base::calc_shrink_size(s) : SHRINK;}
	void on_msg_discard(in_container_type& can) {for (auto& m : can) gone.push_back(std::string(m.data(), m.size()));}
#endif
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	void on_msg_send(std::string& m) {note.push_back(m);}
#endif
#ifdef ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY
	void on_msg_send(in_container_type& can) {for (auto& m : can) note.push_back(std::string(m.data(), m.size()));
#ifdef TAKE
		can.clear();
#endif
	}
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	void on_all_msg_send(std::string& m) {all.push_back(m);}
#endif
};
struct world {
	service_pump sp; dummy_server srv; boost::asio::io_context& io; boost::asio::executor_work_guard<boost::asio::io_context::executor_type> w;
	boost::shared_ptr<sock> s; size_t limit;
	std::map<int, std::string> wire; std::string acc; unsigned serial; double m0, b0;
	world(size_t l) : srv(sp), io(sp.assign_io_context()), w(io.get_executor()), limit(l), serial(0) {reset();}
	void reset() {
		if (s) {s->next_layer().close(); s->force_shutdown(); for (int i = 0; i < 4; ++i) {io.poll(); vt_us += 100000;} io.poll();}
		s = boost::make_shared<sock>(boost::ref(srv));
		s->next_layer().force_open();
		s->send_buf_size(limit);
		wire.clear(); acc.clear();
		io.poll(); m0 = s->get_statistic().send_msg_sum; b0 = s->get_statistic().send_byte_sum;
	}
	std::string body(size_t n) { // byte values 64..255, the first ones spell the serial
		++serial; std::string r(n, 0); unsigned v = serial;
		for (size_t i = 0; i < n; ++i) {r[i] = (char) (64 + v % 192); v = i < 4 ? v / 192 + 7 * (unsigned) i : v * 1103515245u + 12345u; if (i < 4 && !v) v = serial;}
		return r;
	}
	std::vector<int> hint; // the ids the specification expects: only decides between messages with the same bytes (the heads of two messages)
	int pick(const std::string& b, size_t i, std::map<int, std::string>& m) {if (i < hint.size() && m.count(hint[i]) && m[hint[i]] == b) return hint[i]; for (auto& x : m) if (x.second == b) return x.first; return -1;}
	int id_of(const std::string& b) {for (auto& x : wire) if (x.second == b) return x.first; return -1;}
	std::vector<int> ids(const std::vector<std::string>& v) {std::vector<int> r; for (size_t i = 0; i < v.size(); ++i) r.push_back(pick(v[i], i, wire)); return r;}
	int npop;
	int pop(const std::string& b) {return pick(b, npop++, wire);}
	bool send(const std::string& form, bool ovf, bool prior, const std::vector<std::pair<int, size_t>>& ms) {
		auto head = [](size_t n) {n += 2; return std::string(1, (char) (n >> 8)) + (char) n;};
		auto pack = [&](const std::string& b) {return head(b.size()) + b;};
		if (ms.empty()) {
			std::string e; const std::string ce;
			if (form == "direct") return s->direct_send_msg(ce, ovf, prior);
			if (form == "directm") return s->direct_send_msg(e, ovf, prior);
			return s->send_native_msg(e, ovf, prior);
		}
		if (form[0] == 'q') { // packed forms which queue the head and the parts one by one
			std::string a = body(ms[1].second), b = ms.size() > 2 ? body(ms[2].second) : ""; const std::string ca = a, cb = b; list<std::string> can; can.emplace_back(a); can.emplace_back(b);
			wire[ms[0].first] = head(a.size() + b.size()); wire[ms[1].first] = a; if (ms.size() > 2) wire[ms[2].first] = b;
			if (form == "qm") return s->send_msg(a, ovf, prior);
			if (form == "qc") return s->send_msg(ca, ovf, prior);
			if (form == "qsafe") return s->safe_send_msg(a, true, prior);
			if (form == "q2m") return s->send_msg(a, b, ovf, prior);
			if (form == "q2c") return s->send_msg(ca, cb, ovf, prior);
			if (form == "ql") return s->send_msg(can, ovf, prior);
			exit(3);
		}
		std::vector<std::string> b; bool packed = form[0] == 'p';
		for (auto& m : ms) b.push_back(body(m.second - (packed ? 2 : 0)));
		for (size_t i = 0; i < ms.size(); ++i) wire[ms[i].first] = packed ? pack(b[i]) : b[i];
		std::string& x = b[0]; const std::string cx = x;
		if (ms.size() == 1) {
			size_t h = x.size() / 2; std::string x1 = x.substr(0, h), x2 = x.substr(h); const std::string c1 = x1, c2 = x2; const char* p[] = {x1.data(), x2.data()}; size_t l[] = {x1.size(), x2.size()};
			if (form == "direct") return s->direct_send_msg(cx, ovf, prior);
			if (form == "directm") return s->direct_send_msg(x, ovf, prior);
			if (form == "native") return s->send_native_msg(cx.data(), cx.size(), ovf, prior);
			if (form == "native2") return s->send_native_msg(p, l, 2, ovf, prior);
			if (form == "nativem") return s->send_native_msg(x, ovf, prior);
			if (form == "nativec") return s->send_native_msg(cx, ovf, prior);
			if (form == "safen") return s->safe_send_native_msg(x, true, prior);
			if (form == "p") return s->send_msg(cx.data(), cx.size(), ovf, prior);
			if (form == "p2") return s->send_msg(p, l, 2, ovf, prior);
		}
		else {
			if (ms.size() > 2) {list<std::string> can; for (auto& i : b) can.emplace_back(i); return form == "directl" ? s->direct_send_msg(can, ovf, prior) : s->send_native_msg(can, ovf, prior);}
			const std::string cy = b[1]; list<std::string> can; can.emplace_back(b[0]); can.emplace_back(b[1]);
			if (form == "directl") return s->direct_send_msg(can, ovf, prior);
			if (form == "nativel") return s->send_native_msg(can, ovf, prior);
			if (form == "native2c") return s->send_native_msg(cx, cy, ovf, prior);
			if (form == "native2m") return s->send_native_msg(b[0], b[1], ovf, prior);
		}
		fprintf(stderr, "form %s?\n", form.c_str()); exit(3);
	}
	std::string command(const std::string& line) {
		hint.clear(); size_t semi = line.find(';'); if (semi != std::string::npos) {std::istringstream hs(line.substr(semi + 1)); int h; while (hs >> h) hint.push_back(h);}
		std::istringstream is(line.substr(0, semi)); std::string k; is >> k; npop = 0; bool ret = true; std::string bad; std::vector<int> sent, popped;
		s->err.clear(); s->gone.clear(); s->note.clear(); s->all.clear();
		auto& t = s->next_layer();
		std::map<int, std::string> before = wire;
		if (k == "start") s->start();
		else if (k == "send" || k == "empty") {
			std::string form; int ovf, prior; is >> form >> ovf >> prior; std::vector<std::pair<int, size_t>> ms; int id; char c; size_t n;
			while (is >> id >> c >> n) ms.push_back(std::make_pair(id, n));
			ret = send(form, ovf, prior, ms);
		}
		else if (k == "drain") {
			size_t n; is >> n;
			if (!t.writing()) bad = "nothing is being written";
			while (n > 0 && t.writing() && bad.empty()) { // the transport takes the bytes in one or two pieces
				size_t m = n > 2 && serial % 2 ? n / 2 : n; std::string d = t.drain(m); io.poll(); acc += d; n -= d.size();
				if (d.empty()) bad = "an empty write";
			}
			for (bool go = true; go && !acc.empty();) {
				go = false; bool pre = false;
				if (sent.size() < hint.size()) {int h = hint[sent.size()]; auto& x = wire[h]; if (acc.compare(0, x.size(), x) == 0) {sent.push_back(h); acc.erase(0, x.size()); go = true; continue;}}
				for (auto& x : wire) {
					if (acc.compare(0, x.second.size(), x.second) == 0) {sent.push_back(x.first); acc.erase(0, x.second.size()); go = true; break;}
					if (x.second.compare(0, acc.size(), acc) == 0) pre = true;
				}
				if (!go && !pre && !acc.empty()) {bad = "bytes were written which belong to no pending message"; break;}
			}
		}
		else if (k == "werr") {t.write_error(boost::asio::error::connection_reset); io.poll(); acc.clear();}
		else if (k == "resend") {is >> s->again; t.write_error(boost::asio::error::no_buffer_space); io.poll(); s->again = -1; acc.clear();}
		else if (k == "pop") {sock::in_msg m; s->pop_first_pending_send_msg(m); if (!m.empty()) popped.push_back(pop(std::string(m.data(), m.size())));}
		else if (k == "popall") {sock::in_container_type c; s->pop_all_pending_send_msg(c); for (auto& m : c) popped.push_back(pop(std::string(m.data(), m.size())));}
		io.poll();
		double m1 = s->get_statistic().send_msg_sum, b1 = s->get_statistic().send_byte_sum;
		std::vector<int> gone;
		// a discarded message has been replaced by its successor if the id was reused at once
		for (size_t i = 0; i < s->gone.size(); ++i) gone.push_back(pick(s->gone[i], i, before));
		json j;
		size_t left = t.writing() ? 0 : 0;
		left = t.writing() ? outstanding() : 0;
		j.b("ret", ret).arr("sent", sent).arr("err", ids(s->err)).arr("gone", gone).arr("popped", popped).arr("note", ids(s->note)).arr("all", ids(s->all));
		j.num("dm", (long) (m1 - m0)).num("db", (long) (b1 - b0)); m0 = m1; b0 = b1;
		j.num("bytes", s->get_pending_send_msg_size()).b("avail", s->is_send_buffer_available()).b("writing", t.writing()).num("left", left).b("sending", s->is_sending());
		j.num("overlap", t.c().overlap_wr + t.c().overlap_rd);
		double u = s->send_buf_usage() * limit; if (u < s->get_pending_send_msg_size() - .5 || u > s->get_pending_send_msg_size() + .5) bad = "send_buf_usage is wrong";
		if (!bad.empty()) j.str("bad", bad);
		return j.done();
	}
	// asio hands at most 64 KiB of a sequence to the transport at once
	size_t outstanding() {return s->next_layer().write_size();}
};
int main(int argc, char** argv) { // limit shrink
	SHRINK = atol(argv[2]);
	world w(atol(argv[1])); std::string line;
	while (std::getline(std::cin, line)) if (line == "reset") {w.reset(); answer("{}");} else answer(w.command(line));
	return 0;
}
