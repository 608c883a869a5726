// feeds byte segments chosen by the specification through the real reading path: a server socket over the mock transport,
// boost::asio::async_read with the unpacker's completion condition, parse_msg, dispatch
#include "quiet.h"
#include "vtime.h"
#include <ext/tcp.h>
#include "mock.h"
#include "cmd.h"
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;

struct dummy_server : public st_asio_wrapper::tcp::i_server {
	service_pump& sp;
	dummy_server(service_pump& s) : sp(s) {}
	bool started() const {return true;}
	service_pump& get_service_pump() {return sp;}
	const service_pump& get_service_pump() const {return sp;}
	bool del_socket(const boost::shared_ptr<tracked_executor>&, bool) {return true;}
	bool restore_socket(const boost::shared_ptr<tracked_executor>&, boost::uint_fast64_t, bool) {return false;}
};
struct frame {std::string wire, body; bool deliver;};
static const char* FMT; static const char* MODE = ""; static std::string PRE, SUF; static bool STRIPPED = true; static size_t FIXED = 0;

template<typename U, typename P> struct harness {
	struct sock : public st_asio_wrapper::tcp::server_socket_base<P, U, dummy_server, mock_socket> {
		typedef st_asio_wrapper::tcp::server_socket_base<P, U, dummy_server, mock_socket> super;
		std::vector<std::string> got; int errs; std::string bad; bool stop_feed;
		sock(dummy_server& s) : super(s), errs(0), stop_feed(false) {}
		bool on_msg_handle(typename U::msg_type& msg) {
			auto& u = *this->unpacker();
			std::string all(msg.data(), msg.size());
			const typename U::msg_type& cm = msg;
			std::string raw(u.raw_data(msg), u.raw_data_len(msg)), raw2(u.raw_data(cm), u.raw_data_len(cm));
			if (raw != raw2) bad = "raw_data differs between the const and the non-const accessor";
			got.push_back(all); raws.push_back(raw);
			return true;
		}
		std::vector<std::string> raws;
		void on_unpack_error() {++errs; stop_feed = true;}
	};
	service_pump sp; dummy_server srv; boost::asio::io_context& io; boost::asio::executor_work_guard<boost::asio::io_context::executor_type> w;
	boost::shared_ptr<sock> s;
	long serial; std::vector<frame> expect; size_t given;
	frame part; size_t part_off; std::string part_wire;
	harness() : srv(sp), io(sp.assign_io_context()), w(io.get_executor()), serial(0) {reset();}
	void reset() {
		if (s) {s->next_layer().close(); s->force_shutdown(); for (int i = 0; i < 4; ++i) {io.poll(); vt_us += 100000;} io.poll();}
		s = boost::make_shared<sock>(boost::ref(srv));
		s->next_layer().force_open();
		s->unpacker()->stripped(STRIPPED);
		conf(boost::dynamic_pointer_cast<U>(s->unpacker()));
		s->start(); io.poll();
		part_wire.clear(); part_off = 0; expect.clear();
	}
	void conf(boost::shared_ptr<prefix_suffix_unpacker> u) {u->prefix_suffix(PRE, SUF);}
	void conf(boost::shared_ptr<fixed_length_unpacker> u) {u->fixed_length(FIXED); /* the first read has not been started */}
	template<typename X> void conf(boost::shared_ptr<X>) {}

	std::string head(unsigned long v) {std::string r; if (sizeof(ST_ASIO_HEAD_TYPE) == 4) {r += (char) (v >> 24); r += (char) (v >> 16);} r += (char) (v >> 8); r += (char) v; return r;}
	// body bytes: pseudo random, from a small alphabet for delimiters (containing pieces of prefix and suffix but never a whole suffix or its last byte)
	std::string body(size_t n) {
		std::string r; ++serial;
		std::string alpha = SUF.empty() ? std::string() : PRE + SUF.substr(0, SUF.size() - 1) + "x";
		std::string a2; for (char ch : alpha) if (ch != SUF[SUF.size() - 1]) a2 += ch;
		for (size_t i = 0; i < n; ++i) {unsigned v = (unsigned) (serial * 2654435761u + i * 40503u * (i + serial)); v ^= v >> 13; r += a2.empty() ? (char) v : a2[v % a2.size()];}
		return r;
	}
	// kind: v <body> valid; h heartbeat; l <claimed length> <bytes> bad length; p <position> <bytes> wrong prefix; s <bytes> no suffix; x <bytes> raw
	frame make(const std::string& d) {
		std::istringstream is(d); std::string k; long a = 0, b = 0; std::getline(is, k, ','); char c; is >> a >> c >> b;
		frame f; f.deliver = false;
		std::string fmt = FMT;
		if (k == "v" || k == "h") {
			f.body = k == "v" ? body(a) : "";
			f.deliver = k == "v";
			if (fmt == "head") f.wire = head(f.body.size() + ST_ASIO_HEAD_LEN) + f.body;
			else if (fmt == "ps") f.wire = PRE + f.body + SUF;
			else f.wire = f.body;
		}
		else if (k == "l") f.wire = head(a) + body(b - ST_ASIO_HEAD_LEN);
		else if (k == "p") {f.wire = PRE + body(b - PRE.size()); f.wire[a] ^= 1;}
		else if (k == "s") f.wire = PRE + body(a - PRE.size());
		return f;
	}
	std::string command(const std::string& line) { // "stop n desc desc ..." : the frame in progress comes first if `part_off` > 0
		std::istringstream is(line); long off, stop; is >> off >> stop; std::vector<std::string> ds; std::string d; while (is >> d) ds.push_back(d);
		std::string seg; std::vector<frame> touched;
		size_t i = 0;
		if (off > 0) {frame f = part; touched.push_back(f); bool last = ds.empty(); seg += f.wire.substr(off, last ? stop - off : std::string::npos);}
		for (; i < ds.size(); ++i) {frame f = make(ds[i]); touched.push_back(f); seg += i + 1 == ds.size() ? f.wire.substr(0, stop) : f.wire;}
		part = touched.back();
		s->got.clear(); s->raws.clear(); s->errs = 0; s->bad.clear(); s->stop_feed = false;
		size_t pos = 0; int idle = 0; std::string stuck;
		while (pos < seg.size()) {
			if (s->stop_feed) break;
			if (!s->next_layer().reading()) {if (++idle > 3) {stuck = "not reading"; break;} io.poll(); continue;}
			idle = 0;
			pos += s->next_layer().feed(seg.data() + pos, seg.size() - pos);
			io.poll();
		}
		io.poll();
		json j; std::vector<size_t> lens; std::string bad = s->bad;
		size_t gi = 0;
		if (std::string(MODE) == "stream") {std::string all; for (auto& g : s->got) all += g; if (all != seg) bad = "the stream was changed"; }
		else for (size_t t = 0; t < touched.size() && gi < s->got.size(); ++t) if (touched[t].deliver) {
			const frame& f = touched[t];
			std::string want = STRIPPED ? f.body : f.wire;
			if (s->got[gi] != want) {if (bad.empty()) bad = "message " + std::to_string(gi) + " is not what was sent";}
			else if (s->raws[gi] != f.body) {if (bad.empty()) bad = "raw data of message " + std::to_string(gi) + " is not the body";}
			++gi;
		}
		for (auto& g : s->raws) lens.push_back(g.size());
		j.arr("msgs", lens).b("err", s->errs > 0);
		if (s->errs > 1) bad = "reported more than once";
		if (!stuck.empty()) bad = stuck;
		if (bad.empty() && !s->stop_feed && !s->next_layer().reading()) bad = "reading stopped";
		if (!bad.empty()) j.str("bad", bad);
		return j.done();
	}
	void serve() {
		std::string line;
		while (std::getline(std::cin, line)) {
			if (line == "reset") {reset(); answer("{}");}
			else answer(command(line));
		}
	}
};
int main(int argc, char** argv) { // unpacker stripped [prefix suffix | fixed length]
	std::string u = argv[1]; STRIPPED = atoi(argv[2]) != 0;
	FMT = "head"; MODE = argv[1];
	if (u == "unpacker") {harness<unpacker<>, packer<> > h; h.serve();}
	else if (u == "unpacker_bb") {harness<unpacker<basic_buffer>, packer<> > h; h.serve();}
#if ST_ASIO_MSG_BUFFER_SIZE >= 4000
	else if (u == "flexible") {harness<flexible_unpacker<>, packer<> > h; h.serve();}
	else if (u == "flexible_str") {harness<flexible_unpacker<std::string>, packer<> > h; h.serve();}
	else if (u == "unpacker2f") {harness<unpacker2<shared_buffer<basic_buffer>, basic_buffer, flexible_unpacker<> >, packer<> > h; h.serve();}
#endif
	else if (u == "unpacker2") {harness<unpacker2<>, packer<> > h; h.serve();}
	else if (u == "noncopy") {harness<non_copy_unpacker, packer<> > h; h.serve();}
	else if (u == "ps") {FMT = "ps"; PRE = argc > 3 ? argv[3] : ""; SUF = argc > 4 ? argv[4] : "\n"; if (PRE == "-") PRE = ""; harness<prefix_suffix_unpacker, packer<> > h; h.serve();}
	else if (u == "fixed") {FMT = "raw"; FIXED = atoi(argv[3]); harness<fixed_length_unpacker, packer<> > h; h.serve();}
	else if (u == "stream") {FMT = "raw"; harness<stream_unpacker, packer<> > h; h.serve();}
	return 0;
}
