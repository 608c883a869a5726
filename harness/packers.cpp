// packs messages as the specification says and reports what came out
#include "quiet.h"
#include <ext/tcp.h>
#include "cmd.h"
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
static std::string PRE, SUF;
static unsigned serial = 0;
static std::string body(size_t n) {
	static std::string pool; // random bytes
	if (pool.empty()) {unsigned v = 12345; for (size_t i = 0; i < 2 * ST_ASIO_MSG_BUFFER_SIZE + 5000; ++i) {v = v * 1664525u + 1013904223u; pool += (char) (v >> 24);}}
	return pool.substr(++serial * 7 % 4000, n);
}
static unsigned long be(const std::string& s) {unsigned long v = 0; for (size_t i = 0; i < s.size(); ++i) v = v << 8 | (unsigned char) s[i]; return v;}

template<typename M> struct mk {static M of(const std::string& s) {M m; m.assign(s.data(), s.size()); return m;}};
template<typename T> T* raw_of(const std::string& s) {T* t = new T(); t->assign(s.data(), s.size()); return t;}
struct direct;
template<typename P, typename RAW> typename std::enable_if<!std::is_same<RAW, direct>::value>::type make_into(typename P::msg_type& m, const std::string& s, RAW*) {m.raw_buffer(raw_of<RAW>(s));}
struct direct {}; // the message type holds the bytes itself
template<typename P> void make_into(typename P::msg_type& m, const std::string& s, direct*) {m.assign(s.data(), s.size());}
template<typename M> std::string str(const M& m) {return m.size() > 0 ? std::string(m.data(), m.size()) : std::string();}

template<bool C> struct const_forms { // messages which cannot be copied have no const forms
	template<typename P, typename M, typename L> static bool one(P& p, M& m, L& c) {return p.pack_msg(const_cast<const M&>(m), c);}
	template<typename P, typename M, typename L> static bool two(P& p, M& a, M& b, L& c) {return p.pack_msg(const_cast<const M&>(a), const_cast<const M&>(b), c);}
};
template<> struct const_forms<false> {
	template<typename P, typename M, typename L> static bool one(P& p, M& m, L& c) {return p.pack_msg(m, c);}
	template<typename P, typename M, typename L> static bool two(P& p, M& a, M& b, L& c) {return p.pack_msg(a, b, c);}
};
static void conf(prefix_suffix_packer& p) {p.prefix_suffix(PRE, SUF);}
template<typename P> static void conf(P&) {}

template<typename P, typename RAW, bool COPY> void serve(const std::string& kind) {
	P pk; conf(pk);
	typename P::msg_type msg;
	std::string line;
	while (std::getline(std::cin, line)) {
		if (line == "reset") {typename P::msg_type m2; msg.swap(m2); answer("{}"); continue;}
		std::istringstream is(line); std::string form; int native; is >> form >> native;
		std::vector<long> lens; long l; while (is >> l) lens.push_back(l);
		std::string before = str(msg), want, wire, bad; bool ok = false, iscan = form.compare(0, 3, "can") == 0;
		std::vector<std::string> parts;
		for (size_t i = 0; i < lens.size(); ++i) {parts.push_back(body(lens[i] > 0 ? lens[i] : 0)); want += parts.back();}
		if (form == "parts") {
			std::vector<const char*> ps; std::vector<size_t> ls;
			for (size_t i = 0; i < lens.size(); ++i) {ps.push_back(lens[i] == -2 ? NULL : parts[i].data()); ls.push_back(lens[i] == -1 ? (size_t) -1 : lens[i] == -2 ? 7 : parts[i].size());}
			ps.push_back(NULL); ls.push_back(0);
			ok = pk.pack_msg(msg, &ps[0], &ls[0], lens.size(), native != 0);
		}
		else if (form == "buf") ok = pk.pack_msg(msg, parts[0].data(), lens[0] == -1 ? (size_t) -1 : parts[0].size(), native != 0);
		else if (form == "str") ok = pk.pack_msg(msg, parts[0], native != 0);
		else if (form == "hb") {typename P::msg_type hb; ok = pk.pack_heartbeat(hb); wire = str(hb); if (!ok && !wire.empty()) bad = "refused heartbeat with output";}
		else {
			typename P::container_type in, out;
			for (size_t i = 0; i < parts.size(); ++i) make_into<P>(in.emplace_back(), parts[i], (RAW*) NULL);
			bool cf = form == "can1c" || form == "can2c";
			if (form == "can1") ok = pk.pack_msg(in.front(), out);
			else if (form == "can2") ok = pk.pack_msg(in.front(), in.back(), out);
			else if (form == "can1c") ok = const_forms<COPY>::one(pk, in.front(), out);
			else if (form == "can2c") ok = const_forms<COPY>::two(pk, in.front(), in.back(), out);
			else ok = pk.pack_msg(in, out);
			for (typename P::container_type::iterator i = out.begin(); i != out.end(); ++i) wire += str(*i);
			if (!ok && !out.empty()) bad = "refused with output";
			std::string rest; for (typename P::container_type::iterator i = in.begin(); i != in.end(); ++i) rest += str(*i);
			if ((!ok || (cf && COPY)) && rest != want) bad = "the source was changed";
		}
		if (form != "hb" && !iscan) {
			wire = str(msg);
			if (!ok) {if (!wire.empty() && wire != before) bad = "refused with output"; wire.clear();}
			else if (!wire.empty() && !native) {
				const typename P::msg_type& cm = msg;
				if (std::string(pk.raw_data(msg), pk.raw_data_len(msg)) != want || std::string(pk.raw_data(cm), pk.raw_data_len(cm)) != want) bad = "raw data is not the body";
			}
		}
		// the wire: overhead + body
		size_t blen = 0;
		if (ok && !wire.empty()) {
			std::string b = wire;
			if (kind == "head" && !native) {
				if (b.size() < ST_ASIO_HEAD_LEN) bad = "no head";
				else {if (be(b.substr(0, ST_ASIO_HEAD_LEN)) != wire.size()) bad = "the head says " + std::to_string(be(b.substr(0, ST_ASIO_HEAD_LEN))) + " instead of " + std::to_string(wire.size()); b = b.substr(ST_ASIO_HEAD_LEN);}
			}
			else if (kind == "ps" && !native) {
				if (b.size() < PRE.size() + SUF.size() || b.compare(0, PRE.size(), PRE) || b.compare(b.size() - SUF.size(), SUF.size(), SUF)) bad = "prefix or suffix missing";
				else b = b.substr(PRE.size(), b.size() - PRE.size() - SUF.size());
			}
			if (bad.empty() && b != want) bad = "the body is not the concatenation of the parts";
			blen = b.size();
		}
		json j; j.b("ok", ok).num("total", wire.size()).num("body", blen);
		if (!bad.empty()) j.str("bad", bad);
		answer(j.done());
	}
}
int main(int argc, char** argv) {
	std::string u = argv[1];
	if (argc > 3) {PRE = argv[2]; SUF = argv[3]; if (PRE == "-") PRE.clear();}
	if (u == "packer") serve<packer<>, direct, true>("head");
	else if (u == "packer_bb") serve<packer<basic_buffer>, direct, true>("head");
	else if (u == "packer2") serve<packer2<>, string_buffer, false>("head");
	else if (u == "packer2_sbb") serve<packer2<shared_buffer<basic_buffer>, basic_buffer, packer<basic_buffer> >, basic_buffer, true>("head");
	else if (u == "packer2_ss") serve<packer2<shared_buffer<std::string>, std::string>, std::string, true>("head");
	else if (u == "fixed") serve<fixed_length_packer, direct, true>("raw");
	else if (u == "ps") serve<prefix_suffix_packer, direct, true>("ps");
	return 0;
}
