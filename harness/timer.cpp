// a timer object under virtual time
#include "quiet.h"
#include "vtime.h"
#include <boost/lambda/bind.hpp>
#include <ext/tcp.h>
#include "cmd.h"
using namespace st_asio_wrapper;
static const int UNIT = 100; // ms
struct obj : public timer<tracked_executor> {obj(boost::asio::io_context& io) : timer<tracked_executor>(io) {}};
static boost::asio::io_context* io; static obj* o; static int N;
static std::vector<std::string> fired; static std::string bad;
static int other(int i) {return N == 1 ? i : 3 - i;}
struct script { // captures are checked after the actions: the callback must stay valid while it runs
	std::string s; int id; std::string guard;
	script(const std::string& s_, int id_) : s(s_), id(id_), guard("guard of " + s_ + " of timer " + std::to_string(id_)) {}
	bool operator()(unsigned short tid) {
		std::string my = s; int i = id;
		if (tid != i) bad = "called back with a wrong id";
		fired.push_back("{\"id\":" + std::to_string(i) + ",\"cb\":\"" + my + "\"}");
		bool want_run = true, check = false;
		if (my == "StopT" || my == "StopF") {o->stop_timer(i); check = true; want_run = false;}
		else if (my == "StartT" || my == "StartF") {o->start_timer(i); check = true;}
		else if (my == "SetT" || my == "SetF") {o->set_timer(i, 3 * UNIT, script("T", i)); check = true;}
		else if (my == "StopSetF") {o->stop_timer(i); o->set_timer(i, 1 * UNIT, script("F", i)); check = true;}
		else if (my == "CbT" || my == "CbF") o->change_timer_call_back(i, script("F", i));
		else if (my == "IvT") o->change_timer_interval(i, 4 * UNIT);
		else if (my == "StopOther") {o->stop_timer(other(i)); if (N > 1 && o->is_timer(other(i))) bad = "still running after being stopped";}
		else if (my == "SetOther") {o->set_timer(other(i), 2 * UNIT, script("T", other(i))); if (!o->is_timer(other(i))) bad = "not running after being set";}
		else if (my == "StopSetOther") {o->stop_timer(other(i)); o->set_timer(other(i), 2 * UNIT, script("T", other(i)));}
		else if (my == "StartOther") o->start_timer(other(i));
		else if (my == "StopAllT") o->stop_all_timer();
		else if (my == "StopExceptT") o->stop_all_timer(i);
		else if (my == "WaitT") vt_us += UNIT * 1000;
		if (check && o->is_timer(i) != want_run) bad = "wrong running state inside the callback";
		if (guard != "guard of " + my + " of timer " + std::to_string(i)) bad = "the running callback was destroyed";
		return !(my == "F" || my == "StopF" || my == "StartF" || my == "SetF" || my == "StopSetF" || my == "CbF");
	}
};
int main(int argc, char** argv) {
	N = atoi(argv[1]);
	std::string line; io = NULL; o = NULL; boost::asio::executor_work_guard<boost::asio::io_context::executor_type>* w = NULL;
	while (std::getline(std::cin, line)) {
		fired.clear(); bad.clear();
		if (line == "reset") {
			if (io) {o->stop_all_timer(); io->poll(); if (o->is_async_calling()) bad = "asynchronous call left behind"; delete w; delete o; delete io;}
			io = new boost::asio::io_context(); o = new obj(*io); w = new boost::asio::executor_work_guard<boost::asio::io_context::executor_type>(io->get_executor());
			answer(bad.empty() ? "{}" : json().str("bad", bad).done()); continue;
		}
		std::istringstream is(line); std::string k, cb; int id, iv; is >> k >> id >> iv >> cb;
		bool ok = true;
		if (k == "set") ok = o->set_timer(id, iv * UNIT, script(cb, id));
		else if (k == "create") ok = o->create_or_update_timer(id, iv * UNIT, script(cb, id));
		else if (k == "start") ok = o->start_timer(id);
		else if (k == "stop") o->stop_timer(id);
		else if (k == "stopall") o->stop_all_timer();
		else if (k == "stopexcept") o->stop_all_timer(id);
		else if (k == "iv") ok = o->change_timer_interval(id, iv * UNIT);
		else if (k == "cb") ok = o->change_timer_call_back(id, script(cb, id));
		else if (k == "adv") vt_us += (long long) iv * UNIT * 1000;
		int rounds = 0; while (io->poll() > 0 && ++rounds < 20) ;
		std::vector<int> run; for (int i = 1; i <= N; ++i) if (o->is_timer(i)) run.push_back(i);
		json j; j.raw("fired", jarr(fired)).arr("run", run).b("ok", ok);
		if (rounds >= 20) bad = "endless";
		if (!bad.empty()) j.str("bad", bad);
		answer(j.done());
	}
	return 0;
}
