// a timer which is started and stopped by another thread than the one which runs its callback (what the library's own sockets do)
#include "quiet.h"
#include <ext/tcp.h>
#include "cmd.h"
#include <atomic>
#include <thread>
#include <chrono>
using namespace st_asio_wrapper;
struct obj : public timer<tracked_executor> {obj(boost::asio::io_context& io) : timer<tracked_executor>(io) {}};
static std::vector<int> EV(400000); static std::atomic<int> NEV(0);
enum {START = 1, FIRE = 2, STOPPED = 3, LOST = 4};
static void ev(int k) {int i = NEV++; if (i < (int) EV.size()) EV[i] = k;}
static void spin(long i) {unsigned x = (unsigned) i * 2654435761u; for (volatile unsigned k = (x >> 16) % 700; k > 0; --k) ;}
static bool later(const std::function<bool()>& done) { // gives up after a very long time
	auto t0 = std::chrono::steady_clock::now();
	for (long n = 0; !done(); ++n) {if (n < 20000) continue; std::this_thread::yield(); if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(40)) return false;}
	return true;
}
int main(int argc, char** argv) {
	std::string mode = argv[1]; long rounds = atol(argv[2]); unsigned x = atoi(argv[3]) * 2654435761u + 1;
	boost::asio::io_context io; auto w = boost::asio::make_work_guard(io); obj o(io);
	std::thread t1([&] {io.run();}), t2([&] {io.run();});
	auto barrier = [&] { // neither thread is inside a handler of the timer
		std::atomic<int> in(0), out(0);
		for (int i = 0; i < 2; ++i) boost::asio::post(io, [&] {++in; while (in < 2) std::this_thread::yield(); ++out;});
		while (out < 2) std::this_thread::yield();
	};
	bool lost = false;
	std::atomic<long> turn(0); // set by the callback: the other thread acts while the callback is about to end
	if (mode == "restart") // the other thread starts the timer again as soon as the callback has run
		for (long i = 0; i < rounds && !lost; ++i) {
			ev(START); o.set_timer(1, 0, [&, i](unsigned short) {ev(FIRE); turn = i + 1; spin(i); return false;});
			lost = !later([&] {return turn == i + 1;});
		}
	else for (long i = 0; i < rounds && !lost; ++i) { // the other thread stops a periodic timer
		x = x * 1664525u + 1013904223u; long n = x >> 30, fires = 0; turn = -1; ev(START);
		o.set_timer(1, 0, [&](unsigned short) {ev(FIRE); turn = ++fires; spin(turn + i); return true;});
		lost = !later([&] {return turn > n;});
		o.stop_timer(1); barrier(); ev(STOPPED);
		barrier(); barrier(); if (o.is_timer(1)) {ev(FIRE); break;}
	}
	if (lost) ev(LOST);
	static const char* N[] = {"?", "start", "fire", "stopped", "lost"};
	std::string s = "["; for (int i = 0; i < NEV && i < (int) EV.size(); ++i) s += std::string(i ? "," : "") + "{\"e\":\"" + N[EV[i]] + "\"}"; s += "]\n";
	fputs(s.c_str(), stdout); fflush(stdout); _exit(0);
}
