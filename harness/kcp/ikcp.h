// a stand-in for KCP (not shipped with the library): the same interface, a small reliable protocol. Datagrams: 'D' number data, 'A' next expected number.
// The sender has a window and sends again what was not acknowledged, the receiver keeps what comes early.
#pragma once
#include <stdint.h>
#include <string.h>
#include <atomic>
#include <deque>
#include <map>
#include <string>
typedef uint32_t IUINT32; typedef int32_t IINT32; typedef int64_t IINT64; typedef uint64_t IUINT64;
struct IKCPCB {
	IUINT32 conv; void* user; int (*output)(const char*, int, IKCPCB*, void*); IUINT32 nsnd_que, nrcv_que;
	IUINT32 snxt, una, rnxt; bool ack, dead; IUINT32 sent_at; std::deque<std::string> snd, rcv; std::deque<std::pair<IUINT32, std::string>> flight; std::map<IUINT32, std::string> early; std::atomic<int> busy;
};
typedef IKCPCB ikcpcb;
struct kcp_world { // what the driver controls and sees
	size_t window = 16; IUINT32 interval = 10; bool (*again)(ikcpcb*, IUINT32 now) = NULL; bool record = false; std::deque<std::string> given; std::string bad; std::atomic<long> alive{0};
};
inline kcp_world& kw() {static kcp_world w; return w;}
struct kcp_call {
	ikcpcb* k; kcp_call(ikcpcb* k_) : k(k_) {if (k->dead) kw().bad = "a released kcp was used"; if (k->busy++) kw().bad = "two threads were within kcp at once";}
	~kcp_call() {--k->busy;}
};
inline ikcpcb* ikcp_create(IUINT32 conv, void* user) {ikcpcb* k = new ikcpcb; k->conv = conv; k->user = user; k->output = NULL; k->nsnd_que = k->nrcv_que = 0; k->snxt = k->una = k->rnxt = 0; k->ack = k->dead = false; k->sent_at = 0; k->busy = 0; ++kw().alive; return k;}
inline void ikcp_release(ikcpcb* k) {if (k->dead) {kw().bad = "a kcp was released twice"; return;} if (k->busy) kw().bad = "a kcp was released while a thread was within it"; k->dead = true; --kw().alive;} // kept, so that later uses are seen
inline void ikcp_setoutput(ikcpcb* k, int (*f)(const char*, int, ikcpcb*, void*)) {k->output = f;}
inline int ikcp_nodelay(ikcpcb*, int, int, int, int) {return 0;}
inline int ikcp_wndsize(ikcpcb*, int, int) {return 0;}
inline int ikcp_waitsnd(const ikcpcb* k) {return (int) (k->snd.size() + k->flight.size());}
inline int ikcp_send(ikcpcb* k, const char* b, int n) {kcp_call c(k); if (n < 0) return -1; k->snd.push_back(std::string(b, n)); if (kw().record) kw().given.push_back(k->snd.back()); k->nsnd_que = k->snd.size(); return 0;}
inline void kcp_data(ikcpcb* k, const std::pair<IUINT32, std::string>& m) {std::string d("D"); d.append((const char*) &m.first, 4); d += m.second; k->output(d.data(), (int) d.size(), k, k->user);}
inline void ikcp_update(ikcpcb* k, IUINT32 now) {
	kcp_call c(k);
	if (k->ack) {k->ack = false; std::string d("A"); d.append((const char*) &k->rnxt, 4); k->output(d.data(), (int) d.size(), k, k->user);}
	if (!k->flight.empty() && (kw().again ? kw().again(k, now) : now - k->sent_at >= 20)) {k->sent_at = now; for (auto& m : k->flight) kcp_data(k, m);}
	for (; k->flight.size() < kw().window && !k->snd.empty(); k->snd.pop_front()) {if (k->flight.empty()) k->sent_at = now; k->flight.emplace_back(k->snxt++, k->snd.front()); kcp_data(k, k->flight.back());}
	k->nsnd_que = k->snd.size();
}
inline IUINT32 ikcp_check(const ikcpcb* k, IUINT32 now) {kcp_call c(const_cast<ikcpcb*>(k)); return now + kw().interval;}
inline int ikcp_input(ikcpcb* k, const char* b, long n) {
	kcp_call c(k); if (n < 5 || (*b != 'D' && *b != 'A')) return -1;
	IUINT32 no; memcpy(&no, b + 1, 4);
	if (*b == 'A') {for (; !k->flight.empty() && (IINT32) (k->flight.front().first - no) < 0; k->flight.pop_front()) ; return 0;}
	k->ack = true;
	if ((IINT32) (no - k->rnxt) >= 0 && (IINT32) (no - k->rnxt) < 64) k->early[no] = std::string(b + 5, n - 5);
	for (auto i = k->early.find(k->rnxt); i != k->early.end(); i = k->early.find(++k->rnxt)) {k->rcv.push_back(i->second); k->early.erase(i);}
	return 0;
}
inline int ikcp_peeksize(const ikcpcb* k) {return k->rcv.empty() ? -1 : (int) k->rcv.front().size();}
inline int ikcp_recv(ikcpcb* k, char* b, int n) {
	kcp_call c(k); if (k->rcv.empty()) return -1; if ((int) k->rcv.front().size() > n) return -3;
	int r = k->rcv.front().size(); memcpy(b, k->rcv.front().data(), r); k->rcv.pop_front(); return r;
}
