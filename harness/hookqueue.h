// the library, then a queue whose lock is a scheduling point
#pragma once
#include <ext/tcp.h>
class hook_lockable {
public:
	typedef boost::lock_guard<hook_lockable> lock_guard;
	bool is_lockable() const {return true;}
	void lock(); void unlock();
private:
	boost::mutex mtx;
};
template<typename T> class hook_queue : public st_asio_wrapper::queue<T, hook_lockable> {};
