// an in-memory stream transport under full control of the driver, usable as the Socket template argument of the library's TCP sockets
#pragma once
#include <boost/asio.hpp>
#include <functional>
#include <memory>
#include <mutex>
#include <vector>
#include <string>
#include <set>

struct mock_pending {
	std::function<void(const boost::system::error_code&, size_t)> done;
	std::vector<boost::asio::mutable_buffer> rbufs;
	std::vector<boost::asio::const_buffer> wbufs;
	explicit operator bool() const {return (bool) done;}
	void finish(const boost::system::error_code& ec, size_t n) {std::function<void(const boost::system::error_code&, size_t)> d; d.swap(done); rbufs.clear(); wbufs.clear(); if (d) d(ec, n);}
};
struct mock_core { // survives next_layer_ being rebuilt in place
	bool open = false, shut_send = false, shut_recv = false;
	mock_pending rd, wr, cn;
	int overlap_rd = 0, overlap_wr = 0; // a second operation was started while one was outstanding
	long nrd = 0, nwr = 0, nconn = 0, nclose = 0, nbind = 0;
	boost::asio::ip::tcp::endpoint target;
	bool fail_open = false, fail_bind = false, fail_shutdown = false;
	bool eof = false;
};
class mock_socket {
public:
	typedef mock_socket lowest_layer_type;
	typedef boost::asio::any_io_executor executor_type;
	typedef boost::asio::ip::tcp protocol_type;
	typedef boost::asio::ip::tcp::endpoint endpoint_type;
	typedef boost::system::error_code error_code;
	mock_socket(boost::asio::io_context& io) : ex(io.get_executor()), core(std::make_shared<mock_core>()) {all().insert(this);}
	mock_socket(const executor_type& e) : ex(e), core(std::make_shared<mock_core>()) {all().insert(this);}
	~mock_socket() {abort_all(); all().erase(this);}
	static std::set<mock_socket*>& all() {static std::set<mock_socket*> s; return s;}

	executor_type get_executor() {return ex;}
	lowest_layer_type& lowest_layer() {return *this;}
	const lowest_layer_type& lowest_layer() const {return *this;}
	bool is_open() const {return core->open;}
	error_code open(const protocol_type&, error_code& ec) {if (core->fail_open) return ec = boost::asio::error::no_descriptors; ec = error_code(); core->open = true; return ec;}
	error_code bind(const endpoint_type&, error_code& ec) {++core->nbind; if (core->fail_bind) return ec = boost::asio::error::address_in_use; return ec = error_code();}
	error_code close(error_code& ec) {std::lock_guard<std::recursive_mutex> l(m()); if (core->open) ++core->nclose; core->open = false; core->shut_send = core->shut_recv = core->eof = false; abort_all(); return ec = error_code();}
	void close() {error_code ec; close(ec);}
	error_code cancel(error_code& ec) {abort_all(); return ec = error_code();}
	error_code shutdown(boost::asio::socket_base::shutdown_type w, error_code& ec) {
		std::lock_guard<std::recursive_mutex> l(m());
		if (core->fail_shutdown) return ec = boost::asio::error::not_connected;
		ec = error_code();
		if (!core->open) return ec = boost::asio::error::bad_descriptor;
		if (w != boost::asio::socket_base::shutdown_receive) {core->shut_send = true; if (core->wr) core->wr.finish(boost::asio::error::broken_pipe, 0);}
		if (w != boost::asio::socket_base::shutdown_send) {core->shut_recv = true; if (core->rd) core->rd.finish(boost::asio::error::eof, 0);}
		return ec;
	}
	endpoint_type local_endpoint(error_code& ec) const {ec = error_code(); return endpoint_type();}
	endpoint_type remote_endpoint(error_code& ec) const {ec = error_code(); return endpoint_type();}
	endpoint_type local_endpoint() const {return endpoint_type();}
	endpoint_type remote_endpoint() const {return endpoint_type();}

	template<typename H> void async_connect(const endpoint_type& ep, H&& h) {
		std::lock_guard<std::recursive_mutex> l(m());
		auto sp = std::make_shared<typename std::decay<H>::type>(std::forward<H>(h));
		auto e = boost::asio::get_associated_executor(*sp, ex);
		core->open = true; core->shut_send = core->shut_recv = core->eof = false; core->target = ep; ++core->nconn;
		core->cn.done = [sp, e](const error_code& ec, size_t) {boost::asio::post(e, [sp, ec] {(*sp)(ec);});};
	}
	template<typename B, typename H> void async_read_some(const B& b, H&& h) {
		std::lock_guard<std::recursive_mutex> l(m());
		auto f = wrap(std::forward<H>(h));
		++core->nrd;
		if (core->rd) {++core->overlap_rd; f(boost::asio::error::already_started, 0); return;}
		if (!core->open) {f(boost::asio::error::bad_descriptor, 0); return;}
		if (core->shut_recv || core->eof) {f(boost::asio::error::eof, 0); return;}
		core->rd.rbufs.assign(boost::asio::buffer_sequence_begin(b), boost::asio::buffer_sequence_end(b));
		core->rd.done = f;
		if (on_read) on_read();
	}
	template<typename B, typename H> void async_write_some(const B& b, H&& h) {
		std::lock_guard<std::recursive_mutex> l(m());
		auto f = wrap(std::forward<H>(h));
		++core->nwr;
		if (core->wr) {++core->overlap_wr; f(boost::asio::error::already_started, 0); return;}
		if (!core->open) {f(boost::asio::error::bad_descriptor, 0); return;}
		if (core->shut_send) {f(boost::asio::error::broken_pipe, 0); return;}
		core->wr.wbufs.assign(boost::asio::buffer_sequence_begin(b), boost::asio::buffer_sequence_end(b));
		core->wr.done = f;
		if (on_write) on_write();
	}

	// driver side --------------------------------------------------------
	bool reading() const {return (bool) core->rd;}
	bool writing() const {return (bool) core->wr;}
	bool connecting() const {return (bool) core->cn;}
	size_t read_room() const {return boost::asio::buffer_size(core->rd.rbufs);}
	size_t write_size() const {return boost::asio::buffer_size(core->wr.wbufs);}
	size_t feed(const char* d, size_t n) { // completes the outstanding read with at most n bytes
		std::lock_guard<std::recursive_mutex> l(m());
		n = std::min(n, read_room());
		boost::asio::buffer_copy(core->rd.rbufs, boost::asio::buffer(d, n));
		core->rd.finish(error_code(), n);
		return n;
	}
	void read_error(const error_code& ec) {std::lock_guard<std::recursive_mutex> l(m()); if (ec == boost::asio::error::eof) core->eof = true; if (core->rd) core->rd.finish(ec, 0);}
	std::string drain(size_t n) { // completes the outstanding write with at most n bytes
		std::lock_guard<std::recursive_mutex> l(m());
		n = std::min(n, write_size());
		std::string s(n, '\0');
		boost::asio::buffer_copy(boost::asio::buffer(&s[0], n), core->wr.wbufs);
		core->wr.finish(error_code(), n);
		return s;
	}
	void write_error(const error_code& ec) {std::lock_guard<std::recursive_mutex> l(m()); if (core->wr) core->wr.finish(ec, 0);}
	void connected(const error_code& ec) {std::lock_guard<std::recursive_mutex> l(m()); if (ec) core->open = core->open; core->cn.finish(ec, 0);}
	void force_open() {core->open = true;}
	mock_core& c() {return *core;}
	std::function<void()> on_read, on_write;
	std::recursive_mutex& m() {return mtx;}
private:
	template<typename H> std::function<void(const error_code&, size_t)> wrap(H&& h) {
		auto sp = std::make_shared<typename std::decay<H>::type>(std::forward<H>(h));
		auto e = boost::asio::get_associated_executor(*sp, ex);
		return [sp, e](const error_code& ec, size_t n) {boost::asio::post(e, [sp, ec, n] {(*sp)(ec, n);});};
	}
	void abort_all() {
		if (core->rd) core->rd.finish(boost::asio::error::operation_aborted, 0);
		if (core->wr) core->wr.finish(boost::asio::error::operation_aborted, 0);
		if (core->cn) core->cn.finish(boost::asio::error::operation_aborted, 0);
	}
	executor_type ex;
	std::shared_ptr<mock_core> core;
	std::recursive_mutex mtx;
};
