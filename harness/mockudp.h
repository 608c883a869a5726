// an in-memory datagram socket under full control of the driver
#pragma once
#include "mock.h"
struct mock_dgram {
	typedef mock_dgram lowest_layer_type;
	typedef boost::asio::any_io_executor executor_type;
	typedef boost::asio::ip::udp protocol_type;
	typedef boost::asio::ip::udp::endpoint endpoint_type;
	typedef boost::system::error_code error_code;
	mock_dgram(boost::asio::io_context& io) : ex(io.get_executor()) {}
	mock_dgram(const executor_type& e) : ex(e) {}
	~mock_dgram() {abort_all();}
	executor_type ex; bool opened = false, fail_bind = false, fail_connect = false; mock_pending rd, wr; endpoint_type* from = NULL; endpoint_type to, conn, local; bool connected = false, by_conn = false;
	int overlap_rd = 0, overlap_wr = 0; long nopen = 0;

	executor_type get_executor() {return ex;}
	lowest_layer_type& lowest_layer() {return *this;}
	const lowest_layer_type& lowest_layer() const {return *this;}
	bool is_open() const {return opened;}
	error_code open(const protocol_type&, error_code& ec) {ec = error_code(); opened = true; ++nopen; return ec;}
	template<typename O> error_code set_option(const O&, error_code& ec) {return ec = error_code();}
	error_code bind(const endpoint_type& e, error_code& ec) {ec = fail_bind ? boost::asio::error::make_error_code(boost::asio::error::address_in_use) : error_code(); if (!ec) local = e; return ec;}
	error_code connect(const endpoint_type& e, error_code& ec) {ec = fail_connect ? boost::asio::error::make_error_code(boost::asio::error::network_unreachable) : error_code(); if (!ec) {conn = e; connected = true;} return ec;}
	error_code close(error_code& ec) {opened = connected = false; abort_all(); return ec = error_code();}
	void close() {error_code ec; close(ec);}
	error_code cancel(error_code& ec) {abort_all(); return ec = error_code();}
	error_code shutdown(boost::asio::socket_base::shutdown_type, error_code& ec) {return ec = error_code();}

	template<typename B, typename H> void async_receive_from(const B& b, endpoint_type& e, H&& h) {read(b, &e, wrap(std::forward<H>(h)));}
	template<typename B, typename H> void async_receive(const B& b, H&& h) {read(b, NULL, wrap(std::forward<H>(h)));}
	template<typename B, typename H> void async_send_to(const B& b, const endpoint_type& e, H&& h) {to = e; by_conn = false; write(b, wrap(std::forward<H>(h)));}
	template<typename B, typename H> void async_send(const B& b, H&& h) {
		auto f = wrap(std::forward<H>(h));
		if (opened && !connected) {f(boost::system::errc::make_error_code(boost::system::errc::destination_address_required), 0); return;}
		to = conn; by_conn = true; write(b, f);
	}
	// driver side
	bool reading() const {return (bool) rd;}
	bool writing() const {return (bool) wr;}
	size_t read_room() const {return boost::asio::buffer_size(rd.rbufs);}
	void feed(const std::string& d, const endpoint_type& e) { // a datagram which doesn't fit is cut off
		size_t n = std::min(d.size(), read_room()); boost::asio::buffer_copy(rd.rbufs, boost::asio::buffer(d.data(), n)); if (from) *from = e; rd.finish(error_code(), n);
	}
	void read_error(const error_code& ec) {rd.finish(ec, 0);}
	std::string drain() {size_t n = boost::asio::buffer_size(wr.wbufs); std::string s(n, '\0'); boost::asio::buffer_copy(boost::asio::buffer(&s[0], n), wr.wbufs); wr.finish(error_code(), n); return s;}
	void write_error(const error_code& ec) {wr.finish(ec, 0);}
private:
	typedef std::function<void(const error_code&, size_t)> done;
	template<typename B> void read(const B& b, endpoint_type* e, const done& f) {
		if (rd) {++overlap_rd; f(boost::asio::error::already_started, 0); return;}
		if (!opened) {f(boost::asio::error::bad_descriptor, 0); return;}
		from = e; rd.rbufs.assign(boost::asio::buffer_sequence_begin(b), boost::asio::buffer_sequence_end(b)); rd.done = f;
	}
	template<typename B> void write(const B& b, const done& f) {
		if (wr) {++overlap_wr; f(boost::asio::error::already_started, 0); return;}
		if (!opened) {f(boost::asio::error::bad_descriptor, 0); return;}
		wr.wbufs.assign(boost::asio::buffer_sequence_begin(b), boost::asio::buffer_sequence_end(b)); wr.done = f;
	}
	template<typename H> done wrap(H&& h) {
		auto sp = std::make_shared<typename std::decay<H>::type>(std::forward<H>(h));
		auto e = boost::asio::get_associated_executor(*sp, ex);
		return [sp, e](const error_code& ec, size_t n) {boost::asio::post(e, [sp, ec, n] {(*sp)(ec, n);});};
	}
	void abort_all() {rd.finish(boost::asio::error::operation_aborted, 0); wr.finish(boost::asio::error::operation_aborted, 0);}
};
