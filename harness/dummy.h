// the smallest server a server socket needs
#pragma once
struct dummy_server : public st_asio_wrapper::tcp::i_server {
	st_asio_wrapper::service_pump& sp; long dels;
	dummy_server(st_asio_wrapper::service_pump& s) : sp(s), dels(0) {}
	bool started() const {return true;}
	st_asio_wrapper::service_pump& get_service_pump() {return sp;}
	const st_asio_wrapper::service_pump& get_service_pump() const {return sp;}
	bool del_socket(const boost::shared_ptr<st_asio_wrapper::tracked_executor>&, bool) {++dels; return true;}
	bool restore_socket(const boost::shared_ptr<st_asio_wrapper::tracked_executor>&, boost::uint_fast64_t, bool) {return false;}
};
