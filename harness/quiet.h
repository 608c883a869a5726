// swallow the library's log
#pragma once
#define ST_ASIO_CUSTOM_LOG
namespace st_asio_wrapper {
class unified_out {
public:
	static void fatal_out(const char*, ...) {}
	static void error_out(const char*, ...) {}
	static void warning_out(const char*, ...) {}
	static void info_out(const char*, ...) {}
	static void debug_out(const char*, ...) {}
};
}
