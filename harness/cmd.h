// command loop helpers of the drivers: one command per line in, one JSON line out
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
struct json {
	std::string s; bool first = true;
	json& raw(const std::string& k, const std::string& v) {s += (first ? "" : ","); s += "\"" + k + "\":" + v; first = false; return *this;}
	json& num(const std::string& k, long long v) {return raw(k, std::to_string(v));}
	json& b(const std::string& k, bool v) {return raw(k, v ? "true" : "false");}
	json& str(const std::string& k, const std::string& v) {return raw(k, "\"" + v + "\"");}
	template<typename C> json& arr(const std::string& k, const C& v) {std::string t = "["; bool f = true; for (auto x : v) {if (!f) t += ","; t += std::to_string(x); f = false;} return raw(k, t + "]");}
	std::string done() const {return "{" + s + "}";}
};
inline std::string jarr(const std::vector<std::string>& v) {std::string t = "["; for (size_t i = 0; i < v.size(); ++i) t += (i ? "," : "") + v[i]; return t + "]";}
inline std::string jq(const std::string& v) {return "\"" + v + "\"";}
inline void answer(const std::string& s) {fwrite(s.data(), 1, s.size(), stdout); fputc('\n', stdout); fflush(stdout);}
