// Common part of the drivers: one case per input line, one "@{json}" line per case.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <functional>
#include <exception>
#include "DetailedException.h"

typedef std::vector<std::string> Args;

inline std::string unhex(const std::string &h)
{
	std::string r;
	if (h == "-") return r;
	for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)strtol(h.substr(i, 2).c_str(), nullptr, 16));
	return r;
}
inline std::string tohex(const char *p, size_t n)
{
	static const char d[] = "0123456789abcdef";
	std::string r;
	for (size_t i = 0; i < n; i++) { r.push_back(d[((unsigned char)p[i]) >> 4]); r.push_back(d[((unsigned char)p[i]) & 15]); }
	return r;
}
inline std::string tohex(const std::string &s) { return tohex(s.data(), s.size()); }
template <class V> inline std::string vhex(const V &v) { return v.empty() ? std::string() : tohex((const char *)&v[0], v.size()); }
inline std::string jstr(const std::string &s)
{
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r.push_back('\\'); r.push_back(c); }
		else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r.push_back(c);
	}
	return r + "\"";
}
inline Args split(const std::string &s, char sep = ' ')
{
	Args a; std::string t; std::istringstream is(s);
	while (std::getline(is, t, sep)) if (!t.empty()) a.push_back(t);
	return a;
}
struct J {
	std::string s; bool first = true;
	J() { s = "{"; }
	J &raw(const std::string &k, const std::string &v) { if (!first) s += ","; first = false; s += jstr(k) + ":" + v; return *this; }
	J &str(const std::string &k, const std::string &v) { return raw(k, jstr(v)); }
	J &num(const std::string &k, long long v) { return raw(k, std::to_string(v)); }
	J &boolean(const std::string &k, bool v) { return raw(k, v ? "true" : "false"); }
	J &hex(const std::string &k, const std::string &v) { return str(k, tohex(v)); }
	std::string done() { return s + "}"; }
};
// runs f and turns any exception into {"exc": text}
template <class F> inline std::string guarded(F f)
{
	try { return f(); }
	catch (const std::exception &e) { return J().str("exc", e.what()).done(); }
	catch (...) { return J().str("exc", "unknown").done(); }
}
typedef std::function<std::string(const Args &)> Handler;
inline int serve(const std::map<std::string, Handler> &h)
{
	std::ios::sync_with_stdio(false);
	std::string line;
	while (std::getline(std::cin, line)) {
		Args a = split(line);
		if (a.empty()) continue;
		auto it = h.find(a[0]);
		std::string r = it == h.end() ? J().str("exc", "no such command").done() : guarded([&] { return it->second(a); });
		fputs(("@" + r + "\n").c_str(), stdout);
		fflush(stdout);
	}
	return 0;
}
