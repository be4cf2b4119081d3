// Tiny JSON writer for canonical dumps (independent from the library's own writer).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <string>
#include <string_view>
#include <type_traits>

struct JW {
	std::string s;
	bool first = true;
	void sep() { if (!first) s += ','; first = false; }
	void key(std::string_view k) { sep(); str(k); s += ':'; first = true; }
	void str(std::string_view v) {
		s += '"';
		for (unsigned char c : v) {
			if (c == '"' || c == '\\') { s += '\\'; s += char(c); }
			else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); s += b; } // latin-1 transport of raw bytes
			else s += char(c);
		}
		s += '"';
	}
	void num(double d) {
		if (std::isnan(d)) { s += "\"nan\""; return; }
		if (std::isinf(d)) { s += d < 0 ? "\"-inf\"" : "\"inf\""; return; }
		char b[40]; std::snprintf(b, 40, "%.17g", d);
		std::string t = b; for (auto& c : t) if (c == ',') c = '.'; // the process's locale may write it with a comma
		if (t.find_first_of(".e") == std::string::npos) t += ".0";
		s += t;
	}
	template <typename I> void integer(I v) { s += std::to_string(v); }
	void obj() { s += '{'; first = true; }
	void endobj() { s += '}'; first = false; }
	void arr() { s += '['; first = true; }
	void endarr() { s += ']'; first = false; }
	void elem() { sep(); first = true; }
	// key + value helpers
	void kv(std::string_view k, std::string_view v) { key(k); str(v); first = false; }
	void kv(std::string_view k, const char* v) { key(k); str(v); first = false; }
	void kv(std::string_view k, bool v) { key(k); s += v ? "true" : "false"; first = false; }
	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, int> = 0>
	void kv(std::string_view k, T v) { key(k); num(static_cast<double>(v)); first = false; }
	template <typename T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>, int> = 0>
	void kv(std::string_view k, T v) { key(k); integer(v); first = false; }
	template <typename T>
	void kvnums(std::string_view k, const T* p, std::size_t n) {
		key(k); arr();
		for (std::size_t i = 0; i < n; ++i) { elem(); if constexpr (std::is_floating_point_v<T>) num(static_cast<double>(p[i])); else integer(p[i]); first = false; }
		endarr();
	}
	void raw(std::string_view k, std::string_view json) { key(k); s += json; first = false; }
};
