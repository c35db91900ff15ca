// Common part of the trace drivers: reads scripts (lines of space separated tokens), calls vf_reset / vf_step, and writes
// one JSON event per line. Include after the library.
#pragma once
#include <string>
#include <vector>
// A copy of a text as a part of a longer one: what stands behind it would go on with whatever the text ends in, and is no part of it.
static inline char* vf_view(std::string const& text) {
	static const char* tails[] = { "abc", "7", "*/", "\"'", ")]}>", "==", "...", "::x", "//", "\n#", "_", "u8 ", ">>=", "\\\n", ";", "" };
	const char* t = tails[text.size() % (sizeof(tails) / sizeof(*tails))]; size_t n = strlen(t);
	char* p = (char*) malloc(text.size() + n + 1); memcpy(p, text.data(), text.size()); memcpy(p + text.size(), t, n + 1);
	return p;
}

struct Toks {
	std::vector<std::string> t;
	long long   i(size_t k) const { return k < t.size() ? atoll(t[k].c_str()) : 0; }
	std::string s(size_t k) const { // x<hex> or a bare word
		if ( k >= t.size() ) return "";
		std::string const& v = t[k];
		if ( v.empty() || v[0] != 'x' ) return v;
		std::string o;
		for ( size_t p = 1; p + 1 < v.size(); p += 2 ) o += (char) strtol(v.substr(p, 2).c_str(), nullptr, 16);
		return o;
	}
	std::string const& op() const { return t[0]; }
	size_t n() const { return t.size(); }
};
struct J { // a JSON object under construction
	std::string b = "{"; bool first = true;
	void key(char const* k) { if ( ! first ) b += ','; first = false; b += '"'; b += k; b += "\":"; }
	J& i(char const* k, long long v) { key(k); b += std::to_string(v); return *this; }
	J& bo(char const* k, bool v)     { key(k); b += v ? "true" : "false"; return *this; }
	J& raw(char const* k, std::string const& v) { key(k); b += v; return *this; }
	J& s(char const* k, std::string const& v)   { key(k); b += quote(v); return *this; }
	static std::string quote(std::string const& v) {
		std::string o = "\"";
		for ( unsigned char c : v ) {
			if ( c == '"' || c == '\\' ) { o += '\\'; o += c; }
			else if ( c < 32 || c > 126 ) { char q[8]; snprintf(q, 8, "\\u%04x", c); o += q; }
			else o += c;
		}
		return o + "\"";
	}
	J& bytes(char const* k, void const* p, size_t n) { key(k); b += bytes_of(p, n); return *this; }
	static std::string bytes_of(void const* p, size_t n) {
		std::string o = "[";
		for ( size_t x = 0; x < n; ++x ) { if ( x ) o += ','; o += std::to_string( ((unsigned char const*)p)[x] ); }
		return o + "]";
	}
	std::string done() { return b + "}"; }
};
struct JA { // a JSON array under construction
	std::string b = "["; bool first = true;
	JA& raw(std::string const& v) { if ( ! first ) b += ','; first = false; b += v; return *this; }
	JA& i(long long v) { return raw(std::to_string(v)); }
	JA& s(std::string const& v) { return raw(J::quote(v)); }
	JA& bo(bool v) { return raw(v ? "true" : "false"); }
	std::string done() { return b + "]"; }
};
static FILE* vf_out; static long long vf_sid;
static void vf_emit(J j) { j.i("sid", vf_sid); std::string s = j.done(); s += '\n'; fwrite(s.data(), 1, s.size(), vf_out); fflush(vf_out); }
static void vf_reset();              // start of a script: emits a Reset event
static void vf_step(Toks const& t);  // one operation: emits one event
static int vf_main(int argc, char** argv) {
	if ( argc < 3 ) return 64;
	FILE* in = fopen(argv[1], "r"); vf_out = fopen(argv[2], "w");
	if ( ! in || ! vf_out ) return 65;
	char* line = nullptr; size_t cap = 0; ssize_t n;
	while ( (n = getline(& line, & cap, in)) > 0 ) {
		Toks t; std::string cur;
		for ( ssize_t k = 0; k < n; ++k ) {
			if ( line[k] == ' ' || line[k] == '\n' ) { if ( ! cur.empty() ) t.t.push_back(cur); cur.clear(); }
			else cur += line[k];
		}
		if ( t.t.empty() ) continue;
		if ( t.op() == "S" ) { vf_sid = t.i(1); vf_reset(); }
		else if ( t.op() == "E" ) { J j; j.s("op", "End"); vf_emit(j); }
		else vf_step(t);
	}
	return 0;
}
