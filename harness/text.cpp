// Drives string builders, Str and the C-string operations.
#include "lib.hpp"
static long long blocks; static bool refuse;
static void* proc(void*, AllocType type, ssize size, ssize, void* old, ssize, u64) {
	switch (type) {
		case EAllocation_ALLOC: { if ( refuse ) return nullptr; void* p = malloc(size); memset(p, 0xA5, size); blocks++; return p; }
		case EAllocation_FREE:  if ( old ) { free(old); blocks--; } return nullptr;
		case EAllocation_RESIZE: if ( refuse ) return nullptr; return realloc(old, size);
		default: return nullptr;
	}
}
static AllocatorInfo info() { AllocatorInfo a = { proc, nullptr }; return a; }
static StrBuilder h[4]; static bool alive[4]; static bool member;
static std::string by(std::string const& s) { return J::bytes_of(s.data(), s.size()); }
static void vf_reset() { for (int a = 0; a < 4; ++a) { h[a].Data = nullptr; alive[a] = false; } blocks = 0; refuse = false; J j; j.s("op", "Reset"); vf_emit(j); }
struct Exact { // a copy of the bytes in a block of exactly that size (+1 for a NUL when asked): reads outside are caught
	char* p; Exact(std::string const& s, bool nul = true) { p = (char*)malloc(s.size() + nul + (s.size() + nul == 0)); memcpy(p, s.data(), s.size()); if ( nul ) p[s.size()] = 0; }
	~Exact() { free(p); }
};
static std::string limbs(u64 v) { JA a; for (int k = 3; k >= 0; --k) a.i((v >> (16 * k)) & 0xffff); return a.done(); }
static void pure(Toks const& t) {
	std::string f = t.t[1], x = t.s(2), y = t.n() > 3 ? t.s(3) : ""; long long n = t.n() > 4 ? strtoll(t.t[4].c_str(), nullptr, 10) : 0;
	J j; j.s("op", "pure").s("f", f);
	Exact ex(x), ey(y); char c = x.empty() ? 0 : x[0]; bool b = false; int kind = 0; long long r = 0; std::string s;
	if ( f == "is_alpha" ) b = char_is_alpha(c); else if ( f == "is_alnum" ) b = char_is_alphanumeric(c);
	else if ( f == "is_digit" ) b = char_is_digit(c); else if ( f == "is_hex" ) b = char_is_hex_digit(c); else if ( f == "is_space" ) b = char_is_space(c);
	else if ( f == "to_lower" ) { kind = 1; r = (unsigned char)char_to_lower(c); } else if ( f == "to_upper" ) { kind = 1; r = (unsigned char)char_to_upper(c); }
	else if ( f == "hex_val" ) { kind = 1; r = hex_digit_to_int(c); } else if ( f == "digit_val" ) { kind = 1; r = digit_to_int(c); }
	else if ( f == "first_occ" ) { kind = 1; char const* p = char_first_occurence(ex.p, (char)n); r = p ? p - ex.p : -1; }
	else if ( f == "cmp_zero" ) b = c_str_compare(ex.p, ey.p) == 0;
	else if ( f == "cmp_sign" ) { kind = 1; s32 q = c_str_compare(ex.p, ey.p); r = q < 0 ? -1 : q > 0; }
	else if ( f == "cmpn_zero" ) b = c_str_compare_len(ex.p, ey.p, n) == 0;
	else if ( f == "copy" || f == "copy_pad" || f == "copy_pad_n" ) {
		std::vector<char> d(n + 2, '#'); ssize q = 0;
		if ( f == "copy" ) { if ( c_str_copy(d.data() + 1, ex.p, n) != d.data() + 1 ) q = -9; } else q = c_str_copy_nulpad(d.data() + 1, ex.p, n);
		if ( d[0] != '#' || d[n + 1] != '#' ) q = -9;      // wrote outside the destination
		if ( f == "copy_pad_n" || q == -9 ) { kind = 1; r = q; } else { kind = 2; s.assign(d.data() + 1, n); }
	}
	else if ( f == "len" ) { kind = 1; r = c_str_len(ex.p); }
	else if ( f == "len_cap" ) { kind = 1; std::string z = x; if ( (long long)z.size() < n ) { z += '\0'; while ( (long long)z.size() < n ) z += 'q'; } Exact e2(z, false); r = c_str_len_capped(e2.p, n); }
	else if ( f == "reverse" ) { kind = 2; char* q = c_str_reverse(ex.p); s.assign(q, x.size()); }
	else if ( f == "skip" ) { kind = 1; r = c_str_skip(ex.p, (char)n) - ex.p; }
	else if ( f == "skip_any" ) { kind = 1; r = c_str_skip_any(ex.p, ey.p) - ex.p; }
	else if ( f == "trim" ) { kind = 1; r = c_str_trim(ex.p, n) - ex.p; }
	else if ( f == "lower" ) { kind = 2; c_str_to_lower(ex.p); s.assign(ex.p, x.size()); }
	else if ( f == "upper" ) { kind = 2; c_str_to_upper(ex.p); s.assign(ex.p, x.size()); }
	else if ( f.rfind("str_", 0) == 0 || f == "to_str" ) {
		Exact qx(x, false), qy(y, false); Str sx = { qx.p, (ssize)x.size() }, sy = { qy.p, (ssize)y.size() };
		#if ! GEN_C_LIKE_CPP
		#define M(m, f) (member ? (m) : (f))
		#else
		#define M(m, f) (f)
		#endif
		if ( f == "str_eq" ) b = M(sx.is_equal(sy), str_are_equal(sx, sy)); else if ( f == "str_contains" ) b = M(sx.contains(sy), str_contains(sx, sy));
		else if ( f == "str_starts" ) b = M(sx.starts_with(sy), str_starts_with(sx, sy));
		else { kind = 2; Str q = f == "to_str" ? to_str_from_c_str(ex.p) : f == "str_dup" ? M(sx.duplicate(info()), str_duplicate(sx, info())) : M(sx.visualize_whitespace(info()), str_visualize_whitespace(sx, info()));
			s.assign(q.Ptr, q.Len); if ( f != "to_str" ) { if ( q.Ptr[q.Len] != 0 || q.Ptr == sx.Ptr ) s += "!"; proc(0, EAllocation_FREE, 0, 0, (void*)(q.Ptr - sizeof(StrBuilderHeader)), 0, 0); } }
	}
	else if ( f == "u64_str" || f == "i64_str" ) {
		u64 v = strtoull(t.t[3].c_str(), nullptr, 10); char buf[140]; memset(buf, '#', 140);
		if ( f == "u64_str" ) u64_to_str(v, buf, n); else i64_to_str((s64)v, buf, n);
		kind = 3; s.assign(buf, strnlen(buf, 140)); j.raw("x", limbs(v)).raw("y", "[]");
	}
	else if ( f == "parse" ) {
		char* end = nullptr; u64 v = (u64)c_str_to_i64(ex.p, & end, n);
		std::string l = limbs(v); l.back() = ','; l += std::to_string(end - ex.p) + "]";
		j.raw("r", l); kind = 4;
	}
	else abort();
	if ( kind == 0 ) j.bo("r", b); else if ( kind == 1 ) j.i("r", r); else if ( kind == 2 || kind == 3 ) j.raw("r", by(s));
	if ( kind != 3 ) j.raw("x", by(x)).raw("y", by(y));
	j.i("n", n); vf_emit(j);
}
#if ! GEN_C_LIKE_CPP
#define IF_M(m, f) (member ? (m) : (f))
#else
#define IF_M(m, f) (f)
#endif
static void vf_step(Toks const& t) {
	std::string const& op = t.op();
	if ( op == "pure" ) { pure(t); return; }
	int a = t.i(1); J j; j.s("op", op).i("a", a); StrBuilder& S = h[a]; void* before = S.Data; bool ok = true;
	auto X = [&](size_t k) { std::string x = t.s(k); j.raw("x", by(x)); return x; };
	auto B = [&]() -> StrBuilder& { j.i("b", t.i(2)); return h[t.i(2)]; };
	if ( op == "make_c_str" ) { refuse = t.i(3); Exact e(X(2)); S.Data = IF_M(StrBuilder::make(info(), (char const*)e.p), strbuilder_make_c_str(info(), e.p)).Data; }
	else if ( op == "make_str" ) { refuse = t.i(3); std::string x = X(2); Exact e(x, false); Str s = { e.p, (ssize)x.size() }; S.Data = IF_M(StrBuilder::make(info(), s), strbuilder_make_str(info(), s)).Data; }
	else if ( op == "make_length" ) { refuse = t.i(3); std::string x = X(2); Exact e(x, false); S.Data = IF_M(StrBuilder::make_length(info(), e.p, x.size()), strbuilder_make_length(info(), e.p, x.size())).Data; }
	else if ( op == "make_reserve" ) { refuse = t.i(3); j.i("n", t.i(2)); S.Data = IF_M(StrBuilder::make_reserve(info(), t.i(2)), strbuilder_make_reserve(info(), t.i(2))).Data; }
	else if ( op == "join" ) {
		std::vector<Exact*> es; std::vector<char const*> ps; JA pj; std::string g = X(2);
		for ( size_t k = 3; k < t.n(); ++k ) { std::string p = t.s(k); es.push_back(new Exact(p)); ps.push_back(es.back()->p); pj.raw(by(p)); }
		Exact eg(g); S.Data = IF_M(StrBuilder::join(info(), ps.data(), ps.size(), eg.p), strbuilder_join(info(), ps.data(), ps.size(), eg.p)).Data; j.raw("parts", pj.done()); for (Exact* e : es) delete e;
	}
	else if ( op == "append_c_str" ) { refuse = t.i(3); Exact e(X(2)); ok = IF_M(S.append((char const*)e.p), strbuilder_append_c_str(& S, e.p)); }
	else if ( op == "append_str" ) { refuse = t.i(3); std::string x = X(2); Exact e(x, false); Str s = { e.p, (ssize)x.size() }; ok = IF_M(S.append(s), strbuilder_append_str(& S, s)); }
	else if ( op == "append_len" ) { refuse = t.i(3); std::string x = X(2); Exact e(x, false); ok = IF_M(S.append(e.p, (ssize)x.size()), strbuilder_append_c_str_len(& S, e.p, x.size())); }
	else if ( op == "append_char" ) { refuse = t.i(3); std::string x = X(2); ok = IF_M(S.append(x[0]), strbuilder_append_char(& S, x[0])); }
	else if ( op == "append_sb" ) { refuse = t.i(3); StrBuilder& o = B(); ok = IF_M(S.append(o), strbuilder_append_string(& S, o)); }
	else if ( op == "make_space" ) { refuse = t.i(3); j.i("n", t.i(2)); ok = IF_M(S.make_space_for("", t.i(2)), strbuilder_make_space_for(& S, "", t.i(2))); }
	else if ( op == "clear" ) { IF_M(S.clear(), strbuilder_clear(S)); }
	else if ( op == "trim" ) { Exact e(X(2)); IF_M(S.trim(e.p), strbuilder_trim(S, e.p)); }
	else if ( op == "trim_space" ) IF_M(S.trim_space(), strbuilder_trim_space(S));
	else if ( op == "strip_space" ) IF_M(S.strip_space(), strbuilder_strip_space(S));
	else if ( op == "free" ) { IF_M(S.free(), strbuilder_free(& S)); S.Data = nullptr; }
	else if ( op == "dup" ) { StrBuilder& o = B(); S.Data = IF_M(o.duplicate(info()), strbuilder_duplicate(o, info())).Data; }
	else if ( op == "vis" ) { StrBuilder& o = B(); S.Data = IF_M(o.visualize_whitespace(), strbuilder_visualize_whitespace(o)).Data; }
	else if ( op == "back" ) j.i("r", (unsigned char)* IF_M(S.back(), strbuilder_back(S)));
	else if ( op == "eq" ) { StrBuilder& o = B(); j.bo("r", IF_M(S.is_equal(o), strbuilder_are_equal(S, o))); }
	else if ( op == "contains" ) { StrBuilder& o = B(); j.bo("r", IF_M(S.contains(o), strbuilder_contains_string(S, o))); }
	else if ( op == "starts" ) { StrBuilder& o = B(); j.bo("r", IF_M(S.starts_with(o), strbuilder_starts_with_string(S, o))); }
	else if ( op == "eq_str" || op == "contains_str" || op == "starts_str" ) {
		std::string x = X(2); Exact e(x, false); Str s = { e.p, (ssize)x.size() };
		j.bo("r", op == "eq_str" ? IF_M(S.is_equal(s), strbuilder_are_equal_str(S, s)) : op == "contains_str" ? IF_M(S.contains(s), strbuilder_contains_str(S, s)) : (bool)IF_M(S.starts_with(s), strbuilder_starts_with_str(S, s)));
	}
	else if ( op == "to_str" ) { Str s = IF_M(S.to_str(), strbuilder_to_str(S)); j.bytes("r", s.Ptr, s.Len); }
	else abort();
	if ( op.rfind("make_", 0) == 0 && op != "make_space" ) ok = S.Data != nullptr;
	alive[a] = S.Data != nullptr;
	j.bo("refuse", refuse).bo("ok", ok).bo("moved", before != nullptr && S.Data != before).bo("alive", alive[a]); refuse = false;
	if ( alive[a] ) {
		ssize n = strbuilder_length(S); std::string it; for ( char* p = strbuilder_begin(S); p != strbuilder_end(S); p = strbuilder_next(S, p) ) it += *p;
		if ( (ssize)it.size() != n ) it += "!";
		j.raw("bytes", by(it)).i("cap", strbuilder_capacity(S)).i("term", (unsigned char)S.Data[n]).i("avail", strbuilder_avail_space(S));
	} else j.raw("bytes", "[]").i("cap", 0).i("term", 0).i("avail", 0);
	j.i("live", blocks); vf_emit(j);
}
int main(int argc, char** argv) { member = argc > 3 && argv[3][0] == 'm'; return vf_main(argc, argv); }
