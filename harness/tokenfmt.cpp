// Drives token_fmt_va (with chosen buffers), token_fmt_impl, code_fmt / untyped_str and untyped_fmt.
#include "lib.hpp"
static Context* ctx;
static std::string by(std::string const& s) { return J::bytes_of(s.data(), s.size()); }
static void vf_reset() {
	if ( ! ctx ) { ctx = new Context(); memset((void*)ctx, 0, sizeof *ctx); init(ctx); }
	J j; j.s("op", "Reset"); vf_emit(j);
}
static std::vector<char*> owned;
static char* own(std::string const& s, bool z) { char* c = (char*) malloc(s.size() + (z ? 1 : s.empty())); memcpy(c, s.data(), s.size()); if ( z ) c[s.size()] = 0; owned.push_back(c); return c; }
static void node(J& j, Code c) {
	bool ok = c && c->Type != CT_Invalid; j.bo("valid", ok);
	if ( ! ok ) return;
	j.bo("untyped", c->Type == CT_Untyped).bytes("out", c->Content.Ptr, c->Content.Len).bytes("name", c->Name.Ptr, c->Name.Len);
	StrBuilder s = code_to_strbuilder(c); j.bytes("text", s.Data, strbuilder_length(s)); strbuilder_free(& s);
}
// op cap fmt name value name value ...
static void vf_step(Toks const& t) {
	std::string op = t.op(); long long cap = t.i(1); std::string fmt = t.s(2); int n = (t.n() - 3) / 2;
	std::vector<std::string> src; JA m; std::vector<Str> v; std::vector<char*> nm;
	for ( int k = 0; k < n; ++k ) {
		std::string a = t.s(3 + 2 * k), b = t.s(4 + 2 * k);
		nm.push_back(own(a, true)); v.push_back(Str { own(b, false), (ssize) b.size() });
		J q; q.raw("n", by(a)).raw("v", by(b)); m.raw(q.done());
	}
	char* f = own(fmt, true);
	J j; j.s("op", op).raw("t", by(fmt)).raw("m", m.done()).i("cap", cap);
	if ( op == "va" ) {
		std::vector<u64> A;
		for ( int k = 0; k < n; ++k ) { A.push_back((u64) nm[k]); A.push_back((u64) v[k].Ptr); A.push_back((u64) v[k].Len); }
		A.push_back((u64) f); A.push_back(0);
		va_list va; struct VL { unsigned gp, fp; void* over; void* reg; }; VL* vl = (VL*) va; vl->gp = 48; vl->fp = 176; vl->over = A.data(); vl->reg = nullptr;
		char* b = (char*) malloc(cap ? cap : 1);
		ssize r = token_fmt_va(b, cap, n + 1, va);
		j.i("len", r).bytes("out", b, r < 0 ? 0 : r > cap ? cap : r); free(b);
	}
	#define K(i) nm[i], v[i]
	#define CALL(F) ( n == 0 ? F(1, f) : n == 1 ? F(2, K(0), f) : n == 2 ? F(3, K(0), K(1), f) : n == 3 ? F(4, K(0), K(1), K(2), f) : F(5, K(0), K(1), K(2), K(3), f) )
	else if ( op == "impl" ) { Str r = CALL(token_fmt_impl); j.i("len", r.Len).bytes("out", r.Ptr, r.Len); }
	else if ( op == "code" ) {
		Code c = n == 0 ? code_fmt(f) : n == 1 ? code_fmt(K(0), f) : n == 2 ? code_fmt(K(0), K(1), f) : n == 3 ? code_fmt(K(0), K(1), K(2), f) : code_fmt(K(0), K(1), K(2), K(3), f);
		node(j, c);
	}
	else if ( op == "str" ) node(j, untyped_str(Str { fmt.empty() ? "" : own(fmt, false), (ssize) fmt.size() }));
	else if ( op == "fmt" ) { // a ':' fmt ':' b
		j.raw("a", by(t.s(3))).raw("b", by(t.s(4)));
		node(j, untyped_fmt("%s:%.*s:%S", nm[0], (int) fmt.size(), f, v[0]));
	}
	bool same = true;
	for ( int k = 0; k < n; ++k ) same = same && t.s(3 + 2 * k) == nm[k] && t.s(4 + 2 * k) == std::string(v[k].Ptr, v[k].Len);
	j.bo("operands", same && fmt == f); for ( char* c : owned ) free(c); owned.clear(); vf_emit(j);
}
int main(int c, char** v) { return vf_main(c, v); }
