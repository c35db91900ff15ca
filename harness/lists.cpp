// Drives bodies, parameter lists, specifier lists and interface lists. Nodes are numbered as they are met; after each call every list of every node is reported.
#include "lib.hpp"
#include "ast.hpp"
static Context* vf_ctx; static int used;
struct N { Code c; char k; std::string n; };
static std::vector<N> nodes; static std::map<AST*, int> ids;
static Str lit(std::string const& s) { char* p = (char*) malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = '~'; return Str { p, (ssize) s.size() }; }
static void vf_reset() {
	nodes.clear(); ids.clear();
	if ( ! vf_ctx || ++used > 40 ) {
		if ( vf_ctx ) { deinit(vf_ctx); delete vf_ctx; }
		vf_ctx = new Context(); memset((void*) vf_ctx, 0, sizeof(Context)); vf_ctx->InitSize_Fallback_Allocator_Bucket_Size = 1 << 26; init(vf_ctx); used = 0;
	}
	J j; j.s("op", "Reset").raw("h", "[]"); vf_emit(j);
}
static char kind(Code c) {
	switch ( c->Type ) {
		case CT_Parameters: case CT_Parameters_Define: return 'P';
		case CT_Specifiers: return 'S'; case CT_Typename: return 'T'; case CT_Class: case CT_Class_Fwd: case CT_Struct: case CT_Struct_Fwd: return 'C';
		default: return code_is_body(c) ? 'B' : 'I';
	}
}
static int const MANY = 100000;
static std::vector<Code> forward(Code c, char k) {
	std::vector<Code> r;
	if ( k == 'B' ) { CodeBody b = (CodeBody) c; for ( Code e = begin_CodeBody(b); e != end_CodeBody(b) && (int) r.size() < MANY; e = next_CodeBody(b, e) ) r.push_back(e); }
	else if ( k == 'P' && c->Type == CT_Parameters ) { CodeParams p = (CodeParams) c; CodeParams e = begin_CodeParams(p); for ( e = next_CodeParams(p, e); e != end_CodeParams(p) && (int) r.size() < MANY; e = next_CodeParams(p, e) ) r.push_back((Code) e); }
	else if ( k == 'P' ) { CodeDefineParams p = (CodeDefineParams) c; CodeDefineParams e = begin_CodeDefineParams(p); for ( e = next_CodeDefineParams(p, e); e != end_CodeDefineParams(p) && (int) r.size() < MANY; e = next_CodeDefineParams(p, e) ) r.push_back((Code) e); }
	else if ( k == 'C' ) { Code e = (Code) ((CodeClass) c)->ParentType; for ( ; A(e) && (int) r.size() < MANY; e = e->Next ) r.push_back(e); }
	return r;
}
static int id_of(Code c) { if ( ! A(c) ) return 0; auto it = ids.find(A(c)); return it == ids.end() ? -1 : it->second; }
// nodes not met before get the next numbers: the node, then those in its list
static void adopt(Code c) {
	if ( ! A(c) || ids.count(A(c)) ) return;
	ids[A(c)] = nodes.size() + 1; char k = kind(c); Str n = c->Name; nodes.push_back({ c, k, std::string(n.Ptr ? n.Ptr : "", n.Ptr ? n.Len : 0) });
	bool entry = k == 'P' && A(c->Parent); // (what follows a parameter in a list is the list's)
	if ( ! entry ) for ( Code e : forward(c, k) ) adopt(e);
}
static std::string all_nodes() {
	JA h;
	for ( size_t i = 0; i < nodes.size(); ++i ) {
		N& x = nodes[i]; J j; Str n = x.c->Name; std::string nm(n.Ptr ? n.Ptr : "", n.Ptr ? n.Len : 0);
		bool entry = x.k == 'P' && A(x.c->Parent);
		j.s("k", x.k == 'B' ? "Body" : x.k == 'P' ? "Params" : x.k == 'S' ? "Specs" : x.k == 'T' ? "Type" : x.k == 'C' ? "Class" : "Item").s("n", nm).i("p", id_of(x.c->Parent));
		JA f, b, w; int last = 0;
		if ( ! entry ) {
			std::vector<Code> q = forward(x.c, x.k); for ( Code e : q ) f.i(id_of(e));
			if ( x.k == 'B' ) { last = id_of(x.c->Back); int m = 0; for ( Code e = x.c->Back; A(e) && m < MANY; e = e->Prev, ++m ) b.i(id_of(e)); if ( ! q.empty() && x.c->Front != q[0] ) b.i(-2);
				#if GEN_COMPILER_CPP && ! defined(VF_CLIKE)
				size_t k = 0; CodeBody cb = (CodeBody) x.c; for ( Code e = cb.begin(); e != cb.end() && k <= q.size(); ++ e, ++ k ) if ( k >= q.size() || e != q[k] ) b.i(-3);
				if ( k != q.size() ) b.i(-4);
				#endif
			}
			if ( x.k == 'P' ) last = id_of(x.c->Last);
		}
		if ( x.k == 'S' ) { CodeSpecifiers s = (CodeSpecifiers) x.c; for ( Specifier* p = begin_CodeSpecifiers(s); p != end_CodeSpecifiers(s); p = next_CodeSpecifiers(s, p) ) w.s(sp_name(*p)); }
		j.raw("f", f.done()).raw("b", b.done()).i("last", last).i("num", x.k == 'B' || x.k == 'P' || x.k == 'S' ? x.c->NumEntries : 0).raw("w", w.done());
		h.raw(j.done());
	}
	return h.done();
}
// every other time by the member of that name, or the overload
#ifdef VF_CLIKE
#define WAY(f, m, o) f
#else
#define WAY(f, m, o) (way % 3 == 0 ? (f) : way % 3 == 1 ? (m) : (o))
#endif
static int way;
static Code at(int id) { return nodes[id - 1].c; }
static void vf_step(Toks const& t) {
	std::string op = t.op(); J j; j.s("op", op); vf_log_len = 0; ++way;
	auto done = [&] { j.raw("h", all_nodes()); vf_emit(j); };
	if ( op == "mk" ) { // kind which name
		std::string k = t.t[1], n = t.s(3); int v = t.i(2); Code c = { nullptr };
		if ( k == "Body" ) { static CodeType ts[] = { CT_Class_Body, CT_Global_Body, CT_Namespace_Body, CT_Enum_Body, CT_Struct_Body, CT_Function_Body, CT_Export_Body, CT_Extern_Linkage_Body, CT_Union_Body }; c = (Code) def_body(ts[v % 9]); n = ""; }
		else if ( k == "Item" ) c = v % 4 == 0 ? (Code) untyped_str(lit(n)) : v % 4 == 1 ? (Code) def_variable(t_int, lit(n)) : v % 4 == 2 ? (Code) def_using_namespace(lit(n)) : (Code) def_function(lit(n));
		else if ( k == "Class" ) c = v % 2 ? (Code) def_struct(lit(n)) : (Code) def_class(lit(n));
		else if ( k == "Params" ) { if ( v % 2 ) { c = make_code(); c->Type = CT_Parameters_Define; c->Name = cache_str(lit(n)); c->NumEntries = 1; } else c = (Code) def_param(t_int, lit(n)); }
		else if ( k == "Specs" ) { c = make_code(); c->Type = CT_Specifiers; n = ""; }
		else if ( k == "Type" ) c = (Code) def_type(lit(n));
		c->Parent = Code { nullptr }; adopt(c); j.s("k", k).s("n", n); done(); return;
	}
	if ( op == "dup" ) { int x = t.i(1); Code c = WAY(code_duplicate(at(x)), at(x).duplicate(), at(x).duplicate()); adopt(c); j.i("x", x); done(); return; }
	int b = t.i(1), x = t.i(2); if ( b < 1 || b > (int) nodes.size() ) exit(66); Code B = at(b); j.i("b", b);
	if ( op == "append" || op == "appendbody" ) {
		Code X = at(x); if ( op == "append" ) { if ( (b + x) % 2 || code_is_body(X) ) WAY(body_append((CodeBody) B, X), ((CodeBody) B).append(X), append((CodeBody) B, X)); else WAY(code_append(B, X), B.append(X), B.append(X)); } else WAY(body_append_body((CodeBody) B, (CodeBody) X), ((CodeBody) B).append((CodeBody) X), append((CodeBody) B, (CodeBody) X));
		for ( Code e : forward(B, 'B') ) adopt(e);
		j.i("x", x); done(); return;
	}
	if ( op == "pappend" ) { if ( B->Type == CT_Parameters ) WAY(params_append((CodeParams) B, (CodeParams) at(x)), ((CodeParams) B).append((CodeParams) at(x)), append((CodeParams) B, (CodeParams) at(x))); else WAY(define_params_append((CodeDefineParams) B, (CodeDefineParams) at(x)), ((CodeDefineParams) B).append((CodeDefineParams) at(x)), append((CodeDefineParams) B, (CodeDefineParams) at(x))); for ( Code e : forward(B, 'P') ) adopt(e); j.i("x", x); done(); return; }
	if ( op == "iface" ) { if ( B->Type == CT_Class || B->Type == CT_Class_Fwd ) WAY(class_add_interface((CodeClass) B, (CodeTypename) at(x)), ((CodeClass) B).add_interface((CodeTypename) at(x)), add_interface((CodeClass) B, (CodeTypename) at(x))); else WAY(struct_add_interface((CodeStruct) B, (CodeTypename) at(x)), ((CodeStruct) B).add_interface((CodeTypename) at(x)), add_interface((CodeStruct) B, (CodeTypename) at(x))); for ( Code e : forward(B, 'C') ) adopt(e); j.i("x", x); done(); return; }
	if ( op == "sappend" ) { CodeSpecifiers S = (CodeSpecifiers) B; Specifier q = sp_of(t.t[2]); bool ok = WAY(specifiers_append(S, q), S.append(q), append(S, q)); j.s("s", t.t[2]).bo("ok", ok); done(); return; }
	if ( op == "sremove" ) { CodeSpecifiers S = (CodeSpecifiers) B; Specifier q = sp_of(t.t[2]); int r = WAY(specifiers_remove(S, q), S.remove(q), remove(S, q)); j.s("s", t.t[2]).i("r", r); done(); return; }
	if ( op == "shas" ) { CodeSpecifiers S = (CodeSpecifiers) B; Specifier q = sp_of(t.t[2]); j.s("s", t.t[2]).bo("ok", WAY(specifiers_has(S, q), S.has(q), has(S, q))).i("r", WAY(specifiers_index_of(S, q), S.index_of(q), index_of(S, q))); done(); return; }
	if ( op == "entry" ) { Code* p = WAY(code_entry(B, x), B.entry(x), B.entry(x)); j.i("i", x).i("r", p ? id_of(*p) : -2); done(); return; }
	if ( op == "param" ) { j.i("i", x).i("r", id_of(B->Type == CT_Parameters ? (Code) WAY(params_get((CodeParams) B, x), ((CodeParams) B).get(x), get((CodeParams) B, x)) : (Code) WAY(define_params_get((CodeDefineParams) B, x), ((CodeDefineParams) B).get(x), get((CodeDefineParams) B, x)))); done(); return; }
	if ( op == "has" ) { bool p = nodes[b - 1].k == 'P'; j.bo("ok", p ? B->Type == CT_Parameters ? WAY(params_has_entries((CodeParams) B), ((CodeParams) B).has_entries(), has_entries((CodeParams) B)) : WAY(define_params_has_entries((CodeDefineParams) B), ((CodeDefineParams) B).has_entries(), has_entries((CodeDefineParams) B)) : WAY(code_has_entries(B), B.has_entries(), B.has_entries())); done(); return; }
}
int main(int c, char** v) { return vf_main(c, v); }
