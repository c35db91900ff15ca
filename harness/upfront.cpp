// Drives the upfront constructors. Every node made has an id; after each call the descriptions of all nodes made before are compared.
#include "lib.hpp"
#include "ast.hpp"
#include "lexemes.hpp"
static Context* vf_ctx;
struct N { Code c; std::string d; };
static std::map<int, N> nodes; static int used;
static void vf_reset() {
	nodes.clear();
	if ( ! vf_ctx || ++used > 40 ) {
		if ( vf_ctx ) { deinit(vf_ctx); delete vf_ctx; }
		vf_ctx = new Context(); memset((void*) vf_ctx, 0, sizeof(Context)); vf_ctx->InitSize_Fallback_Allocator_Bucket_Size = 1 << 26; init(vf_ctx); used = 0;
	}
	J j; j.s("op", "Reset").i("cap", AST_ArrSpecs_Cap); vf_emit(j);
}
static Code node(int id) { auto it = nodes.find(id); return it == nodes.end() ? Code{nullptr} : it->second.c; }
static Str lit(std::string const& s) { char* p = (char*) malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = '~'; return Str { p, (ssize) s.size() }; } // texts need no terminator
static std::string changed() { JA a; for ( auto& e : nodes ) if ( desc(e.second.c) != e.second.d ) a.i(e.first); return a.done(); }
struct Args {
	std::map<std::string, std::string> m;
	Args(Toks const& t, size_t from) { for ( size_t k = from; k < t.n(); ++k ) { auto p = t.t[k].find('='); m[t.t[k].substr(0, p)] = t.t[k].substr(p + 1); } }
	bool has(char const* k) const { return m.count(k); }
	std::string raw(char const* k) const { auto it = m.find(k); return it == m.end() ? "" : it->second; }
	Str s(char const* k) const { if ( ! has(k) ) return Str { nullptr, 0 }; Toks t; t.t.push_back(raw(k)); return lit(t.s(0)); }
	std::string text(char const* k) const { Toks t; t.t.push_back(raw(k)); return t.s(0); }
	long long i(char const* k) const { return has(k) ? atoll(raw(k).c_str()) : 0; }
	Code c(char const* k) const { return node(i(k)); }
	std::vector<int> ids(char const* k) const { std::vector<int> r; std::string v = raw(k), cur; for ( char ch : v + "," ) { if ( ch == ',' ) { if ( ! cur.empty() ) r.push_back(atoi(cur.c_str())); cur.clear(); } else cur += ch; } return r; }
	std::vector<std::string> words(char const* k) const { std::vector<std::string> r; std::string v = raw(k), cur; for ( char ch : v + "," ) { if ( ch == ',' ) { if ( ! cur.empty() ) r.push_back(cur); cur.clear(); } else cur += ch; } return r; }
	CodeTypename ty(char const* k) const { return (CodeTypename) c(k); }
};
static AccessSpec access(std::string const& s) { return s == "private" ? AccessSpec_Private : s == "protected" ? AccessSpec_Protected : s == "public" ? AccessSpec_Public : AccessSpec_Default; }
static ETypenameTag tag(std::string const& s) { return s == "class" ? Tag_Class : s == "enum" ? Tag_Enum : s == "struct" ? Tag_Struct : s == "union" ? Tag_Union : Tag_None; }
#define C8(c) c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]
static Code build(std::string const& f, Args const& a) {
	std::vector<CodeTypename> in; for ( int id : a.ids("interfaces") ) in.push_back((CodeTypename) node(id));
	Code_POD e[8]; int num = 0; Code arr[9]; memset(e, 0, sizeof e); memset((void*) arr, 0, sizeof arr);
	for ( int id : a.ids("entries") ) if ( num < 8 ) { Code c = node(id); memcpy(& e[num], & c, sizeof(void*)); arr[num] = c; num++; }
	bool va = a.i("how") == 0; ModuleFlag mf = (ModuleFlag) a.i("mflags");
	// what is behind the entries must not be looked at
	Code* exact = (Code*) malloc(sizeof(Code) * (num ? num : 1)); memcpy((void*) exact, (void*) arr, sizeof(Code) * num);
	struct Free { void* p; ~Free() { ::free(p); } } fr { exact };
	if ( f == "class" )   { Opts_def_struct o = {}; o.body = (CodeBody) a.c("body"); o.parent = a.ty("parent"); o.parent_access = access(a.raw("access")); o.attributes = (CodeAttributes) a.c("attributes"); o.interfaces = in.data(); o.num_interfaces = in.size(); o.specifiers = (CodeSpecifiers) a.c("specifiers"); o.mflags = mf; return (Code) def_class(a.s("name"), o); }
	if ( f == "struct" )  { Opts_def_struct o = {}; o.body = (CodeBody) a.c("body"); o.parent = a.ty("parent"); o.parent_access = access(a.raw("access")); o.attributes = (CodeAttributes) a.c("attributes"); o.interfaces = in.data(); o.num_interfaces = in.size(); o.specifiers = (CodeSpecifiers) a.c("specifiers"); o.mflags = mf; return (Code) def_struct(a.s("name"), o); }
	if ( f == "attributes" ) return (Code) def_attributes(a.s("text"));
	if ( f == "comment" )    return (Code) def_comment(a.s("text"));
	if ( f == "execution" )  return (Code) def_execution(a.s("text"));
	if ( f == "pragma" )     return (Code) def_pragma(a.s("text"));
	if ( f == "cond" )       return (Code) def_preprocess_cond((EPreprocessCond) a.i("kind"), a.s("text"));
	if ( f == "include" )    { Opts_def_include o = {}; o.foreign = a.i("foreign"); return (Code) def_include(a.s("text"), o); }
	if ( f == "module" )     { Opts_def_module o = {}; o.mflags = mf; return (Code) def_module(a.s("name"), o); }
	if ( f == "constructor" ) { Opts_def_constructor o = {}; o.params = (CodeParams) a.c("params"); o.initializer_list = a.c("init"); o.body = a.c("body"); return (Code) def_constructor(o); }
	if ( f == "destructor" )  { Opts_def_destructor o = {}; o.body = a.c("body"); o.specifiers = (CodeSpecifiers) a.c("specifiers"); return (Code) def_destructor(o); }
	if ( f == "define" )  { Opts_def_define o = {}; o.params = (CodeDefineParams) a.c("params"); o.content = a.s("text"); o.dont_register_to_preprocess_macros = ! a.i("register"); o.flags = (MacroFlags) a.i("flags"); return (Code) def_define(a.s("name"), MT_Expression, o); }
	if ( f == "enum" )    { Opts_def_enum o = {}; o.body = (CodeBody) a.c("body"); o.type = a.ty("type"); o.specifier = a.i("isclass") ? EnumDecl_Class : EnumDecl_Regular; o.attributes = (CodeAttributes) a.c("attributes"); o.mflags = mf; o.type_macro = a.c("macro"); return (Code) def_enum(a.s("name"), o); }
	if ( f == "extern" )  return (Code) def_extern_link(a.s("name"), (CodeBody) a.c("body"));
	if ( f == "friend" )  return (Code) def_friend(a.c("decl"));
	if ( f == "function" ) { Opts_def_function o = {}; o.params = (CodeParams) a.c("params"); o.ret_type = a.ty("ret"); o.body = (CodeBody) a.c("body"); o.specs = (CodeSpecifiers) a.c("specifiers"); o.attrs = (CodeAttributes) a.c("attributes"); o.mflags = mf; return (Code) def_function(a.s("name"), o); }
	if ( f == "namespace" ) { Opts_def_namespace o = {}; o.mflags = mf; return (Code) def_namespace(a.s("name"), (CodeBody) a.c("body"), o); }
	if ( f == "operator" ) { Opts_def_operator o = {}; o.params = (CodeParams) a.c("params"); o.ret_type = a.ty("ret"); o.body = (CodeBody) a.c("body"); o.specifiers = (CodeSpecifiers) a.c("specifiers"); o.attributes = (CodeAttributes) a.c("attributes"); o.mflags = mf; return (Code) def_operator(op_of(a.raw("which")), a.s("nspace"), o); }
	if ( f == "opcast" )  { Opts_def_operator_cast o = {}; o.body = (CodeBody) a.c("body"); o.specs = (CodeSpecifiers) a.c("specifiers"); return (Code) def_operator_cast(a.ty("type"), o); }
	if ( f == "param" )   { Opts_def_param o = {}; o.value = a.c("value"); return (Code) def_param(a.ty("type"), a.s("name"), o); }
	if ( f == "template" ) { Opts_def_template o = {}; o.mflags = mf; return (Code) def_template((CodeParams) a.c("params"), a.c("decl"), o); }
	if ( f == "type" )    { Opts_def_type o = {}; o.type_tag = tag(a.raw("tag")); o.array_expr = a.c("array"); o.specifiers = (CodeSpecifiers) a.c("specifiers"); o.attributes = (CodeAttributes) a.c("attributes"); return (Code) def_type(a.s("name"), o); }
	if ( f == "typedef" ) { Opts_def_typedef o = {}; o.attributes = (CodeAttributes) a.c("attributes"); o.mflags = mf; return (Code) def_typedef(a.s("name"), a.c("type"), o); }
	if ( f == "union" )   { Opts_def_union o = {}; o.attributes = (CodeAttributes) a.c("attributes"); o.mflags = mf; return (Code) def_union(a.s("name"), (CodeBody) a.c("body"), o); }
	if ( f == "using" )   { Opts_def_using o = {}; o.attributes = (CodeAttributes) a.c("attributes"); o.mflags = mf; return (Code) def_using(a.s("name"), a.ty("type"), o); }
	if ( f == "using_namespace" ) return (Code) def_using_namespace(a.s("name"));
	if ( f == "variable" ) { Opts_def_variable o = {}; o.value = a.c("value"); o.specifiers = (CodeSpecifiers) a.c("specifiers"); o.attributes = (CodeAttributes) a.c("attributes"); o.mflags = mf; return (Code) def_variable(a.ty("type"), a.s("name"), o); }
	if ( f == "untyped" ) return (Code) untyped_str(a.s("text"));
	if ( f == "specifiers" ) {
		std::vector<std::string> w = a.words("words"); std::vector<Specifier> v; for ( auto& x : w ) v.push_back(sp_of(x));
		if ( a.i("how") == 2 && v.size() == 1 ) return (Code) def_specifier(v[0]);
		if ( va && v.size() <= 8 ) { int q[8] = {}; for ( size_t k = 0; k < v.size(); ++k ) q[k] = v[k]; return (Code) def_specifiers(v.size(), C8(q)); }
		Specifier* ex = (Specifier*) malloc(sizeof(Specifier) * (v.size() ? v.size() : 1)); memcpy(ex, v.data(), sizeof(Specifier) * v.size()); Code r = (Code) def_specifiers_arr(v.size(), ex); ::free(ex); return r;
	}
	if ( f == "body" ) return (Code) def_body(ty_of(a.raw("kind")));
	#define BODY(n, fn) if ( f == n ) return va ? (Code) fn(num, C8(e)) : (Code) fn##_arr(num, exact);
	BODY("class_body", def_class_body) BODY("struct_body", def_struct_body) BODY("enum_body", def_enum_body) BODY("export_body", def_export_body) BODY("extern_body", def_extern_link_body)
	BODY("function_body", def_function_body) BODY("global_body", def_global_body) BODY("namespace_body", def_namespace_body) BODY("union_body", def_union_body)
	if ( f == "params" ) return va ? (Code) def_params(num, C8(e)) : (Code) def_params_arr(num, (CodeParams*) exact);
	if ( f == "define_params" ) return va ? (Code) def_define_params(num, C8(e)) : (Code) def_define_params_arr(num, (CodeDefineParams*) exact);
	fprintf(stderr, "constructor %s?\n", f.c_str()); exit(66);
}
static std::string text_of(Code c) { StrBuilder b = code_to_strbuilder(c); std::string s(b.Data, strbuilder_length(b)); return s; }
// the text by the function, and the member, of the node's own type
#ifdef VF_CLIKE
#define MEMBER(b)
#else
#define MEMBER(b) b
#endif
static bool alike_here(Code c, std::string const& want) {
	auto is = [&](StrBuilder b) { return std::string(b.Data, strbuilder_length(b)) == want; };
	#define T(N, f) { Code##N n = (Code##N) c; return is(f(n)) MEMBER( && is(n.to_strbuilder()) && is(c.to_strbuilder()) && is(to_strbuilder(n)) ); }
	switch ( A(c)->Type ) {
		case CT_Class: case CT_Class_Fwd: T(Class, class_to_strbuilder)
		case CT_Struct: case CT_Struct_Fwd: T(Struct, struct_to_strbuilder)
		case CT_Union: case CT_Union_Fwd: T(Union, union_to_strbuilder)
		case CT_Enum: case CT_Enum_Fwd: case CT_Enum_Class: case CT_Enum_Class_Fwd: T(Enum, enum_to_strbuilder)
		case CT_Constructor: case CT_Constructor_Fwd: T(Constructor, constructor_to_strbuilder)
		case CT_Destructor: case CT_Destructor_Fwd: T(Destructor, destructor_to_strbuilder)
		case CT_Function: case CT_Function_Fwd: T(Fn, fn_to_strbuilder)
		case CT_Operator: case CT_Operator_Fwd: case CT_Operator_Member: case CT_Operator_Member_Fwd: T(Operator, code_op_to_strbuilder)
		case CT_Operator_Cast: case CT_Operator_Cast_Fwd: T(OpCast, opcast_to_strbuilder)
		case CT_Namespace: T(NS, namespace_to_strbuilder)
		case CT_Template: T(Template, template_to_strbuilder)
		case CT_Typedef: T(Typedef, typedef_to_strbuilder)
		case CT_Using: case CT_Using_Namespace: T(Using, using_to_strbuilder)
		case CT_Variable: T(Var, var_to_strbuilder)
		case CT_Typename: T(Typename, typename_to_strbuilder)
		case CT_Friend: T(Friend, friend_to_strbuilder)
		case CT_Preprocess_Define: T(Define, define_to_strbuilder)
		case CT_Preprocess_If: case CT_Preprocess_IfDef: case CT_Preprocess_IfNotDef: case CT_Preprocess_ElIf: case CT_Preprocess_Else: case CT_Preprocess_EndIf: T(PreprocessCond, preprocess_to_strbuilder)
		case CT_Preprocess_Include: T(Include, include_to_strbuilder)
		case CT_Preprocess_Pragma: T(Pragma, pragma_to_strbuilder)
		case CT_Module: T(Module, module_to_strbuilder)
		case CT_Comment: T(Comment, comment_to_strbuilder)
		case CT_Execution: T(Exec, exec_to_strbuilder)
		case CT_PlatformAttributes: T(Attributes, attributes_to_strbuilder)
		case CT_Parameters: T(Params, params_to_strbuilder)
		case CT_Parameters_Define: T(DefineParams, define_params_to_strbuilder)
		case CT_Specifiers: T(Specifiers, specifiers_to_strbuilder)
		case CT_Enum_Body: case CT_Class_Body: case CT_Extern_Linkage_Body: case CT_Function_Body: case CT_Global_Body: case CT_Namespace_Body: case CT_Struct_Body: case CT_Union_Body: case CT_Export_Body: T(Body, body_to_strbuilder)
		default: return true;
	}
	#undef T
}static bool alike(Code c) {
	if ( ! alike_here(c, text_of(c)) ) return false;
	AST* n = A(c); bool is_body = code_is_body(c);
	Code in = { nullptr };
	if ( is_body ) in = n->Front;
	else switch ( n->Type ) {
		case CT_Class: case CT_Struct: case CT_Union: case CT_Enum: case CT_Enum_Class: case CT_Namespace: case CT_Extern_Linkage: case CT_Function: case CT_Operator: case CT_Operator_Member: in = n->Body; break;
		case CT_Template: case CT_Friend: in = n->Declaration; break;
		default: break;
	}
	if ( ! is_body ) return ! A(in) || A(in)->Type == CT_Untyped || alike(in);
	for ( u32 k = 0; k < n->NumEntries && A(in); ++k, in = A(in)->Next ) if ( ! alike(in) ) return false;
	return true;
}

// parse the text of a node of this type on its own
static bool parse_as(CodeType t, std::string const& text, Code* r) {
	char* p = vf_view(text); Str s { p, (ssize) text.size() };
	switch ( t ) {
		case CT_Class: case CT_Class_Fwd: *r = (Code) parse_class(s); return true;
		case CT_Struct: case CT_Struct_Fwd: *r = (Code) parse_struct(s); return true;
		case CT_Enum: case CT_Enum_Fwd: case CT_Enum_Class: case CT_Enum_Class_Fwd: *r = (Code) parse_enum(s); return true;
		case CT_Union: case CT_Union_Fwd: *r = (Code) parse_union(s); return true;
		case CT_Function: case CT_Function_Fwd: *r = (Code) parse_function(s); return true;
		case CT_Operator: case CT_Operator_Fwd: case CT_Operator_Member: case CT_Operator_Member_Fwd: *r = (Code) parse_operator(s); return true;
		case CT_Operator_Cast: case CT_Operator_Cast_Fwd: *r = (Code) parse_operator_cast(s); return true;
		case CT_Namespace: *r = (Code) parse_namespace(s); return true;
		case CT_Extern_Linkage: *r = (Code) parse_extern_link(s); return true;
		case CT_Template: *r = (Code) parse_template(s); return true;
		case CT_Typedef: *r = (Code) parse_typedef(s); return true;
		case CT_Using: case CT_Using_Namespace: *r = (Code) parse_using(s); return true;
		case CT_Variable: *r = (Code) parse_variable(s); return true;
		case CT_Typename: *r = (Code) parse_type(s); return true;
		case CT_Preprocess_Define: *r = (Code) parse_define(s); return true;
		case CT_Friend: *r = (Code) parse_friend(s); return true;
		case CT_Export_Body: *r = (Code) parse_export_body(s); return true;
		case CT_Global_Body: *r = (Code) parse_global_body(s); return true;
		default: return false;
	}
}
// a text without blank lines and the white space at the ends of lines
static std::string lines_of(std::string const& s) {
	std::string r, l; for ( char c : s + "\n" ) { if ( c != '\n' ) { l += c; continue; } size_t a = l.find_first_not_of(" \t\r"), b = l.find_last_not_of(" \t\r"); if ( a != std::string::npos ) r += l.substr(a, b - a + 1) + "\n"; l.clear(); }
	return r;
}
// the string literals of a JSON text
static void strings_of(std::string const& s, std::set<std::string>& r) {
	for ( size_t i = 0; i < s.size(); ++i ) if ( s[i] == '"' ) {
		std::string x; ++i;
		while ( i < s.size() && s[i] != '"' ) {
			if ( s[i] == '\\' ) { ++i; char c = s[i]; if ( c == 'u' ) { x += (char) strtol(s.substr(i + 1, 4).c_str(), nullptr, 16); i += 5; continue; } x += c == 'n' ? '\n' : c == 't' ? '\t' : c == 'r' ? '\r' : c; ++i; continue; }
			x += s[i++];
		}
		r.insert(x); r.insert("\"" + x + "\"");
	}
}
static void vf_step(Toks const& t) {
	std::string op = t.op(); J j; j.s("op", op); int id = t.i(1); j.i("id", id);
	if ( op == "mk" ) { // id type name: a node of that type with nothing in it but its name (and text, or one specifier)
		CodeType ct = ty_of(t.t[2]); Code c = make_code(); c->Type = ct; std::string nm = t.s(3); c->Name = cache_str(lit(nm));
		switch ( ct ) { case CT_Untyped: case CT_Execution: case CT_Comment: case CT_PlatformAttributes: case CT_Preprocess_Include: case CT_Preprocess_If: case CT_Preprocess_IfDef: case CT_Preprocess_IfNotDef: case CT_Preprocess_ElIf: case CT_Preprocess_Pragma: c->Content = c->Name; break;
			case CT_Parameters: case CT_Parameters_Define: c->NumEntries = 1; break; default: break; }
		if ( ct == CT_Parameters ) c->ValueType = (Code) t_int;
		// what no node of these types is without
		static char const* bodied[] = { "Class", "Struct", "Enum", "Enum_Class", "Union", "Function", "Operator", "Operator_Member", "Operator_Cast", "Namespace", "Extern_Linkage", "Constructor", "Destructor", "Template", "Friend", "Preprocess_Define" };
		static char const* typed[] = { "Function", "Function_Fwd", "Operator", "Operator_Fwd", "Operator_Member", "Operator_Member_Fwd", "Operator_Cast", "Operator_Cast_Fwd", "Typedef", "Using", "Variable" };
		for ( char const* n : bodied ) if ( t.t[2] == n ) { c->Body = untyped_str(lit("z")); c->Body->Parent = c; }
		for ( char const* n : typed ) if ( t.t[2] == n ) c->ValueType = (Code) t_int;
		nodes[id] = { c, desc(c) }; j.s("t", t.t[2]).s("n", nm).raw("r", desc(c)).raw("changed", changed()); vf_emit(j); return;
	}
	if ( op == "const" ) { // id name: a constant of the library
		Code c = { nullptr }; std::string n = t.t[2];
		#define K(x) if ( n == #x ) c = (Code) x;
		K(t_int) K(t_bool) K(t_void) K(t_auto) K(t_char) K(access_public) K(access_private) K(fmt_newline) K(preprocess_else) K(preprocess_endif) K(pragma_once) K(attrib_api_export) K(spec_const) K(spec_inline)
		nodes[id] = { c, desc(c) }; j.s("t", n).raw("r", desc(c)).raw("changed", changed()); vf_emit(j); return;
	}
	if ( op == "dup" ) { // id src
		if ( ! nodes.count(t.i(2)) ) { J x; x.s("op", "none").raw("changed", changed()); vf_emit(x); return; } // what was refused
		Code c = code_duplicate(nodes[t.i(2)].c);
		nodes[id] = { c, desc(c) }; j.i("src", t.i(2)).raw("r", desc(c)).raw("changed", changed()); vf_emit(j); return;
	}
	if ( op == "eq" ) { // id other (0: none)
		int o = t.i(2);
		if ( ! nodes.count(id) || o && ! nodes.count(o) ) { J x; x.s("op", "none").raw("changed", changed()); vf_emit(x); return; }
		bool r = code_is_equal(nodes[id].c, o ? nodes[o].c : Code { nullptr });
		j.i("other", o).bo("r", r).raw("changed", changed()); vf_emit(j); return;
	}
	if ( op == "append" ) { // id entry: one more entry of a body nothing refers to yet
		int o = t.i(2);
		if ( ! nodes.count(id) || ! nodes.count(o) ) { J x; x.s("op", "none").raw("changed", changed()); vf_emit(x); return; }
		body_append((CodeBody) nodes[id].c, nodes[o].c); nodes[id].d = desc(nodes[id].c);
		j.i("other", o).raw("r", nodes[id].d).raw("changed", changed()); vf_emit(j); return;
	}
	if ( op == "valid" ) { // id: is every entry of the body one it may have?
		if ( ! nodes.count(id) ) { J x; x.s("op", "none").raw("changed", changed()); vf_emit(x); return; }
		Code c = nodes[id].c; bool r = code_validate_body(c) MEMBER( && c.validate_body() );
		j.bo("r", r).raw("changed", changed()); vf_emit(j); return;
	}
	if ( op == "same" ) { // id xWANTED: what was built is what was wanted
		if ( ! nodes.count(id) ) { J x; x.s("op", "none").raw("changed", changed()); vf_emit(x); return; }
		std::string want = t.s(2); std::set<std::string> ts; strings_of(want, ts); vf_texts = &ts; desc(nodes[id].c); vf_texts = nullptr;
		j.raw("want", want).raw("lx", lexicon(ts)).raw("changed", changed()); vf_emit(j); return;
	}
	if ( op == "ser" ) { // id
		if ( ! nodes.count(id) ) { J x; x.s("op", "none").raw("changed", changed()); vf_emit(x); return; }
		std::string o = text_of(nodes[id].c); std::set<std::string> ts; vf_texts = &ts; desc(nodes[id].c); vf_texts = nullptr;
		j.raw("out", lexemes_json(o)).bo("alike", alike(nodes[id].c)).raw("lx", lexicon(ts)).raw("changed", changed()); vf_emit(j); return;
	}
	if ( op == "back" ) { // id
		if ( ! nodes.count(id) ) { J x; x.s("op", "none").raw("changed", changed()); vf_emit(x); return; }
		std::string o = text_of(nodes[id].c); std::set<std::string> ts; vf_texts = &ts; desc(nodes[id].c);
		Code c; if ( ! parse_as(A(nodes[id].c)->Type, o, &c) ) { vf_texts = nullptr; J x; x.s("op", "none").raw("changed", changed()); vf_emit(x); return; }
		j.s("text", o).raw("r", desc(c)).raw("lx", lexicon(ts)).raw("changed", changed()); vf_texts = nullptr; vf_emit(j); return;
	}
	if ( op == "parse" ) { // id type plain xSOURCE xWANTED: the source is a declaration described by the second text; parsed, serialised, and that parsed and serialised once more
		CodeType ct = ty_of(t.t[2]); std::string src = t.s(4), want = t.s(5); std::set<std::string> ts; strings_of(want, ts);
		Code c, c2; if ( ! parse_as(ct, src, &c) ) exit(67);
		vf_texts = &ts; std::string d = desc(c); nodes[id] = { c, d };
		std::string o = text_of(c), o2, d2 = "{\"t\":\"none\"}"; bool again = false;
		if ( A(c) != A(Code_Invalid) ) { parse_as(ct, o, &c2); d2 = desc(c2); o2 = text_of(c2); again = lines_of(o) == lines_of(o2); }
		vf_texts = nullptr;
		j.s("text", src).raw("want", want).bo("plain", t.i(3)).raw("src", lexemes_json(src)).raw("r", d).s("output", o).raw("out", lexemes_json(o)).raw("r2", d2).bo("again", again).bo("alike", A(c) == A(Code_Invalid) || alike(c));
		if ( ! again ) j.s("output2", o2);
		j.raw("lx", lexicon(ts)).raw("changed", changed()); vf_emit(j); return;
	}
	if ( op == "def" ) { // id constructor k=v...
		std::string f = t.t[2]; Args a(t, 3); vf_log_len = 0; Code c = build(f, a);
		J q; q.i("none", 0);
		for ( auto& e : a.m ) {
			std::string const& k = e.first;
			if ( k == "name" || k == "text" || k == "nspace" ) q.s(k.c_str(), a.text(k.c_str()));
			else if ( k == "which" || k == "access" || k == "tag" || k == "kind" && f == "body" ) q.s(k.c_str(), e.second);
			else if ( k == "entries" || k == "interfaces" ) { JA l; for ( int x : a.ids(k.c_str()) ) l.i(x); q.raw(k.c_str(), l.done()); }
			else if ( k == "words" ) { JA l; for ( auto& x : a.words("words") ) l.s(x); q.raw("words", l.done()); }
			else q.i(k.c_str(), atoll(e.second.c_str()));
		}
		if ( f == "comment" ) { std::string x = a.text("text"), cur; JA l; for ( char ch : x + "\n" ) if ( ch == '\n' ) { l.s(cur); cur.clear(); } else cur += ch; q.raw("lines", l.done()); }
		bool refused = A(c) == A(Code_Invalid);
		j.s("f", f).raw("a", q.done()).bo("null", A(c) == nullptr).bo("refused", refused).bo("inert", A(Code_Invalid)->Type == CT_Invalid);
		j.raw("changed", changed());
		if ( ! refused && A(c) ) { nodes[id] = { c, desc(c) }; j.raw("r", desc(c)); } else j.raw("r", "{\"t\":\"none\"}");
		vf_emit(j);
		return;
	}
}
int main(int c, char** v) { return vf_main(c, v); }
