// Drives the lexer: registrations and the token stream of source texts.
#include "lib.hpp"
#include "ast.hpp"
#define KINDS(X) X(Invalid) X(Access_Private) X(Access_Protected) X(Access_Public) X(Access_MemberSymbol) X(Access_StaticSymbol) X(Ampersand) X(Ampersand_DBL) X(Assign_Classifer) \
	X(Attribute_Open) X(Attribute_Close) X(BraceCurly_Open) X(BraceCurly_Close) X(BraceSquare_Open) X(BraceSquare_Close) X(Paren_Open) X(Paren_Close) X(Comment) X(Comment_End) \
	X(Comment_Start) X(Char) X(Comma) X(Decl_Class) X(Decl_GNU_Attribute) X(Decl_MSVC_Attribute) X(Decl_Enum) X(Decl_Extern_Linkage) X(Decl_Friend) X(Decl_Module) X(Decl_Namespace) \
	X(Decl_Operator) X(Decl_Struct) X(Decl_Template) X(Decl_Typedef) X(Decl_Using) X(Decl_Union) X(Identifier) X(Module_Import) X(Module_Export) X(NewLine) X(Number) X(Operator) \
	X(Preprocess_Hash) X(Preprocess_Define) X(Preprocess_Define_Param) X(Preprocess_If) X(Preprocess_IfDef) X(Preprocess_IfNotDef) X(Preprocess_ElIf) X(Preprocess_Else) X(Preprocess_EndIf) \
	X(Preprocess_Include) X(Preprocess_Pragma) X(Preprocess_Content) X(Preprocess_Macro_Expr) X(Preprocess_Macro_Stmt) X(Preprocess_Macro_Typename) X(Preprocess_Unsupported) \
	X(Spec_Alignas) X(Spec_Const) X(Spec_Consteval) X(Spec_Constexpr) X(Spec_Constinit) X(Spec_Explicit) X(Spec_Extern) X(Spec_Final) X(Spec_ForceInline) X(Spec_Global) X(Spec_Inline) \
	X(Spec_Internal_Linkage) X(Spec_LocalPersist) X(Spec_Mutable) X(Spec_NeverInline) X(Spec_NoExceptions) X(Spec_Override) X(Spec_Restrict) X(Spec_Static) X(Spec_ThreadLocal) \
	X(Spec_Volatile) X(Spec_Virtual) X(Star) X(Statement_End) X(StaticAssert) X(String) X(Type_Typename) X(Type_Unsigned) X(Type_Signed) X(Type_Short) X(Type_Long) X(Type_bool) \
	X(Type_char) X(Type_int) X(Type_double) X(Type_MS_int8) X(Type_MS_int16) X(Type_MS_int32) X(Type_MS_int64) X(Type_MS_W64) X(Varadic_Argument) X(Attribute_GEN_API)
static char const* kind_name(TokType t) {
	switch ( t ) {
		#define X(k) case Tok_##k: return #k;
		KINDS(X)
		#undef X
		default: return "?";
	}
}
static Context* ctx; static std::vector<char*> texts;
static void vf_reset() {
	if ( ctx ) { deinit(ctx); delete ctx; } for ( char* p : texts ) ::free(p); texts.clear();
	ctx = new Context(); memset((void*) ctx, 0, sizeof(Context)); ctx->InitSize_Fallback_Allocator_Bucket_Size = 1 << 22; ctx->InitSize_LexerTokens = 64; init(ctx);
	J j; j.s("op", "Reset"); vf_emit(j);
}
static MacroType kind(std::string const& s) { return s == "stmt" ? MT_Statement : s == "type" ? MT_Typename : MT_Expression; }
static std::string dense(Code c) { StrBuilder b = code_to_strbuilder(c); std::string o; for ( ssize i = 0; i < strbuilder_length(b); ++i ) if ( ! isspace((unsigned char) b[i]) ) o += b[i]; return o; }
static void entries(AST* b, JA& list) { // kind and text of every entry, those of a nested body in their place; only the text of macro statements with its white space
	for ( AST* e = A(b->Front); e; e = A(e->Next) ) {
		if ( e->Type == CT_NewLine ) continue;
		bool scope = e->Type == CT_Class || e->Type == CT_Struct || e->Type == CT_Namespace || e->Type == CT_Extern_Linkage;
		list.raw(JA().s(ty_name(e->Type)).s(scope ? str(e->Name) : e->Type == CT_Untyped ? str(e->Content) : dense(Code { e })).done());
		if ( scope ) { if ( e->Body ) entries(A(e->Body), list); list.raw(JA().s("end").s("").done()); }
	}
}
static void vf_step(Toks const& t) {
	std::string op = t.op(); J j; j.s("op", op);
	if ( op == "reg" ) { // name kind flags [how]
		std::string nm = t.s(1); char* tmp = (char*) malloc(nm.size()); memcpy(tmp, nm.data(), nm.size()); Macro m = { Str { tmp, (ssize) nm.size() }, kind(t.t[2]), (MacroFlags) t.i(3) }; Macro o = m; o.Flags = 0; o.Type = MT_Typename; Macro a[3] = { m, o, m };
		switch ( t.i(4) ) { case 1: register_macros(1, m); break; case 2: register_macros_arr(1, & m); break; case 3: register_macros(2, o, m); break; case 4: register_macros_arr(3, a); break; default: register_macro(m); }
		memset(tmp, '#', nm.size()); ::free(tmp); j.s("name", nm).s("kind", t.t[2]).i("flags", t.i(3));
	}
	else if ( op == "lookup" ) {
		std::string nm = t.s(1); char* p = (char*) malloc(nm.size()); memcpy(p, nm.data(), nm.size()); Macro* m = lookup_macro(Str { p, (ssize) nm.size() }); ::free(p); j.s("name", nm).bo("found", m != nullptr);
		if ( m ) j.s("as", str(m->Name)).s("kind", m->Type == MT_Expression ? "expr" : m->Type == MT_Statement ? "stmt" : m->Type == MT_Typename ? "type" : "?").i("flags", m->Flags).bo("isfunc", macro_is_functional(* m)).bo("isbody", macro_expects_body(* m));
	}
	else if ( op == "file" ) { // scope xITEMS xSOURCE: parsed as a file; its entries
		std::string src = t.s(3); char* p = vf_view(src); texts.push_back(p);
		CodeBody b = parse_global_body(Str { p, (ssize) src.size() }); JA list; bool ok = b && b->Type != CT_Invalid;
		if ( ok ) entries(A((Code) b), list);
		j.s("in", t.t[1]).raw("items", t.s(2)).s("src", src).bo("ok", ok).raw("list", list.done());
	}
	else { // lex, lexf: with nothing registered. xSOURCE
		std::string src = t.s(1); char* p = vf_view(src); texts.push_back(p);
		if ( op == "lexf" ) { hashtable_clear(_ctx->Macros); register_macro(enum_underlying_macro); }
		TokArray a = lex(Str { p, (ssize) src.size() }); JA toks;
		if ( a.Arr ) for ( ssize i = 0; i < (ssize) array_num(a.Arr); ++i ) {
			Token k = a.Arr[i]; bool macro = k.Type >= Tok_Preprocess_Macro_Expr && k.Type <= Tok_Preprocess_Macro_Typename;
			int x = macro ? (bitfield_is_set(u32, k.Flags, TF_Macro_Functional) ? 1 : 0) + (bitfield_is_set(u32, k.Flags, TF_Attribute) ? 2 : 0) + (bitfield_is_set(u32, k.Flags, TF_Specifier) ? 4 : 0) : 0;
			toks.raw(JA().s(kind_name(k.Type)).i(k.Text.Ptr - p).i(k.Text.Len).i(k.Line).i(k.Column).i(x).done());
		}
		j.s("src", src).raw("toks", toks.done());
	}
	vf_emit(j);
}
int main(int argc, char** argv) { return vf_main(argc, argv); }
