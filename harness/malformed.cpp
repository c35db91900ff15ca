// Drives the parser with any text, as a user of the default configuration does: what it refuses ends the process (here: the parse).
#define VF_FATAL
#include <setjmp.h>
#include "lib.hpp"
#include "ast.hpp"
extern "C" void* vf_exit_jmp;
static Context* vf_ctx; static std::vector<char*> texts; struct Reg { std::string name; MacroType type; int flags; }; static std::vector<Reg> regs;
static void fresh() {
	if ( vf_ctx ) { deinit(vf_ctx); delete vf_ctx; } for ( char* p : texts ) ::free(p); texts.clear();
	vf_ctx = new Context(); memset((void*) vf_ctx, 0, sizeof(Context)); vf_ctx->InitSize_Fallback_Allocator_Bucket_Size = 1 << 22; vf_ctx->InitSize_LexerTokens = 4096; init(vf_ctx);
	for ( Reg& r : regs ) { Macro m = { Str { r.name.data(), (ssize) r.name.size() }, r.type, (MacroFlags) r.flags }; register_macro(m); }
}
static void vf_reset() { regs.clear(); fresh(); J j; j.s("op", "Reset"); vf_emit(j); }
static Code parse_kind(std::string const& k, Str s) {
	#define K(n, f) if ( k == n ) return (Code) f(s);
	K("global", parse_global_body) K("class", parse_class) K("constructor", parse_constructor) K("define", parse_define) K("destructor", parse_destructor) K("enum", parse_enum) K("export", parse_export_body)
	K("extern", parse_extern_link) K("friend", parse_friend) K("function", parse_function) K("namespace", parse_namespace) K("operator", parse_operator) K("opcast", parse_operator_cast)
	K("struct", parse_struct) K("template", parse_template) K("type", parse_type) K("typedef", parse_typedef) K("union", parse_union) K("using", parse_using) K("variable", parse_variable)
	fprintf(stderr, "kind %s?\n", k.c_str()); exit(66);
}
static unsigned crc(std::string const& s) { unsigned h = 2166136261u; for ( unsigned char c : s ) h = (h ^ c) * 16777619u; return h & 0x3fffffff; }
static void vf_step(Toks const& t) {
	std::string op = t.op(); J j; j.s("op", op);
	if ( op == "fresh" ) { fresh(); vf_emit(j); return; }
	if ( op == "reg" ) { // name kind flags
		regs.push_back({ t.t[1], t.t[2] == "stmt" ? MT_Statement : t.t[2] == "type" ? MT_Typename : MT_Expression, (int) t.i(3) }); fresh(); vf_emit(j); return;
	}
	// parse KIND xTEXT SHAPE CLAIM: the text ends where its memory does
	std::string src = t.s(2); char* p = (char*) malloc(src.size() ? src.size() : 1); memcpy(p, src.data(), src.size()); texts.push_back(p);
	static jmp_buf jb; static Code c; c = Code { nullptr }; volatile bool ended = false; vf_log_len = 0;
	vf_exit_jmp = & jb; if ( setjmp(jb) == 0 ) { Code r = parse_kind(t.t[1], Str { p, (ssize) src.size() }); memcpy((void*) & c, & r, sizeof r); } else ended = true; vf_exit_jmp = nullptr;
	std::string out = "refused", tree = ""; long long d = 0;
	if ( ! ended ) {
		Code r; memcpy((void*) & r, (void*) & c, sizeof r);
		if ( r.ast == nullptr ) out = "none"; else if ( A(r)->Type == CT_Invalid ) out = "invalid";
		else { out = "node"; tree = desc(r); vf_exit_jmp = & jb; if ( setjmp(jb) == 0 ) { StrBuilder b = code_to_strbuilder(r); tree += std::string(b.Data, strbuilder_length(b)); } else ended = true; vf_exit_jmp = nullptr; d = crc(tree); }
	}
	JA sh; if ( t.t.size() > 3 && t.t[3] != "-" ) for ( char ch : t.t[3] ) sh.s(std::string(1, ch));
	j.s("claim", t.t.size() > 4 ? t.t[4] : "any").raw("shape", sh.done()).s("as", t.t[1]).s("src", src).s("out", out).i("tree", d).bo("said", vf_log_len > 0);
	if ( getenv("VF_SAY") ) fprintf(stderr, "%.*s\n", (int) vf_log_len, vf_log_text);
	vf_emit(j);
	if ( ended ) fresh();
}
int main(int argc, char** argv) { return vf_main(argc, argv); }
