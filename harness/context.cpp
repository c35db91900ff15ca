// Drives library contexts: lifecycle, interning, macro registry, and sample programs in the active context.
#include "lib.hpp"
#include <unordered_map>
struct Kept { char const* p; std::string text; long long id; };
struct C { Context* c = nullptr; bool up = false; std::vector<Kept> kept; std::unordered_map<char const*, long long> ids; long long next = 1; long long live = 0; std::map<void*, size_t> blocks; };
static C cs[4];
static void* count_proc(void* d, AllocType type, ssize size, ssize align, void* old, ssize old_size, u64) { // a caller's allocator that counts what it gave
	C* c = (C*) d;
	if ( type == EAllocation_ALLOC ) { size_t n = (size + 63) / 64 * 64 + 64; void* p = aligned_alloc(64, n); memset(p, 0, n); c->blocks[p] = size; c->live += 1; return p; }
	if ( type == EAllocation_FREE ) { if ( ! old ) return nullptr; auto it = c->blocks.find(old); if ( it == c->blocks.end() ) { c->live += 1000000; return nullptr; } c->blocks.erase(it); c->live -= 1; ::free(old); }
	if ( type == EAllocation_RESIZE ) return default_resize_align(AllocatorInfo { count_proc, d }, old, old_size, size, align);
	return nullptr;
}
static std::vector<void*> temps;
static void* temp_proc(void* d, AllocType type, ssize size, ssize align, void* old, ssize old_size, u64) {
	if ( type == EAllocation_ALLOC ) { void* p = calloc(1, size + 16); temps.push_back(p); return p; }
	if ( type == EAllocation_RESIZE ) return default_resize_align(AllocatorInfo { temp_proc, d }, old, old_size, size, align);
	return nullptr;
}
static int number(Context* c) { for ( int k = 1; k <= 3; ++k ) if ( c && cs[k].c == c && cs[k].up ) return k; return 0; }
static bool intact() { for ( int k = 1; k <= 3; ++k ) if ( cs[k].up ) for ( auto& s : cs[k].kept ) if ( memcmp(s.p, s.text.data(), s.text.size()) ) return false; return true; }
static std::string repr(std::string const& s) {
	if ( s.size() <= 60 ) return s;
	for ( char ch : s ) if ( ch != s[0] ) return s;
	return "R:" + std::to_string((unsigned char) s[0]) + ":" + std::to_string(s.size());
}
static void drop(int k) { cs[k].kept.clear(); cs[k].ids.clear(); cs[k].next = 1; }
static bool made; // the very first context of the process
static void down(int k) { if ( cs[k].up ) { set_context(cs[k].c); deinit(cs[k].c); cs[k].up = false; } delete cs[k].c; cs[k].c = nullptr; drop(k); for ( auto& b : cs[k].blocks ) ::free(b.first); cs[k].blocks.clear(); cs[k].live = 0; }
static int basek;
static void vf_reset() {
	for ( int k = 1; k <= 3; ++k ) if ( k != basek ) down(k);
	if ( basek ) down(basek); basek = 0;
	for ( void* p : temps ) ::free(p); temps.clear();
	J j; j.s("op", "Reset"); vf_emit(j);
}
static std::string str(Str s) { return std::string(s.Ptr, s.Len); }
static std::string show(Code c) { if ( ! c ) return "<null>"; if ( c->Type == CT_Invalid ) return "<invalid>"; StrBuilder b = code_to_strbuilder(c); return std::string(b, strbuilder_length(b)); }
static Str lit(std::string const& s) { return Str { strdup(s.c_str()), (ssize) s.size() }; }
static char const* kinds(MacroType t) { switch ( t ) { case MT_Expression: return "expr"; case MT_Statement: return "stmt"; case MT_Typename: return "type"; default: return "other"; } }
static MacroType kind(std::string const& s) { return s == "stmt" ? MT_Statement : s == "type" ? MT_Typename : MT_Expression; }
static std::string sample(int k) {
	switch ( k ) {
		case 1: return show( (Code) parse_class(txt("class A { public: int x; void f( int a, char const* b ); private: virtual ~A(); };")) );
		case 2: { CodeParams p = def_param(t_int, txt("n")); params_append(p, def_param(t_bool, txt("flag")));
			Opts_def_function o = {}; o.params = p; o.ret_type = t_void; o.specs = def_specifier(Spec_Inline); return show( (Code) def_function(txt("built"), o) ); }
		case 3: { char buf[200]; return str( token_fmt_impl(2, "name", txt("N"), "<name> and <other> <name>") ); }
		case 4: return show( (Code) parse_enum(txt("enum E : enum_underlying(u8) { A, B = 3, C };")) );
		case 5: { TokArray a = lex(txt("MM MM( 1 ) other struct MM")); std::string o; for ( ssize i = 0; i < (ssize) array_num(a.Arr); ++i ) { Token q = a.Arr[i]; o += std::to_string(q.Type) + "/" + std::to_string(q.Flags) + ":" + str(q.Text) + " "; } return o; }
		case 6: return show( (Code) def_comment(txt("some comment\nof two lines")) );
		case 7: { CodeTypename t = def_type(txt("T")); CodeVar v = def_variable(t, txt("v")); CodeBody b = def_body(CT_Global_Body); for ( int i = 0; i < 40; ++i ) body_append(b, (Code) v); return show((Code) b); }
		case 8: { std::string s; for ( int i = 0; i < 30; ++i ) s += "namespace N" + std::to_string(i) + " { int f" + std::to_string(i) + "( T" + std::to_string(i) + " const& a ); }\n"; return show((Code) parse_global_body(lit(s))); }
	}
	return "?";
}
static std::string constants() {
	JA a; auto add = [&](char const* n, std::string const& t) { a.raw(JA().s(n).s(t).done()); };
	add("Global Code", str(Code_Global->Name));
	#define T(x) add(#x, show((Code) x))
	T(t_auto); T(t_void); T(t_int); T(t_bool); T(t_char); T(t_wchar_t); T(t_class); T(t_typename); T(t_u8); T(t_s64); T(t_f32); T(access_public); T(access_protected); T(access_private);
	T(module_global_fragment); T(module_private_fragment); T(attrib_api_export); T(attrib_api_import); T(pragma_once); T(preprocess_else); T(preprocess_endif); T(fmt_newline);
	T(spec_const); T(spec_inline); T(spec_virtual); T(spec_static_member); T(spec_ptr); T(spec_ref); add("param_varadic", str(param_varadic->Name));
	return a.done();
}
static void vf_step(Toks const& t) {
	std::string op = t.op(); J j; j.s("op", op); int k = t.i(1);
	if ( op == "cinit" ) { // c [kind arena limit blocks]
		std::string kd = t.n() > 2 ? t.t[2] : "f"; long long arena = t.n() > 3 ? t.i(3) : 4096, limit = t.n() > 4 ? t.i(4) : 0, blocks = t.n() > 5 ? t.i(5) : 512;
		C& c = cs[k]; c.c = new Context(); memset((void*) c.c, 0, sizeof(Context)); drop(k); c.live = 0;
		c.c->SizePer_StringArena = arena; c.c->Max_StrCacheLength = limit; c.c->CodePool_NumBlocks = blocks; c.c->InitSize_Fallback_Allocator_Bucket_Size = 1 << 19; c.c->InitSize_LexerTokens = 256; c.c->InitSize_StringArenasArray = 1; c.c->InitSize_CodePoolsArray = 1;
		if ( kd == "c" || kd == "p" ) { AllocatorInfo a = { count_proc, & c }; c.c->Allocator_DyanmicContainers = c.c->Allocator_Pool = c.c->Allocator_StrCache = a; if ( kd == "c" ) { AllocatorInfo tm = { temp_proc, nullptr }; c.c->Allocator_Temp = tm; } }
		init(c.c); c.up = true; if ( ! basek ) basek = k;
		j.i("c", k).s("kind", kd).i("limit", c.c->Max_StrCacheLength);
	}
	else if ( op == "cswitch" ) { set_context(cs[k].c); j.i("c", k); }
	else if ( op == "creset" ) { reset(cs[k].c); drop(k); j.i("c", k); }
	else if ( op == "cdeinit" ) { deinit(cs[k].c); cs[k].up = false; delete cs[k].c; cs[k].c = nullptr; drop(k); if ( basek == k ) basek = 0; j.i("c", k).i("live", cs[k].live); }
	else if ( op == "intern" ) { // text | R char n
		std::string s = t.t[1] == "R" ? std::string(t.i(3), (char) t.i(2)) : t.s(1); C& c = cs[number(get_context())];
		char* tmp = (char*) malloc(s.size() + 1); memcpy(tmp, s.data(), s.size()); tmp[s.size()] = '~'; // the given text is not terminated
		char* exact = (char*) malloc(s.empty() ? 1 : s.size()); memcpy(exact, tmp, s.size()); ::free(tmp);
		Str r = cache_str(Str { exact, (ssize) s.size() }); memset(exact, '#', s.size()); ::free(exact);
		auto it = c.ids.find(r.Ptr); long long id; if ( it == c.ids.end() ) { id = c.ids[r.Ptr] = c.next++; c.kept.push_back({ r.Ptr, s, id }); } else id = it->second;
		j.s("t", repr(s)).i("n", s.size()).i("id", id).s("got", repr(str(r))).bo("term", r.Ptr[r.Len] == 0);
	}
	else if ( op == "part" ) { // index from len: a part of a string already stored
		C& c = cs[number(get_context())]; if ( c.kept.empty() ) return; Kept q = c.kept[ t.i(1) % c.kept.size() ]; size_t from = t.i(2) % (q.text.size() + 1), len = min((size_t) t.i(3), (q.text.size() - from));
		Str r = cache_str(Str { q.p + from, (ssize) len }); std::string s = q.text.substr(from, len);
		auto it = c.ids.find(r.Ptr); long long id; if ( it == c.ids.end() ) { id = c.ids[r.Ptr] = c.next++; c.kept.push_back({ r.Ptr, s, id }); } else id = it->second;
		j = J(); j.s("op", "intern").s("t", repr(s)).i("n", s.size()).i("id", id).s("got", repr(str(r))).bo("term", r.Ptr[r.Len] == 0);
	}
	else if ( op == "reg" ) { // name kind flags [how]
		std::string nm = t.s(1); char* tmp = strdup(nm.c_str()); Macro m = { Str { tmp, (ssize) nm.size() }, kind(t.t[2]), (MacroFlags) t.i(3) }; int how = t.i(4);
		if ( how == 1 ) register_macros(1, m); else if ( how == 2 ) register_macros_arr(1, & m); else if ( how == 3 ) { Macro o = m; o.Flags = 0; register_macros(2, o, m); } else if ( how == 4 ) { Macro a[3] = { m, m, m }; a[0].Type = MT_Typename; register_macros_arr(3, a); } else register_macro(m);
		memset(tmp, '#', nm.size()); ::free(tmp); j.s("name", nm).s("kind", t.t[2]).i("flags", t.i(3));
	}
	else if ( op == "def" ) { // name functional: met while parsing
		std::string s = "#define " + t.s(1) + (t.i(2) ? "( a, b ) a + b\n" : " 1\n"); parse_global_body(lit(s)); j.s("name", t.s(1)).bo("functional", t.i(2));
	}
	else if ( op == "lookup" ) {
		std::string nm = t.s(1); Macro* m = lookup_macro(Str { nm.data(), (ssize) nm.size() }); j.s("name", nm).bo("found", m != nullptr);
		if ( m ) j.s("as", str(m->Name)).s("kind", kinds(m->Type)).i("flags", m->Flags).bo("isfunc", macro_is_functional(* m)).bo("isbody", macro_expects_body(* m));
	}
	else if ( op == "sample" ) { // [k]
		for ( int q = 1; q <= 8; ++q ) if ( t.n() < 2 || t.i(1) == q ) { std::string o = sample(q); j = J(); j.s("op", "sample").i("k", q).s("out", o).i("cur", number(get_context())).bo("intact", intact()); vf_emit(j); }
		return;
	}
	else if ( op == "const" ) j.raw("list", constants());
	j.i("cur", number(get_context())).bo("intact", intact()); vf_emit(j);
}
int main(int c, char** v) { return vf_main(c, v); }
