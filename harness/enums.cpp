// Reports the enumerations of the library and what texts are looked up as.
#include "lib.hpp"
#include "enum_names.hpp"
struct EnumName { char const* kind; char const* name; long long value; };
static EnumName const enum_names[] = {
#define X(k, n, v) { #k, #n, (long long) v },
VF_ENUMS
#undef X
};
static std::string st(Str s) { return std::string(s.Ptr, s.Len); }
static std::string name_of(char const* kind, long long v) { std::string r = "?"; for ( auto& e : enum_names ) if ( ! strcmp(e.kind, kind) && e.value == v ) r = r == "?" ? e.name : r + "+" + e.name; return r; }
static void vf_reset() { J j; j.s("op", "Reset"); vf_emit(j); }
// table KIND n1 t1 n2 t2 ...  |  kind KIND  |  from TEXT
static void vf_step(Toks const& t) {
	J j; j.s("op", t.op());
	if ( t.op() == "table" ) {
		JA rows; for ( size_t k = 2; k + 1 < t.n(); k += 2 ) { JA r; r.s(t.s(k)).s(t.s(k + 1)); rows.raw(r.done()); }
		j.s("kind", t.t[1]).raw("rows", rows.done());
	}
	else if ( t.op() == "kind" ) {
		std::string k = t.t[1]; j.s("kind", k);
		long long n = k == "op" ? Op_NumOps : k == "spec" ? Spec_NumSpecifiers : k == "tok" ? Tok_NumTokens : k == "code" ? CT_NumTypes : k == "access" ? AccessSpec_Num_AccessSpec : k == "macro" ? MT_Case_Statement + 1 : Num_ModuleFlags;
		JA names, texts, keys, trail; bool same = true; std::string beyond;
		for ( long long v = 0; v < n; ++v ) {
			names.s(name_of(k.c_str(), v));
			if ( k == "op" )          { texts.s(st(operator_to_str((Operator) v)));    same &= st(to_str((Operator) v)) == st(operator_to_str((Operator) v)); }
			else if ( k == "spec" )   { texts.s(st(spec_to_str((Specifier) v)));       same &= st(to_str((Specifier) v)) == st(spec_to_str((Specifier) v));
			                            trail.bo(spec_is_trailing((Specifier) v));     same &= is_trailing((Specifier) v) == spec_is_trailing((Specifier) v); }
			else if ( k == "tok" )    texts.s(st(toktype_to_str((TokType) v)));
			else if ( k == "code" )   { texts.s(st(codetype_to_str((CodeType) v)));    same &= st(to_str((CodeType) v)) == st(codetype_to_str((CodeType) v));
			                            keys.s(st(codetype_to_keyword_str((CodeType) v))); same &= st(to_keyword_str((CodeType) v)) == st(codetype_to_keyword_str((CodeType) v)); 
			                            AST a; memset(& a, 0, sizeof a); a.Type = (CodeType) v; same &= st(code_type_str(Code { & a })) == st(codetype_to_str((CodeType) v)); }
			else if ( k == "access" ) texts.s(st(access_spec_to_str((AccessSpec) v)));
			else if ( k == "macro" )  texts.s(st(macrotype_to_str((MacroType) v)));
			else                      texts.s(st(module_flag_to_str((ModuleFlag) v)));
		}
		if ( k == "access" ) beyond = st(access_spec_to_str(AccessSpec_Invalid));
		if ( k == "macro" )  beyond = st(macrotype_to_str((MacroType) (MT_Case_Statement + 1)));
		if ( k == "module" ) beyond = st(module_flag_to_str(ModuleFlag_Invalid));
		j.i("n", n).raw("names", names.done()).raw("texts", texts.done()).bo("same", same).s("beyond", beyond);
		if ( k == "code" ) j.raw("keywords", keys.done());
		if ( k == "spec" ) j.raw("trailing", trail.done());
	}
	else if ( t.op() == "from" ) {
		std::string s = t.s(1); std::string copy = s + "_after"; Str v = { copy.data(), (ssize) s.size() };
		Specifier a = str_to_specifier(v); TokType b = str_to_toktype(v);
		j.s("text", s).s("spec", name_of("spec", a)).s("tok", name_of("tok", b)).bo("same", to_type(v) == a);
	}
	vf_emit(j);
}
int main(int c, char** v) { return vf_main(c, v); }
