// Descriptions of code nodes as JSON, by their content and not by their identity. Include after lib.hpp.
#pragma once
#define VF_TYPES(X) X(Invalid) X(Untyped) X(NewLine) X(Comment) X(Access_Private) X(Access_Protected) X(Access_Public) X(PlatformAttributes) X(Class) X(Class_Fwd) X(Class_Body) \
	X(Constructor) X(Constructor_Fwd) X(Destructor) X(Destructor_Fwd) X(Enum) X(Enum_Fwd) X(Enum_Body) X(Enum_Class) X(Enum_Class_Fwd) X(Execution) X(Export_Body) X(Extern_Linkage) \
	X(Extern_Linkage_Body) X(Friend) X(Function) X(Function_Fwd) X(Function_Body) X(Global_Body) X(Module) X(Namespace) X(Namespace_Body) X(Operator) X(Operator_Fwd) X(Operator_Member) \
	X(Operator_Member_Fwd) X(Operator_Cast) X(Operator_Cast_Fwd) X(Parameters) X(Parameters_Define) X(Preprocess_Define) X(Preprocess_Include) X(Preprocess_If) X(Preprocess_IfDef) \
	X(Preprocess_IfNotDef) X(Preprocess_ElIf) X(Preprocess_Else) X(Preprocess_EndIf) X(Preprocess_Pragma) X(Specifiers) X(Struct) X(Struct_Fwd) X(Struct_Body) X(Template) X(Typedef) \
	X(Typename) X(Union) X(Union_Fwd) X(Union_Body) X(Using) X(Using_Namespace) X(Variable)
#define VF_OPS(X) X(Invalid) X(Assign) X(Assign_Add) X(Assign_Subtract) X(Assign_Multiply) X(Assign_Divide) X(Assign_Modulo) X(Assign_BAnd) X(Assign_BOr) X(Assign_BXOr) X(Assign_LShift) \
	X(Assign_RShift) X(Increment) X(Decrement) X(Unary_Plus) X(Unary_Minus) X(UnaryNot) X(Add) X(Subtract) X(Multiply) X(Divide) X(Modulo) X(BNot) X(BAnd) X(BOr) X(BXOr) X(LShift) X(RShift) \
	X(LAnd) X(LOr) X(LEqual) X(LNot) X(Lesser) X(Greater) X(LesserEqual) X(GreaterEqual) X(Subscript) X(Indirection) X(AddressOf) X(MemberOfPointer) X(PtrToMemOfPtr) X(FunctionCall) X(Comma) \
	X(New) X(NewArray) X(Delete) X(DeleteArray)
#define VF_SPECS(X) X(Consteval) X(Constexpr) X(Constinit) X(Explicit) X(External_Linkage) X(ForceInline) X(Global) X(Inline) X(Internal_Linkage) X(Local_Persist) X(Mutable) X(NeverInline) X(Ptr) \
	X(Ref) X(Register) X(Restrict) X(RValue) X(Static) X(Thread_Local) X(Virtual) X(Const) X(Final) X(NoExceptions) X(Override) X(Pure) X(Delete) X(Volatile)
static std::string str(Str s) { return s.Ptr ? std::string(s.Ptr, s.Len) : ""; }
static char const* ty_name(CodeType t) { switch ( t ) {
	#define X(n) case CT_##n: return #n;
	VF_TYPES(X)
	#undef X
	default: return "?"; } }
static CodeType ty_of(std::string const& s) {
	#define X(n) if ( s == #n ) return CT_##n;
	VF_TYPES(X)
	#undef X
	fprintf(stderr, "type %s?\n", s.c_str()); exit(66); }
static char const* op_name(Operator o) { switch ( o ) {
	#define X(n) case Op_##n: return #n;
	VF_OPS(X)
	#undef X
	default: return "?"; } }
static Operator op_of(std::string const& s) {
	#define X(n) if ( s == #n ) return Op_##n;
	VF_OPS(X)
	#undef X
	fprintf(stderr, "operator %s?\n", s.c_str()); exit(66); }
static char const* sp_name(Specifier s) { switch ( s ) {
	#define X(n) case Spec_##n: return #n;
	VF_SPECS(X)
	#undef X
	default: return "?"; } }
static Specifier sp_of(std::string const& s) {
	#define X(n) if ( s == #n ) return Spec_##n;
	VF_SPECS(X)
	#undef X
	fprintf(stderr, "specifier %s?\n", s.c_str()); exit(66); }
static AST* A(Code c) { return c.ast; }
static bool is_body(AST* a) { return code_is_body(Code{a}); }
static int vf_depth;
static std::set<std::string>* vf_texts; // when set, collects the texts that occur in descriptions
static std::string noted(std::string const& s) { if ( vf_texts ) vf_texts->insert(s); return s; }
// {"t":"none"} for an absent node
static std::string desc(AST* a) {
	if ( ! a ) return "{\"t\":\"none\"}";
	if ( vf_depth > 60 ) return "{\"t\":\"deep\"}";
	++vf_depth; J j; std::string t = ty_name(a->Type);
	j.s("t", t).s("n", noted(str(a->Name))).i("f", (u32) a->ModuleFlags);
	switch ( a->Type ) {
		case CT_Untyped: case CT_Execution: case CT_Comment: case CT_PlatformAttributes: case CT_Access_Private: case CT_Access_Protected: case CT_Access_Public: case CT_NewLine: case CT_Invalid:
		case CT_Preprocess_Include: case CT_Preprocess_If: case CT_Preprocess_IfDef: case CT_Preprocess_IfNotDef: case CT_Preprocess_ElIf: case CT_Preprocess_Else: case CT_Preprocess_EndIf: case CT_Preprocess_Pragma:
			j.s("k", noted(str(a->Content))); break;
		case CT_Specifiers: { JA w; for ( s32 i = 0; i < a->NumEntries && i < AST_ArrSpecs_Cap; ++i ) w.s( sp_name(a->ArrSpecs[i]) ); j.i("num", a->NumEntries).raw("w", w.done()); break; }
		case CT_Parameters: case CT_Parameters_Define: {
			JA p; AST* q = a; int left = a->NumEntries > 1 ? 1000 : 1; // an entry of a list has the rest of that list after it
			while ( q && left-- ) { J e; e.s("n", noted(str(q->Name))).raw("v", desc(A(q->ValueType))).raw("p", desc(A(q->Macro))).raw("b", desc(A(q->Value))).raw("x", desc(A(q->PostNameMacro))); p.raw(e.done()); q = A(q->Next); }
			j.i("num", a->NumEntries).raw("l", p.done()); break; }
		default:
			if ( is_body(a) ) {
				JA p; AST* q = A(a->Front); AST* last = nullptr; s32 n = 0; bool links = true;
				for ( ; q && n < a->NumEntries; q = A(q->Next), ++n ) { p.raw(desc(q)); last = q; }
				j.i("num", a->NumEntries).raw("l", p.done()).bo("ends", A(a->Back) == last);
				break;
			}
			std::string u;
			switch ( a->Type ) {
				case CT_Operator: case CT_Operator_Fwd: case CT_Operator_Member: case CT_Operator_Member_Fwd: u = op_name(a->Op); break;
				case CT_Class: case CT_Class_Fwd: case CT_Struct: case CT_Struct_Fwd: { char const* n[] = { "default", "private", "protected", "public" }; u = a->ParentAccess <= AccessSpec_Public ? n[a->ParentAccess] : "?"; break; }
				case CT_Typename: { char const* n[] = { "", "class", "enum", "struct", "union" }; u = a->TypeTag <= Tag_Union ? n[a->TypeTag] : "?"; if ( a->IsParamPack ) u += "..."; break; }
				default: u = std::to_string(a->NumEntries);
			}
			if ( vf_texts && a->Type == CT_Extern_Linkage ) noted("\"" + str(a->Name) + "\"");
			JA in; if ( a->Type == CT_Typename && a->ArrExpr ) { int left = 50; for ( AST* q = A(a->ArrExpr->Next); q && left--; q = A(q->Next) ) in.raw(desc(q)); }
			if ( a->Type == CT_Class || a->Type == CT_Class_Fwd || a->Type == CT_Struct || a->Type == CT_Struct_Fwd ) if ( a->ParentType ) { int left = 50; for ( AST* q = A(a->ParentType->Next); q && left--; q = A(q->Next) ) in.raw(desc(q)); }
			j.s("u", u).raw("c", desc(A(a->InlineCmt))).raw("a", desc(A(a->Attributes))).raw("s", desc(A(a->Specs))).raw("v", desc(A(a->ValueType))).raw("p", desc(A(a->Params))).raw("b", desc(A(a->Body))).raw("x", desc(A(a->NextVar))).raw("i", in.done());
	}
	--vf_depth; return j.done();
}
static std::string desc(Code c) { return desc(A(c)); }
