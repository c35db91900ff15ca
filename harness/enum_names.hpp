// The enumerators of the library by name.
#define VF_ENUMS \
	X(op, Invalid, Op_Invalid) \
	X(op, Assign, Op_Assign) \
	X(op, Assign_Add, Op_Assign_Add) \
	X(op, Assign_Subtract, Op_Assign_Subtract) \
	X(op, Assign_Multiply, Op_Assign_Multiply) \
	X(op, Assign_Divide, Op_Assign_Divide) \
	X(op, Assign_Modulo, Op_Assign_Modulo) \
	X(op, Assign_BAnd, Op_Assign_BAnd) \
	X(op, Assign_BOr, Op_Assign_BOr) \
	X(op, Assign_BXOr, Op_Assign_BXOr) \
	X(op, Assign_LShift, Op_Assign_LShift) \
	X(op, Assign_RShift, Op_Assign_RShift) \
	X(op, Increment, Op_Increment) \
	X(op, Decrement, Op_Decrement) \
	X(op, Unary_Plus, Op_Unary_Plus) \
	X(op, Unary_Minus, Op_Unary_Minus) \
	X(op, UnaryNot, Op_UnaryNot) \
	X(op, Add, Op_Add) \
	X(op, Subtract, Op_Subtract) \
	X(op, Multiply, Op_Multiply) \
	X(op, Divide, Op_Divide) \
	X(op, Modulo, Op_Modulo) \
	X(op, BNot, Op_BNot) \
	X(op, BAnd, Op_BAnd) \
	X(op, BOr, Op_BOr) \
	X(op, BXOr, Op_BXOr) \
	X(op, LShift, Op_LShift) \
	X(op, RShift, Op_RShift) \
	X(op, LAnd, Op_LAnd) \
	X(op, LOr, Op_LOr) \
	X(op, LEqual, Op_LEqual) \
	X(op, LNot, Op_LNot) \
	X(op, Lesser, Op_Lesser) \
	X(op, Greater, Op_Greater) \
	X(op, LesserEqual, Op_LesserEqual) \
	X(op, GreaterEqual, Op_GreaterEqual) \
	X(op, Subscript, Op_Subscript) \
	X(op, Indirection, Op_Indirection) \
	X(op, AddressOf, Op_AddressOf) \
	X(op, MemberOfPointer, Op_MemberOfPointer) \
	X(op, PtrToMemOfPtr, Op_PtrToMemOfPtr) \
	X(op, FunctionCall, Op_FunctionCall) \
	X(op, Comma, Op_Comma) \
	X(op, New, Op_New) \
	X(op, NewArray, Op_NewArray) \
	X(op, Delete, Op_Delete) \
	X(op, DeleteArray, Op_DeleteArray) \
	X(spec, Invalid, Spec_Invalid) \
	X(spec, Consteval, Spec_Consteval) \
	X(spec, Constexpr, Spec_Constexpr) \
	X(spec, Constinit, Spec_Constinit) \
	X(spec, Explicit, Spec_Explicit) \
	X(spec, External_Linkage, Spec_External_Linkage) \
	X(spec, ForceInline, Spec_ForceInline) \
	X(spec, Global, Spec_Global) \
	X(spec, Inline, Spec_Inline) \
	X(spec, Internal_Linkage, Spec_Internal_Linkage) \
	X(spec, Local_Persist, Spec_Local_Persist) \
	X(spec, Mutable, Spec_Mutable) \
	X(spec, NeverInline, Spec_NeverInline) \
	X(spec, Ptr, Spec_Ptr) \
	X(spec, Ref, Spec_Ref) \
	X(spec, Register, Spec_Register) \
	X(spec, Restrict, Spec_Restrict) \
	X(spec, RValue, Spec_RValue) \
	X(spec, Static, Spec_Static) \
	X(spec, Thread_Local, Spec_Thread_Local) \
	X(spec, Virtual, Spec_Virtual) \
	X(spec, Const, Spec_Const) \
	X(spec, Final, Spec_Final) \
	X(spec, NoExceptions, Spec_NoExceptions) \
	X(spec, Override, Spec_Override) \
	X(spec, Pure, Spec_Pure) \
	X(spec, Delete, Spec_Delete) \
	X(spec, Volatile, Spec_Volatile) \
	X(tok, Invalid, Tok_Invalid) \
	X(tok, Access_Private, Tok_Access_Private) \
	X(tok, Access_Protected, Tok_Access_Protected) \
	X(tok, Access_Public, Tok_Access_Public) \
	X(tok, Access_MemberSymbol, Tok_Access_MemberSymbol) \
	X(tok, Access_StaticSymbol, Tok_Access_StaticSymbol) \
	X(tok, Ampersand, Tok_Ampersand) \
	X(tok, Ampersand_DBL, Tok_Ampersand_DBL) \
	X(tok, Assign_Classifer, Tok_Assign_Classifer) \
	X(tok, Attribute_Open, Tok_Attribute_Open) \
	X(tok, Attribute_Close, Tok_Attribute_Close) \
	X(tok, BraceCurly_Open, Tok_BraceCurly_Open) \
	X(tok, BraceCurly_Close, Tok_BraceCurly_Close) \
	X(tok, BraceSquare_Open, Tok_BraceSquare_Open) \
	X(tok, BraceSquare_Close, Tok_BraceSquare_Close) \
	X(tok, Paren_Open, Tok_Paren_Open) \
	X(tok, Paren_Close, Tok_Paren_Close) \
	X(tok, Comment, Tok_Comment) \
	X(tok, Comment_End, Tok_Comment_End) \
	X(tok, Comment_Start, Tok_Comment_Start) \
	X(tok, Char, Tok_Char) \
	X(tok, Comma, Tok_Comma) \
	X(tok, Decl_Class, Tok_Decl_Class) \
	X(tok, Decl_GNU_Attribute, Tok_Decl_GNU_Attribute) \
	X(tok, Decl_MSVC_Attribute, Tok_Decl_MSVC_Attribute) \
	X(tok, Decl_Enum, Tok_Decl_Enum) \
	X(tok, Decl_Extern_Linkage, Tok_Decl_Extern_Linkage) \
	X(tok, Decl_Friend, Tok_Decl_Friend) \
	X(tok, Decl_Module, Tok_Decl_Module) \
	X(tok, Decl_Namespace, Tok_Decl_Namespace) \
	X(tok, Decl_Operator, Tok_Decl_Operator) \
	X(tok, Decl_Struct, Tok_Decl_Struct) \
	X(tok, Decl_Template, Tok_Decl_Template) \
	X(tok, Decl_Typedef, Tok_Decl_Typedef) \
	X(tok, Decl_Using, Tok_Decl_Using) \
	X(tok, Decl_Union, Tok_Decl_Union) \
	X(tok, Identifier, Tok_Identifier) \
	X(tok, Module_Import, Tok_Module_Import) \
	X(tok, Module_Export, Tok_Module_Export) \
	X(tok, NewLine, Tok_NewLine) \
	X(tok, Number, Tok_Number) \
	X(tok, Operator, Tok_Operator) \
	X(tok, Preprocess_Hash, Tok_Preprocess_Hash) \
	X(tok, Preprocess_Define, Tok_Preprocess_Define) \
	X(tok, Preprocess_Define_Param, Tok_Preprocess_Define_Param) \
	X(tok, Preprocess_If, Tok_Preprocess_If) \
	X(tok, Preprocess_IfDef, Tok_Preprocess_IfDef) \
	X(tok, Preprocess_IfNotDef, Tok_Preprocess_IfNotDef) \
	X(tok, Preprocess_ElIf, Tok_Preprocess_ElIf) \
	X(tok, Preprocess_Else, Tok_Preprocess_Else) \
	X(tok, Preprocess_EndIf, Tok_Preprocess_EndIf) \
	X(tok, Preprocess_Include, Tok_Preprocess_Include) \
	X(tok, Preprocess_Pragma, Tok_Preprocess_Pragma) \
	X(tok, Preprocess_Content, Tok_Preprocess_Content) \
	X(tok, Preprocess_Macro_Expr, Tok_Preprocess_Macro_Expr) \
	X(tok, Preprocess_Macro_Stmt, Tok_Preprocess_Macro_Stmt) \
	X(tok, Preprocess_Macro_Typename, Tok_Preprocess_Macro_Typename) \
	X(tok, Preprocess_Unsupported, Tok_Preprocess_Unsupported) \
	X(tok, Spec_Alignas, Tok_Spec_Alignas) \
	X(tok, Spec_Const, Tok_Spec_Const) \
	X(tok, Spec_Consteval, Tok_Spec_Consteval) \
	X(tok, Spec_Constexpr, Tok_Spec_Constexpr) \
	X(tok, Spec_Constinit, Tok_Spec_Constinit) \
	X(tok, Spec_Explicit, Tok_Spec_Explicit) \
	X(tok, Spec_Extern, Tok_Spec_Extern) \
	X(tok, Spec_Final, Tok_Spec_Final) \
	X(tok, Spec_ForceInline, Tok_Spec_ForceInline) \
	X(tok, Spec_Global, Tok_Spec_Global) \
	X(tok, Spec_Inline, Tok_Spec_Inline) \
	X(tok, Spec_Internal_Linkage, Tok_Spec_Internal_Linkage) \
	X(tok, Spec_LocalPersist, Tok_Spec_LocalPersist) \
	X(tok, Spec_Mutable, Tok_Spec_Mutable) \
	X(tok, Spec_NeverInline, Tok_Spec_NeverInline) \
	X(tok, Spec_NoExceptions, Tok_Spec_NoExceptions) \
	X(tok, Spec_Override, Tok_Spec_Override) \
	X(tok, Spec_Restrict, Tok_Spec_Restrict) \
	X(tok, Spec_Static, Tok_Spec_Static) \
	X(tok, Spec_ThreadLocal, Tok_Spec_ThreadLocal) \
	X(tok, Spec_Volatile, Tok_Spec_Volatile) \
	X(tok, Spec_Virtual, Tok_Spec_Virtual) \
	X(tok, Star, Tok_Star) \
	X(tok, Statement_End, Tok_Statement_End) \
	X(tok, StaticAssert, Tok_StaticAssert) \
	X(tok, String, Tok_String) \
	X(tok, Type_Typename, Tok_Type_Typename) \
	X(tok, Type_Unsigned, Tok_Type_Unsigned) \
	X(tok, Type_Signed, Tok_Type_Signed) \
	X(tok, Type_Short, Tok_Type_Short) \
	X(tok, Type_Long, Tok_Type_Long) \
	X(tok, Type_bool, Tok_Type_bool) \
	X(tok, Type_char, Tok_Type_char) \
	X(tok, Type_int, Tok_Type_int) \
	X(tok, Type_double, Tok_Type_double) \
	X(tok, Type_MS_int8, Tok_Type_MS_int8) \
	X(tok, Type_MS_int16, Tok_Type_MS_int16) \
	X(tok, Type_MS_int32, Tok_Type_MS_int32) \
	X(tok, Type_MS_int64, Tok_Type_MS_int64) \
	X(tok, Type_MS_W64, Tok_Type_MS_W64) \
	X(tok, Varadic_Argument, Tok_Varadic_Argument) \
	X(tok, __Attributes_Start, Tok___Attributes_Start) \
	X(tok, Attribute_GEN_API, Tok_Attribute_GEN_API) \
	X(code, Invalid, CT_Invalid) \
	X(code, Untyped, CT_Untyped) \
	X(code, NewLine, CT_NewLine) \
	X(code, Comment, CT_Comment) \
	X(code, Access_Private, CT_Access_Private) \
	X(code, Access_Protected, CT_Access_Protected) \
	X(code, Access_Public, CT_Access_Public) \
	X(code, PlatformAttributes, CT_PlatformAttributes) \
	X(code, Class, CT_Class) \
	X(code, Class_Fwd, CT_Class_Fwd) \
	X(code, Class_Body, CT_Class_Body) \
	X(code, Constructor, CT_Constructor) \
	X(code, Constructor_Fwd, CT_Constructor_Fwd) \
	X(code, Destructor, CT_Destructor) \
	X(code, Destructor_Fwd, CT_Destructor_Fwd) \
	X(code, Enum, CT_Enum) \
	X(code, Enum_Fwd, CT_Enum_Fwd) \
	X(code, Enum_Body, CT_Enum_Body) \
	X(code, Enum_Class, CT_Enum_Class) \
	X(code, Enum_Class_Fwd, CT_Enum_Class_Fwd) \
	X(code, Execution, CT_Execution) \
	X(code, Export_Body, CT_Export_Body) \
	X(code, Extern_Linkage, CT_Extern_Linkage) \
	X(code, Extern_Linkage_Body, CT_Extern_Linkage_Body) \
	X(code, Friend, CT_Friend) \
	X(code, Function, CT_Function) \
	X(code, Function_Fwd, CT_Function_Fwd) \
	X(code, Function_Body, CT_Function_Body) \
	X(code, Global_Body, CT_Global_Body) \
	X(code, Module, CT_Module) \
	X(code, Namespace, CT_Namespace) \
	X(code, Namespace_Body, CT_Namespace_Body) \
	X(code, Operator, CT_Operator) \
	X(code, Operator_Fwd, CT_Operator_Fwd) \
	X(code, Operator_Member, CT_Operator_Member) \
	X(code, Operator_Member_Fwd, CT_Operator_Member_Fwd) \
	X(code, Operator_Cast, CT_Operator_Cast) \
	X(code, Operator_Cast_Fwd, CT_Operator_Cast_Fwd) \
	X(code, Parameters, CT_Parameters) \
	X(code, Parameters_Define, CT_Parameters_Define) \
	X(code, Preprocess_Define, CT_Preprocess_Define) \
	X(code, Preprocess_Include, CT_Preprocess_Include) \
	X(code, Preprocess_If, CT_Preprocess_If) \
	X(code, Preprocess_IfDef, CT_Preprocess_IfDef) \
	X(code, Preprocess_IfNotDef, CT_Preprocess_IfNotDef) \
	X(code, Preprocess_ElIf, CT_Preprocess_ElIf) \
	X(code, Preprocess_Else, CT_Preprocess_Else) \
	X(code, Preprocess_EndIf, CT_Preprocess_EndIf) \
	X(code, Preprocess_Pragma, CT_Preprocess_Pragma) \
	X(code, Specifiers, CT_Specifiers) \
	X(code, Struct, CT_Struct) \
	X(code, Struct_Fwd, CT_Struct_Fwd) \
	X(code, Struct_Body, CT_Struct_Body) \
	X(code, Template, CT_Template) \
	X(code, Typedef, CT_Typedef) \
	X(code, Typename, CT_Typename) \
	X(code, Union, CT_Union) \
	X(code, Union_Fwd, CT_Union_Fwd) \
	X(code, Union_Body, CT_Union_Body) \
	X(code, Using, CT_Using) \
	X(code, Using_Namespace, CT_Using_Namespace) \
	X(code, Variable, CT_Variable) \
	X(access, Default, AccessSpec_Default) \
	X(access, Private, AccessSpec_Private) \
	X(access, Protected, AccessSpec_Protected) \
	X(access, Public, AccessSpec_Public) \
	X(macro, Expression, MT_Expression) \
	X(macro, Statement, MT_Statement) \
	X(macro, Typename, MT_Typename) \
	X(macro, Block_Start, MT_Block_Start) \
	X(macro, Block_End, MT_Block_End) \
	X(macro, Case_Statement, MT_Case_Statement) \
	X(module, None, ModuleFlag_None) \
	X(module, Export, ModuleFlag_Export) \
	X(module, Import, ModuleFlag_Import) \

