------------------------------- MODULE Enums -------------------------------
(* The enumerations of the library and the texts of their enumerators, in order. The tables here are what C++ and the library's
   documentation say; the repository's own tables (base/enums) may add to them, but not contradict them. *)
EXTENDS Integers, Sequences, TLC
Ops_ == <<
  <<"Invalid", "INVALID">>, <<"Assign", "=">>, <<"Assign_Add", "+=">>, <<"Assign_Subtract", "-=">>, <<"Assign_Multiply", "*=">>, <<"Assign_Divide", "/=">>,
  <<"Assign_Modulo", "%=">>, <<"Assign_BAnd", "&=">>, <<"Assign_BOr", "|=">>, <<"Assign_BXOr", "^=">>, <<"Assign_LShift", "<<=">>, <<"Assign_RShift", ">>=">>,
  <<"Increment", "++">>, <<"Decrement", "--">>, <<"Unary_Plus", "+">>, <<"Unary_Minus", "-">>, <<"UnaryNot", "!">>, <<"Add", "+">>, <<"Subtract", "-">>,
  <<"Multiply", "*">>, <<"Divide", "/">>, <<"Modulo", "%">>, <<"BNot", "~">>, <<"BAnd", "&">>, <<"BOr", "|">>, <<"BXOr", "^">>, <<"LShift", "<<">>, <<"RShift", ">>">>,
  <<"LAnd", "&&">>, <<"LOr", "||">>, <<"LEqual", "==">>, <<"LNot", "!=">>, <<"Lesser", "<">>, <<"Greater", ">">>, <<"LesserEqual", "<=">>, <<"GreaterEqual", ">=">>,
  <<"Subscript", "[]">>, <<"Indirection", "*">>, <<"AddressOf", "&">>, <<"MemberOfPointer", "->">>, <<"PtrToMemOfPtr", "->*">>, <<"FunctionCall", "()">>,
  <<"Comma", ",">>, <<"New", "new">>, <<"NewArray", "new[]">>, <<"Delete", "delete">>, <<"DeleteArray", "delete[]">>>>
Specs_ == <<
  <<"Invalid", "INVALID">>, <<"Consteval", "consteval">>, <<"Constexpr", "constexpr">>, <<"Constinit", "constinit">>, <<"Explicit", "explicit">>,
  <<"External_Linkage", "extern">>, <<"ForceInline", "forceinline">>, <<"Global", "global">>, <<"Inline", "inline">>, <<"Internal_Linkage", "internal">>,
  <<"Local_Persist", "local_persist">>, <<"Mutable", "mutable">>, <<"NeverInline", "neverinline">>, <<"Ptr", "*">>, <<"Ref", "&">>, <<"Register", "register">>,
  <<"Restrict", "restrict">>, <<"RValue", "&&">>, <<"Static", "static">>, <<"Thread_Local", "thread_local">>, <<"Virtual", "virtual">>, <<"Const", "const">>,
  <<"Final", "final">>, <<"NoExceptions", "noexcept">>, <<"Override", "override">>, <<"Pure", "= 0">>, <<"Delete", "= delete">>, <<"Volatile", "volatile">>>>
Toks_ == <<
  <<"Invalid", "__invalid__">>, <<"Access_Private", "private">>, <<"Access_Protected", "protected">>, <<"Access_Public", "public">>, <<"Access_MemberSymbol", ".">>,
  <<"Access_StaticSymbol", "::">>, <<"Ampersand", "&">>, <<"Ampersand_DBL", "&&">>, <<"Assign_Classifer", ":">>, <<"Attribute_Open", "[[">>, <<"Attribute_Close", "]]">>,
  <<"BraceCurly_Open", "{">>, <<"BraceCurly_Close", "}">>, <<"BraceSquare_Open", "[">>, <<"BraceSquare_Close", "]">>, <<"Paren_Open", "(">>, <<"Paren_Close", ")">>,
  <<"Comment", "__comment__">>, <<"Comment_End", "__comment_end__">>, <<"Comment_Start", "__comment_start__">>, <<"Char", "__character__">>, <<"Comma", ",">>,
  <<"Decl_Class", "class">>, <<"Decl_GNU_Attribute", "__attribute__">>, <<"Decl_MSVC_Attribute", "__declspec">>, <<"Decl_Enum", "enum">>,
  <<"Decl_Extern_Linkage", "extern">>, <<"Decl_Friend", "friend">>, <<"Decl_Module", "module">>, <<"Decl_Namespace", "namespace">>, <<"Decl_Operator", "operator">>,
  <<"Decl_Struct", "struct">>, <<"Decl_Template", "template">>, <<"Decl_Typedef", "typedef">>, <<"Decl_Using", "using">>, <<"Decl_Union", "union">>,
  <<"Identifier", "__identifier__">>, <<"Module_Import", "import">>, <<"Module_Export", "export">>, <<"NewLine", "__new_line__">>, <<"Number", "__number__">>,
  <<"Operator", "__operator__">>, <<"Preprocess_Hash", "#">>, <<"Preprocess_Define", "define">>, <<"Preprocess_Define_Param", "__define_param__">>,
  <<"Preprocess_If", "if">>, <<"Preprocess_IfDef", "ifdef">>, <<"Preprocess_IfNotDef", "ifndef">>, <<"Preprocess_ElIf", "elif">>, <<"Preprocess_Else", "else">>,
  <<"Preprocess_EndIf", "endif">>, <<"Preprocess_Include", "include">>, <<"Preprocess_Pragma", "pragma">>, <<"Preprocess_Content", "__macro_content__">>,
  <<"Preprocess_Macro_Expr", "__macro_expression__">>, <<"Preprocess_Macro_Stmt", "__macro_statment__">>, <<"Preprocess_Macro_Typename", "__macro_typename__">>,
  <<"Preprocess_Unsupported", "__unsupported__">>, <<"Spec_Alignas", "alignas">>, <<"Spec_Const", "const">>, <<"Spec_Consteval", "consteval">>,
  <<"Spec_Constexpr", "constexpr">>, <<"Spec_Constinit", "constinit">>, <<"Spec_Explicit", "explicit">>, <<"Spec_Extern", "extern">>, <<"Spec_Final", "final">>,
  <<"Spec_ForceInline", "forceinline">>, <<"Spec_Global", "global">>, <<"Spec_Inline", "inline">>, <<"Spec_Internal_Linkage", "internal">>,
  <<"Spec_LocalPersist", "local_persist">>, <<"Spec_Mutable", "mutable">>, <<"Spec_NeverInline", "neverinline">>, <<"Spec_NoExceptions", "noexcept">>,
  <<"Spec_Override", "override">>, <<"Spec_Restrict", "restrict">>, <<"Spec_Static", "static">>, <<"Spec_ThreadLocal", "thread_local">>, <<"Spec_Volatile", "volatile">>,
  <<"Spec_Virtual", "virtual">>, <<"Star", "*">>, <<"Statement_End", ";">>, <<"StaticAssert", "static_assert">>, <<"String", "__string__">>,
  <<"Type_Typename", "typename">>, <<"Type_Unsigned", "unsigned">>, <<"Type_Signed", "signed">>, <<"Type_Short", "short">>, <<"Type_Long", "long">>,
  <<"Type_bool", "bool">>, <<"Type_char", "char">>, <<"Type_int", "int">>, <<"Type_double", "double">>, <<"Type_MS_int8", "__int8">>, <<"Type_MS_int16", "__int16">>,
  <<"Type_MS_int32", "__int32">>, <<"Type_MS_int64", "__int64">>, <<"Type_MS_W64", "_W64">>, <<"Varadic_Argument", "...">>, <<"__Attributes_Start", "__attrib_start__">>,
  <<"Attribute_GEN_API", "GEN_API">>>>
Codes_ == <<
  <<"Invalid", "__NA__">>, <<"Untyped", "__NA__">>, <<"NewLine", "__NA__">>, <<"Comment", "//">>, <<"Access_Private", "private">>, <<"Access_Protected", "protected">>,
  <<"Access_Public", "public">>, <<"PlatformAttributes", "__NA__">>, <<"Class", "class">>, <<"Class_Fwd", "class">>, <<"Class_Body", "__NA__">>,
  <<"Constructor", "__NA__">>, <<"Constructor_Fwd", "__NA__">>, <<"Destructor", "__NA__">>, <<"Destructor_Fwd", "__NA__">>, <<"Enum", "enum">>, <<"Enum_Fwd", "enum">>,
  <<"Enum_Body", "__NA__">>, <<"Enum_Class", "enum class">>, <<"Enum_Class_Fwd", "enum class">>, <<"Execution", "__NA__">>, <<"Export_Body", "__NA__">>,
  <<"Extern_Linkage", "extern">>, <<"Extern_Linkage_Body", "extern">>, <<"Friend", "friend">>, <<"Function", "__NA__">>, <<"Function_Fwd", "__NA__">>,
  <<"Function_Body", "__NA__">>, <<"Global_Body", "__NA__">>, <<"Module", "module">>, <<"Namespace", "namespace">>, <<"Namespace_Body", "__NA__">>,
  <<"Operator", "operator">>, <<"Operator_Fwd", "operator">>, <<"Operator_Member", "operator">>, <<"Operator_Member_Fwd", "operator">>, <<"Operator_Cast", "operator">>,
  <<"Operator_Cast_Fwd", "operator">>, <<"Parameters", "__NA__">>, <<"Parameters_Define", "__NA__">>, <<"Preprocess_Define", "define">>,
  <<"Preprocess_Include", "include">>, <<"Preprocess_If", "if">>, <<"Preprocess_IfDef", "ifdef">>, <<"Preprocess_IfNotDef", "ifndef">>, <<"Preprocess_ElIf", "elif">>,
  <<"Preprocess_Else", "else">>, <<"Preprocess_EndIf", "endif">>, <<"Preprocess_Pragma", "pragma">>, <<"Specifiers", "__NA__">>, <<"Struct", "struct">>,
  <<"Struct_Fwd", "struct">>, <<"Struct_Body", "__NA__">>, <<"Template", "template">>, <<"Typedef", "typedef">>, <<"Typename", "__NA__">>, <<"Union", "union">>,
  <<"Union_Fwd", "union">>, <<"Union_Body", "__NA__">>, <<"Using", "using">>, <<"Using_Namespace", "using namespace">>, <<"Variable", "__NA__">>>>
\* the enumerator only, and its text, in the library's order
Access == <<<<"Default", "">>, <<"Private", "private">>, <<"Protected", "protected">>, <<"Public", "public">>>>
Macro == <<<<"Expression", "Expression">>, <<"Statement", "Statement">>, <<"Typename", "Typename">>, <<"Block_Start", "Block_Start">>, <<"Block_End", "Block_End">>, <<"Case_Statement", "Case_Statement">>>>
Module == <<<<"None", "__none__">>, <<"Export", "export">>, <<"Import", "import">>>>
Own == [op |-> Ops_, spec |-> Specs_, tok |-> Toks_, code |-> Codes_, access |-> Access, macro |-> Macro, module |-> Module]
Kinds == DOMAIN Own
Unknown == [access |-> "Invalid", macro |-> "Invalid", module |-> "invalid"]  \* the text of a value that is no enumerator
\* the names of nodes are their texts; keywords are a second text
Text(kind, row) == IF kind = "code" THEN row[1] ELSE row[2]
Keyword(row) == row[2]
RECURSIVE First(_, _, _)
First(rows, text, k) == IF k > Len(rows) THEN "Invalid" ELSE IF rows[k][2] = text THEN rows[k][1] ELSE First(rows, text, k + 1)
From(rows, text) == First(rows, text, 1)
Names(rows) == {rows[k][1] : k \in 1..Len(rows)}
TextOf(rows, n) == LET k == CHOOSE k \in 1..Len(rows) : rows[k][1] = n IN rows[k][2]
\* a table that has at least what there must be, once each
Sound(kind, rows) == /\ \A k \in 1..Len(Own[kind]) : Own[kind][k][1] \in Names(rows) /\ TextOf(rows, Own[kind][k][1]) = Own[kind][k][2]
                     /\ \A j, k \in 1..Len(rows) : rows[j][1] = rows[k][1] => j = k
                     /\ rows[1] = Own[kind][1]
Trailing == {"Const", "Final", "NoExceptions", "Override", "Pure", "Delete", "Volatile"}
Invert(rows) == \A k \in 1..Len(rows) : From(rows, rows[k][2]) = rows[k][1]
\* one word with two meanings
Shared == {"extern"}
=============================================================================
