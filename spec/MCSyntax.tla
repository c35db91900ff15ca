------------------------------ MODULE MCSyntax ------------------------------
(* Declarations of every kind, small, systematically: every state is one of them and prints what it is and how it is written. What is
   written tells what is meant: no two of them that mean something else are written alike. *)
EXTENDS Syntax, FiniteSets, SequencesExt, TLC, Json
None == [t |-> "none"]
Node(t, n) == [t |-> t, n |-> n, f |-> 0, u |-> "0", c |-> None, a |-> None, s |-> None, v |-> None, p |-> None, b |-> None, x |-> None, i |-> <<>>]
Text(t, k) == [t |-> t, n |-> k, f |-> 0, k |-> k]
Un(k) == Text("Untyped", k)
Sp(w) == IF w = <<>> THEN None ELSE [t |-> "Specifiers", n |-> "", f |-> 0, num |-> Len(w), w |-> w]
Ty(n, w) == [Node("Typename", n) EXCEPT !.u = "", !.s = Sp(w)]
Entry(n, v, b) == [n |-> n, v |-> v, p |-> None, b |-> b, x |-> None]
Params(l) == IF l = <<>> THEN None ELSE [t |-> "Parameters", n |-> l[1].n, f |-> 0, num |-> Len(l), l |-> l]
Body(t, l) == [t |-> t, n |-> "", f |-> 0, num |-> Len(l), l |-> l, ends |-> TRUE]
Fn(q) == Body("Function_Body", IF q = "" THEN <<>> ELSE <<Text("Execution", q)>>)

\* the lexemes of the texts used here
Lexemes == [ x \in {"int", "Foo", "T", "f", "g", "a", "b", "C", "D", "N", "u8", "typename", "class", "void", "bool", "size_t", "1", "2", "n"} |-> <<x>> ]
  @@ ("N::Foo" :> <<"N", "::", "Foo">>) @@ ("Vec<int>" :> <<"Vec", "<", "int", ">">>) @@ ("return 1;" :> <<"return", "1", ";">>) @@ ("a( 1 )" :> <<"a", "(", "1", ")">>)
  @@ ("a + 1" :> <<"a", "+", "1">>) @@ ("unsigned int" :> <<"unsigned", "int">>) @@ ("[[nodiscard]]" :> <<"[", "[", "nodiscard", "]", "]">>) @@ ("default" :> <<"default">>) @@ ("delete" :> <<"delete">>)
  @@ ("a," :> <<"a", ",">>) @@ ("b" :> <<"b">>) @@ ("b = 1" :> <<"b", "=", "1">>) @@ ("\"C\"" :> <<"\"C\"">>) @@ ("{ 1, 2 }" :> <<"{", "1", ",", "2", "}">>)
OpLex(o) ==
  CASE o = "Subscript" -> <<"operator", "[", "]">> [] o = "FunctionCall" -> <<"operator", "(", ")">> [] o = "NewArray" -> <<"operator", "new", "[", "]">> [] o = "DeleteArray" -> <<"operator", "delete", "[", "]">>
    [] o = "Assign_RShift" -> <<"operator", ">", ">", "=">> [] o = "RShift" -> <<"operator", ">", ">">> [] o = "GreaterEqual" -> <<"operator", ">", "=">> [] OTHER -> <<"operator", Symbol(o)>>
Lx0 == Lexemes @@ [ n \in {"operator " \o Symbol(o) : o \in Ops} |-> OpLex(CHOOSE o \in Ops : "operator " \o Symbol(o) = n) ]

Att == {None, Text("PlatformAttributes", "[[nodiscard]]")}
TySpecs == {<<>>, <<"Const">>, <<"Ptr">>, <<"Const", "Ptr">>, <<"Ref">>, <<"Const", "Ref">>, <<"Ptr", "Ptr">>, <<"RValue">>, <<"Ptr", "Const">>, <<"Ptr", "Restrict">>, <<"Const", "Ptr", "Const", "Ref">>}
Types == {Ty(n, <<>>) : n \in {"int", "Foo", "N::Foo", "Vec<int>", "unsigned int"}} \union {Ty(n, w) : n \in {"int", "N::Foo"}, w \in TySpecs}
FewTypes == {Ty("int", <<>>), Ty("N::Foo", <<"Const", "Ref">>), Ty("T", <<"Ptr">>)}
P0 == {<<>>, <<Entry("a", Ty("int", <<>>), None)>>, <<Entry("", Ty("T", <<"Ptr">>), None)>>, <<Entry("a", Ty("Foo", <<"Const", "Ref">>), None), Entry("b", Ty("int", <<>>), Un("1"))>>,
       <<Entry("a", Ty("int", <<>>), None), Entry("b", Ty("int", <<>>), None), Entry("n", Ty("Vec<int>", <<>>), None)>>}
Pars == {Params(l) : l \in P0}
\* specifiers before and after
Pre(ctx) == IF ctx = "class" THEN {<<>>, <<"Static">>, <<"Virtual">>, <<"Inline">>, <<"Constexpr">>, <<"Static", "Constexpr">>, <<"Virtual", "Inline">>}
            ELSE {<<>>, <<"Static">>, <<"Inline">>, <<"External_Linkage">>, <<"Internal_Linkage">>, <<"ForceInline">>, <<"NeverInline">>, <<"Constexpr">>, <<"Static", "Inline">>}
Post(ctx, pre, fwd) == IF ctx # "class" \/ "Static" \in Range(pre) THEN {<<>>} \union (IF fwd THEN {<<"Delete">>} ELSE {})
                       ELSE {<<>>, <<"Const">>, <<"NoExceptions">>, <<"Volatile">>, <<"Const", "Volatile", "NoExceptions">>} \union (IF fwd THEN {<<"Delete">>} ELSE {})
                            \union (IF "Virtual" \in Range(pre) THEN {<<"Override">>, <<"Const", "Override">>, <<"Final">>} \union (IF fwd THEN {<<"Pure">>, <<"Const", "Pure">>} ELSE {}) ELSE {})
Functions(ctx) ==
  UNION {UNION {{[Node(IF fwd THEN "Function_Fwd" ELSE "Function", "f") EXCEPT !.s = Sp(pre \o post), !.v = v, !.p = p, !.b = IF fwd THEN None ELSE Fn(IF p.t = "none" THEN "" ELSE "return 1;")]
                  : v \in FewTypes, p \in {Params(<<>>), Params(<<Entry("a", Ty("int", <<>>), None)>>)}, post \in Post(ctx, pre, fwd)} : pre \in Pre(ctx)} : fwd \in BOOLEAN}
FunctionsByType == {[Node(t, "f") EXCEPT !.v = v, !.p = p, !.a = a, !.b = IF t = "Function" THEN Fn("return 1;") ELSE None] : t \in {"Function", "Function_Fwd"}, v \in Types, p \in Pars, a \in Att}
\* operators: every one, where it may be
OpPars(o, member) ==
  IF o \in Memory THEN {Params(<<Entry("n", Ty("size_t", <<>>), None)>>)}
  ELSE IF o = "FunctionCall" THEN IF member THEN Pars ELSE {}
  ELSE IF o \in {"Assign", "Subscript"} THEN IF member THEN {Params(<<Entry("a", Ty("Foo", <<"Const", "Ref">>), None)>>)} ELSE {}
  ELSE IF o = "MemberOfPointer" THEN IF member THEN {None} ELSE {}
  ELSE IF o \in Unary \union Steps THEN IF member THEN {None} ELSE {Params(<<Entry("a", Ty("Foo", <<>>), None)>>)}
  ELSE IF member THEN {Params(<<Entry("b", Ty("int", <<>>), None)>>)} ELSE {Params(<<Entry("a", Ty("Foo", <<>>), None), Entry("b", Ty("int", <<>>), None)>>)}
OpRet(o) == IF o = "UnaryNot" THEN Ty("bool", <<>>) ELSE IF o \in Memory THEN Ty("void", <<"Ptr">>) ELSE Ty("Foo", <<>>)
OpType(o, member, fwd) == (IF (member \/ o \in {"Assign", "Subscript", "FunctionCall", "MemberOfPointer"}) /\ o \notin Memory THEN "Operator_Member" ELSE "Operator") \o (IF fwd THEN "_Fwd" ELSE "")
Operators(member) ==
  UNION {UNION {{[Node(OpType(o, member, fwd), "operator " \o Symbol(o)) EXCEPT !.u = o, !.v = OpRet(o), !.p = p, !.s = Sp(s), !.a = a, !.b = IF fwd THEN None ELSE Fn("return 1;")]
                  : p \in OpPars(o, member), s \in (IF o \in Memory THEN {<<>>} ELSE IF member THEN {<<>>, <<"Const">>, <<"Const", "Volatile">>, <<"Inline">>} ELSE {<<>>, <<"Inline">>}), a \in Att} : fwd \in BOOLEAN} : o \in Ops}
Casts == {[Node(t, "") EXCEPT !.v = v, !.s = Sp(s), !.b = IF t = "Operator_Cast" THEN Fn("return 1;") ELSE None] : t \in {"Operator_Cast", "Operator_Cast_Fwd"}, v \in Types, s \in {<<>>, <<"Explicit">>, <<"Const">>, <<"Explicit", "Const">>, <<"Virtual">>}}
Ctors == {[Node("Constructor", "C") EXCEPT !.s = Sp(s), !.p = p, !.v = i, !.b = Fn(q)] : s \in {<<>>, <<"Explicit">>, <<"Inline">>, <<"Explicit", "Constexpr">>}, p \in Pars, i \in {None, Un("a( 1 )")}, q \in {"", "return 1;"}}
  \union {[Node("Constructor_Fwd", "C") EXCEPT !.s = Sp(s), !.p = p, !.b = b] : s \in {<<>>, <<"Explicit">>, <<"Inline">>}, p \in Pars, b \in {None, Un("default"), Un("delete")}}
Dtors == {[Node("Destructor", "") EXCEPT !.s = Sp(s), !.b = Fn(q)] : s \in {<<>>, <<"Virtual">>}, q \in {"", "return 1;"}}
  \union {[Node("Destructor_Fwd", "") EXCEPT !.s = Sp(s), !.b = b] : s \in {<<>>, <<"Virtual">>}, b \in {None, Un("default")}} \union {[Node("Destructor_Fwd", "") EXCEPT !.s = Sp(<<"Virtual", "Pure">>)]}
\* variables
Arrays == {<<>>, <<"2">>, <<"a + 1">>, <<"1", "2">>}
Arr(v, q) == IF q = <<>> THEN v ELSE [v EXCEPT !.b = Un(q[1]), !.i = [k \in 1..Len(q) - 1 |-> Un(q[k + 1])]]
Further == {None, [Node("Variable", "b") EXCEPT !.v = None], [Node("Variable", "b") EXCEPT !.s = Sp(<<"Ptr">>), !.b = Un("1")], [Node("Variable", "b") EXCEPT !.v = Arr(Ty("", <<>>), <<"2">>)],
            [Node("Variable", "b") EXCEPT !.x = [Node("Variable", "n") EXCEPT !.b = Un("a + 1")]]}
Variables(ctx) ==
  {[Node("Variable", "a") EXCEPT !.s = Sp(s), !.v = Arr(v, q), !.b = IF b = None \/ q = <<>> THEN b ELSE Un("{ 1, 2 }"), !.x = x]
    : s \in (IF ctx = "class" THEN {<<>>, <<"Static">>, <<"Mutable">>, <<"Volatile">>, <<"Constinit", "Static">>, <<"Static", "Constexpr">>} ELSE IF ctx = "union" THEN {<<>>}
             ELSE {<<>>, <<"Static">>, <<"External_Linkage">>, <<"Thread_Local">>, <<"Global">>, <<"Constexpr">>, <<"Constinit">>, <<"Static", "Volatile">>, <<"Static", "Constexpr">>}),
      v \in FewTypes, q \in Arrays, b \in (IF ctx = "union" THEN {None} ELSE {None, Un("a + 1")}), x \in Further}
Bits == {[Node("Variable", "a") EXCEPT !.v = v, !.p = Un("2")] : v \in {Ty("int", <<>>), Ty("unsigned int", <<>>), Ty("Foo", <<"Const">>)}}
Enums == {[Node(t, "C") EXCEPT !.v = v, !.a = a, !.b = Body("Enum_Body", l)] : t \in {"Enum", "Enum_Class"}, v \in {None, Ty("u8", <<>>), Ty("unsigned int", <<>>)}, a \in Att,
            l \in {<<>>, <<Un("a")>>, <<Un("a,"), Un("b = 1")>>, <<Un("a,"), Un("b")>>}}
  \union {[Node(t, "C") EXCEPT !.v = Ty("u8", <<>>)] : t \in {"Enum_Fwd", "Enum_Class_Fwd"}}
Unions == {[Node("Union", n) EXCEPT !.a = a, !.b = Body("Union_Body", l)] : n \in {"D", ""}, a \in Att, l \in {<<>>, <<[Node("Variable", "a") EXCEPT !.v = Ty("int", <<>>)]>>, <<[Node("Variable", "a") EXCEPT !.v = Arr(Ty("Foo", <<"Ptr">>), <<"2">>)], [Node("Variable", "b") EXCEPT !.v = Ty("int", <<>>)]>>}}
Friends == {[Node("Friend", "") EXCEPT !.b = b] : b \in {[Node("Class_Fwd", "D") EXCEPT !.u = "default"], [Node("Struct_Fwd", "D") EXCEPT !.u = "default"], Ty("D", <<>>)}
            \union {[Node(t, "f") EXCEPT !.v = v, !.p = p, !.b = IF t = "Function" THEN Fn("return 1;") ELSE None] : t \in {"Function", "Function_Fwd"}, v \in FewTypes, p \in Pars}}
Usings == {[Node("Using", "D") EXCEPT !.v = Arr(v, q), !.a = a] : v \in Types, q \in {<<>>, <<"2">>}, a \in Att}
Typedefs == {[Node("Typedef", "D") EXCEPT !.v = Arr(v, q)] : v \in Types, q \in {<<>>, <<"2">>}}
  \union {[Node("Typedef", "T") EXCEPT !.v = [Node(t, "D") EXCEPT !.u = "default", !.a = a, !.b = Body(t \o "_Body", l)]] : a \in Att, t \in {"Struct", "Class"}, l \in {<<>>, <<[Node("Variable", "a") EXCEPT !.v = Ty("int", <<>>)]>>}}
  \union {[Node("Typedef", "T") EXCEPT !.v = e] : e \in {[Node("Enum", n) EXCEPT !.b = Body("Enum_Body", <<Un("a,"), Un("b = 1")>>)] : n \in {"D", ""}} \union {[Node("Union", n) EXCEPT !.a = a, !.b = Body("Union_Body", <<>>)] : n \in {"D", ""}, a \in Att}}
\* variables whose type is defined with them, in the places that may have them
InPlace == {[Node("Variable", "a") EXCEPT !.v = [Node(t[1], t[2]) EXCEPT !.u = "default", !.b = Body(t[1] \o "_Body", l)]] : t \in {<<"Struct", "D">>, <<"Struct", "">>, <<"Class", "D">>}, l \in {<<>>, <<[Node("Variable", "b") EXCEPT !.v = Ty("int", <<>>)]>>}}
  \union {[Node("Variable", "a") EXCEPT !.v = [Node("Class", "D") EXCEPT !.s = Sp(<<"Final">>), !.u = "public", !.v = Ty("T", <<>>), !.b = Body("Class_Body", <<>>)]]}
  \union {[Node("Variable", "a") EXCEPT !.v = [Node(t, "D") EXCEPT !.v = v, !.b = Body("Enum_Body", <<Un("a,"), Un("b = 1")>>)]] : t \in {"Enum", "Enum_Class"}, v \in {None, Ty("u8", <<>>)}}
  \union {[Node("Variable", "a") EXCEPT !.v = [Node("Union", n) EXCEPT !.b = Body("Union_Body", <<[Node("Variable", "b") EXCEPT !.v = Ty("int", <<>>)]>>)]] : n \in {"D", ""}}
Friendly == {Text("Access_Public", ""), Text("Access_Private", ""), Text("Access_Protected", "")}
Heads(t) == {[Node(t, "C") EXCEPT !.a = a, !.s = Sp(s), !.u = u.u, !.v = u.v, !.i = u.i, !.b = Body(t \o "_Body", <<>>)] : a \in Att, s \in {<<>>, <<"Final">>},
               u \in {[u |-> "default", v |-> None, i |-> <<>>], [u |-> "public", v |-> Ty("D", <<>>), i |-> <<>>], [u |-> "private", v |-> Ty("N::Foo", <<>>), i |-> <<>>], [u |-> "protected", v |-> Ty("D", <<>>), i |-> <<>>],
                      [u |-> "default", v |-> Ty("D", <<>>), i |-> <<>>], [u |-> "public", v |-> Ty("D", <<>>), i |-> <<Ty("T", <<>>)>>], [u |-> "public", v |-> Ty("D", <<>>), i |-> <<Ty("T", <<>>), Ty("N::Foo", <<>>)>>]}}
  \union {[Node(t \o "_Fwd", "C") EXCEPT !.u = "default", !.a = a] : a \in Att}
Within(t, m) == [Node(t, "C") EXCEPT !.u = "default", !.b = Body(t \o "_Body", m)]
Param1 == {Params(<<Entry("T", Ty(k, <<>>), None)>>) : k \in {"typename", "class"}} \union {Params(<<Entry("n", Ty("int", <<>>), None)>>), Params(<<Entry("T", Ty("typename", <<>>), None), Entry("n", Ty("int", <<>>), None)>>)}
Templates == {[Node("Template", "") EXCEPT !.p = p, !.b = b] : p \in Param1, b \in {[Within("Struct", <<>>) EXCEPT !.n = "D"], [Within("Class", <<>>) EXCEPT !.n = "D", !.s = Sp(<<"Final">>)],
                [Node("Function", "f") EXCEPT !.v = Ty("T", <<>>), !.p = Params(<<Entry("a", Ty("T", <<"Const", "Ref">>), None)>>), !.b = Fn("return 1;")], [Node("Function_Fwd", "f") EXCEPT !.v = Ty("void", <<>>)],
                [Node("Using", "D") EXCEPT !.v = Ty("T", <<"Ptr">>)], [Node("Variable", "a") EXCEPT !.v = Ty("T", <<>>), !.b = Un("1")]}}
Misc == {Node("Using_Namespace", "N")}
Members == Functions("class") \union Operators(TRUE) \union Casts \union Ctors \union Dtors \union Variables("class") \union Bits \union Friends \union Friendly \union {u \in Usings : u.v.s.t = "none"}
           \union {u \in Enums : u.a.t = "none"} \union Unions \union Templates \union {t \in Typedefs : t.v.t # "Typename"} \union InPlace
Free == Functions("free") \union FunctionsByType \union Operators(FALSE) \union Variables("free") \union Enums \union Unions \union Usings \union Typedefs \union Heads("Class") \union Heads("Struct") \union Templates \union Misc
Small == {[Node("Function_Fwd", "g") EXCEPT !.v = Ty("void", <<>>)], [Node("Variable", "b") EXCEPT !.v = Ty("int", <<>>)], [Node("Using", "D") EXCEPT !.v = Ty("int", <<>>)], Within("Struct", <<>>)}
Wrap(t, m) == IF t \in {"Class", "Struct"} THEN Within(t, m) ELSE IF t = "Namespace" THEN [Node(t, "N") EXCEPT !.b = Body("Namespace_Body", m)] ELSE IF t = "Extern_Linkage" THEN [Node(t, "C") EXCEPT !.b = Body("Extern_Linkage_Body", m)]
              ELSE Body(t, m)
Exportable == {"Class", "Struct", "Union", "Function", "Function_Fwd", "Operator", "Operator_Fwd", "Class_Fwd", "Struct_Fwd", "Using", "Using_Namespace", "Typedef", "Template", "Variable"}
Declarations == Free
  \union {Within("Class", <<m>>) : m \in Members} \union {Within("Struct", <<m>>) : m \in Members}
  \union {Wrap(t, <<m, n>>) : t \in {"Namespace", "Extern_Linkage", "Global_Body", "Export_Body"}, m \in Small, n \in Small}
  \union {Wrap(t, <<m>>) : t \in {"Namespace", "Extern_Linkage", "Global_Body", "Export_Body"}, m \in InPlace} \union {[Node("Union", "D") EXCEPT !.b = Body("Union_Body", <<m>>)] : m \in InPlace}
  \union {[d EXCEPT !.f = 1] : d \in {e \in Heads("Struct") \union Variables("free") \union Templates \union Misc \union Typedefs : e.t \in Exportable}}

Lx1 == Lx0
VARIABLE d
Init == d \in Declarations /\ PrintT(ToJson([d |-> d, toks |-> Toks(d, Lx1, "")]))
Spec == Init /\ [][UNCHANGED d]_d
Supported == Sensible(d)
ASSUME LET all == Declarations
           meant == {<<Toks(e, Lx1, ""), Canon(e, Lx1, "")>> : e \in all}
       IN PrintT(<<"meanings", Cardinality(all), Cardinality(meant)>>) /\ Cardinality(meant) = Cardinality({m[1] : m \in meant})
=============================================================================
