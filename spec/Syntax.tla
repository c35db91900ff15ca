------------------------------ MODULE Syntax ------------------------------
(* The C++ a description stands for, as a sequence of lexemes. `lx` gives the lexemes of each text that occurs in the description
   (names may be qualified, bodies and initialisers are verbatim text); `cls` is the name of the class the description is in.
   Comments and line breaks are nothing; a directive ends with the lexeme "<nl>". *)
EXTENDS OpTable, Integers, Sequences
LOCAL INSTANCE SequencesExt
SpecLex(w) ==
  CASE w = "Consteval" -> <<"consteval">> [] w = "Constexpr" -> <<"constexpr">> [] w = "Constinit" -> <<"constinit">> [] w = "Explicit" -> <<"explicit">>
    [] w = "External_Linkage" -> <<"extern">> [] w = "ForceInline" -> <<"forceinline">> [] w = "Global" -> <<"global">> [] w = "Inline" -> <<"inline">>
    [] w = "Internal_Linkage" -> <<"internal">> [] w = "Local_Persist" -> <<"local_persist">> [] w = "Mutable" -> <<"mutable">> [] w = "NeverInline" -> <<"neverinline">>
    [] w = "Ptr" -> <<"*">> [] w = "Ref" -> <<"&">> [] w = "Register" -> <<"register">> [] w = "Restrict" -> <<"restrict">> [] w = "RValue" -> <<"&&">>
    [] w = "Static" -> <<"static">> [] w = "Thread_Local" -> <<"thread_local">> [] w = "Virtual" -> <<"virtual">> [] w = "Const" -> <<"const">> [] w = "Final" -> <<"final">>
    [] w = "NoExceptions" -> <<"noexcept">> [] w = "Override" -> <<"override">> [] w = "Pure" -> <<"=", "0">> [] w = "Delete" -> <<"=", "delete">> [] w = "Volatile" -> <<"volatile">>
Trailing == {"Const", "Final", "NoExceptions", "Override", "Pure", "Delete", "Volatile"}
Is(d) == d.t # "none"
\* what is declared by such nodes ends without a semicolon when it is a part of another declaration
Words(s) == IF s.t = "none" THEN <<>> ELSE s.w
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Join(q, sep) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat([k \in 1..Len(q) - 1 |-> sep \o q[k + 1]])
Pick(s, S) == Cat([k \in 1..Len(Words(s)) |-> IF Words(s)[k] \in S THEN SpecLex(Words(s)[k]) ELSE <<>>])
Prefix(s) == Cat([k \in 1..Len(Words(s)) |-> IF Words(s)[k] \in Trailing THEN <<>> ELSE SpecLex(Words(s)[k])])
\* a pure or deleted function says so after everything else
Suffix(s) == Pick(s, Trailing \ {"Pure", "Delete"}) \o Pick(s, {"Pure", "Delete"})
Spaced(s) == Cat([k \in 1..Len(Words(s)) |-> SpecLex(Words(s)[k])])
Export(d) == IF d.f % 2 = 1 THEN <<"export">> ELSE <<>>
If(c, q) == IF c THEN q ELSE <<>>
TextOnly == {"Untyped", "Execution", "Comment", "PlatformAttributes"}

RECURSIVE Toks(_, _, _), TypeToks(_, _), Decl(_, _, _), Vars(_, _)
\* without the semicolon a declaration of its own ends with
Lx(s, lx) == IF s = "" THEN <<>> ELSE lx[s]
Opt1(d, lx) == IF d.t = "none" THEN <<>> ELSE Toks(d, lx, "")
Dims(v, lx) == IF v.t # "Typename" \/ v.b.t = "none" THEN <<>>
               ELSE <<"[">> \o Toks(v.b, lx, "") \o <<"]">> \o Cat([k \in 1..Len(v.i) |-> <<"[">> \o Toks(v.i[k], lx, "") \o <<"]">>])
ParamToks(p, lx) ==
  Join([k \in 1..(IF p.num > 1 THEN Len(p.l) ELSE 1) |->
          LET e == p.l[k] IN Opt1(e.p, lx) \o If(Is(e.v), TypeToks(e.v, lx)) \o Lx(e.n, lx) \o If(Is(e.v), Dims(e.v, lx)) \o Opt1(e.x, lx) \o If(Is(e.b), <<"=">> \o Opt1(e.b, lx))], <<",">>)
Parens(p, lx) == <<"(">> \o If(Is(p), ParamToks(p, lx)) \o <<")">>
TypeToks(d, lx) ==
  IF Is(d.v) THEN Opt1(d.a, lx) \o TypeToks(d.v, lx) \o Lx(d.n, lx) \o Parens(d.p, lx) \o Spaced(d.s)
  ELSE LET pack == d.u \in {"...", "class...", "enum...", "struct...", "union..."}
           tag == CASE d.u \in {"class", "class..."} -> <<"class">> [] d.u \in {"enum", "enum..."} -> <<"enum">> [] d.u \in {"struct", "struct..."} -> <<"struct">>
                    [] d.u \in {"union", "union..."} -> <<"union">> [] OTHER -> <<>>
       IN Opt1(d.a, lx) \o tag \o Lx(d.n, lx) \o Spaced(d.s) \o If(pack, <<"...">>)
Braces(d, lx, cls) == <<"{">> \o Toks(d, lx, cls) \o <<"}">>
\* a base is a type, a class or struct, or text
Base(d, lx) == IF d.t = "Typename" THEN TypeToks(d, lx) ELSE Lx(d.n, lx)
Bases(d, key, lx) ==
  IF ~ Is(d.v) THEN <<>>
  ELSE <<":">> \o If(d.u # "default", <<d.u>>) \o Base(d.v, lx) \o Cat([k \in 1..Len(d.i) |-> <<",">> \o If(key = "class", <<"public">>) \o TypeToks(d.i[k], lx)])
\* definitions that may be a part of another declaration
Inner == {"Class", "Class_Fwd", "Struct", "Struct_Fwd", "Union", "Union_Fwd", "Enum", "Enum_Fwd", "Enum_Class", "Enum_Class_Fwd"}
Decl(d, lx, cls) ==
  LET key == CASE d.t \in {"Class", "Class_Fwd"} -> "class" [] d.t \in {"Struct", "Struct_Fwd"} -> "struct" [] d.t \in {"Union", "Union_Fwd"} -> "union" [] OTHER -> "enum"
      enum == key = "enum"
  IN Export(d) \o <<key>> \o If(d.t \in {"Enum_Class", "Enum_Class_Fwd"}, <<"class">>) \o Opt1(d.a, lx) \o Lx(d.n, lx)
     \o (IF enum THEN (IF Is(d.v) THEN <<":">> \o TypeToks(d.v, lx) ELSE Opt1(d.p, lx))
         ELSE IF d.t \in {"Class", "Struct"} THEN Pick(d.s, {"Final"}) \o Bases(d, key, lx) ELSE <<>>)
     \o If(Is(d.b), Braces(d.b, lx, d.n))
\* a variable and those declared with it; only the first one's type is written
Vars(d, lx) ==
  Lx(d.n, lx) \o If(Is(d.v), Dims(d.v, lx)) \o If(Is(d.p), <<":">> \o Opt1(d.p, lx))
  \o (IF ~ Is(d.b) THEN <<>> ELSE IF d.u # "0" THEN <<"(">> \o Opt1(d.b, lx) \o <<")">> ELSE <<"=">> \o Opt1(d.b, lx))
  \o If(Is(d.x), <<",">> \o Spaced(d.x.s) \o Vars(d.x, lx))
Toks(d, lx, cls) ==
  CASE d.t \in TextOnly -> Lx(d.k, lx)
    [] d.t = "NewLine" -> <<>>
    [] d.t = "Access_Public" -> <<"public", ":">> [] d.t = "Access_Protected" -> <<"protected", ":">> [] d.t = "Access_Private" -> <<"private", ":">>
    [] d.t = "Preprocess_Include" -> <<"#", "include">> \o Lx(d.k, lx) \o <<"<nl>">>
    [] d.t = "Preprocess_If" -> <<"#", "if">> \o Lx(d.k, lx) \o <<"<nl>">>
    [] d.t = "Preprocess_IfDef" -> <<"#", "ifdef">> \o Lx(d.k, lx) \o <<"<nl>">>
    [] d.t = "Preprocess_IfNotDef" -> <<"#", "ifndef">> \o Lx(d.k, lx) \o <<"<nl>">>
    [] d.t = "Preprocess_ElIf" -> <<"#", "elif">> \o Lx(d.k, lx) \o <<"<nl>">>
    [] d.t = "Preprocess_Else" -> <<"#", "else", "<nl>">> [] d.t = "Preprocess_EndIf" -> <<"#", "endif", "<nl>">>
    [] d.t = "Preprocess_Pragma" -> <<"#", "pragma">> \o Lx(d.k, lx) \o <<"<nl>">>
    [] d.t = "Preprocess_Define" -> <<"#", "define">> \o Lx(d.n, lx) \o If(Is(d.p), <<"@(">> \o Join([k \in 1..Len(d.p.l) |-> Lx(d.p.l[k].n, lx)], <<",">>) \o <<")">>) \o Opt1(d.b, lx) \o <<"<nl>">>
    [] d.t = "Specifiers" -> Spaced(d)
    [] d.t = "Typename" -> TypeToks(d, lx)
    [] d.t = "Parameters" -> ParamToks(d, lx)
    [] d.t = "Parameters_Define" -> Join([k \in 1..Len(d.l) |-> Lx(d.l[k].n, lx)], <<",">>)
    [] d.t = "Export_Body" -> <<"export", "{">> \o Cat([k \in 1..Len(d.l) |-> Toks(d.l[k], lx, "")]) \o <<"}", ";">>
    [] "l" \in DOMAIN d -> Cat([k \in 1..Len(d.l) |-> Toks(d.l[k], lx, cls)])
    [] d.t \in Inner -> Decl(d, lx, cls) \o <<";">>
    [] d.t \in {"Constructor", "Constructor_Fwd"} ->
         Prefix(d.s) \o Lx(IF cls # "" THEN cls ELSE d.n, lx) \o Parens(d.p, lx)
         \o (IF d.t = "Constructor" THEN If(Is(d.v), <<":">> \o Opt1(d.v, lx)) \o Braces(d.b, lx, "") ELSE If(Is(d.b), <<"=">> \o Opt1(d.b, lx)) \o <<";">>)
    [] d.t \in {"Destructor", "Destructor_Fwd"} ->
         Pick(d.s, {"Virtual"}) \o (IF d.n # "" THEN Lx(d.n, lx) ELSE <<"~">> \o Lx(cls, lx)) \o <<"(", ")">>
         \o (IF d.t = "Destructor" THEN Braces(d.b, lx, "") ELSE (IF "Pure" \in Range(Words(d.s)) THEN <<"=", "0">> ELSE If(Is(d.b), <<"=">> \o Opt1(d.b, lx))) \o <<";">>)
    [] d.t = "Extern_Linkage" -> <<"extern">> \o lx["\"" \o d.n \o "\""] \o Braces(d.b, lx, "")
    [] d.t = "Friend" -> <<"friend">> \o Toks(d.b, lx, "") \o If(d.b.t = "Typename", <<";">>)
    [] d.t \in {"Function", "Function_Fwd"} ->
         Export(d) \o Opt1(d.a, lx) \o Prefix(d.s) \o If(Is(d.v), TypeToks(d.v, lx)) \o Lx(d.n, lx) \o Parens(d.p, lx) \o Suffix(d.s) \o Opt1(d.x, lx)
         \o (IF d.t = "Function" THEN Braces(d.b, lx, "") ELSE If(Is(d.b), <<"=">> \o Opt1(d.b, lx)) \o <<";">>)
    [] d.t = "Module" -> Export(d) \o (IF (d.f \div 2) % 2 = 1 THEN <<"import">> ELSE <<"module">>) \o Lx(d.n, lx) \o <<";">>
    [] d.t = "Namespace" -> Export(d) \o <<"namespace">> \o Lx(d.n, lx) \o Braces(d.b, lx, "")
    [] d.t \in {"Operator", "Operator_Fwd", "Operator_Member", "Operator_Member_Fwd"} ->
         Export(d) \o Opt1(d.a, lx) \o Prefix(d.s) \o TypeToks(d.v, lx) \o Lx(d.n, lx) \o Parens(d.p, lx) \o Suffix(d.s)
         \o (IF Is(d.b) THEN Braces(d.b, lx, "") ELSE <<";">>)
    [] d.t \in {"Operator_Cast", "Operator_Cast_Fwd"} ->
         Prefix(d.s) \o If(d.t = "Operator_Cast", Lx(d.n, lx)) \o <<"operator">> \o TypeToks(d.v, lx) \o <<"(", ")">> \o Suffix(d.s)
         \o (IF Is(d.b) THEN Braces(d.b, lx, "") ELSE <<";">>)
    [] d.t = "Template" -> Export(d) \o <<"template", "<">> \o If(Is(d.p), ParamToks(d.p, lx)) \o <<">">> \o Toks(d.b, lx, cls)
    [] d.t = "Typedef" -> Export(d) \o <<"typedef">> \o Opt1(d.a, lx)
                          \o (IF d.v.t = "Typename" THEN TypeToks(d.v, lx) \o If(~ Is(d.v.v), Lx(d.n, lx) \o Dims(d.v, lx)) ELSE Decl(d.v, lx, "") \o Lx(d.n, lx)) \o <<";">>
    [] d.t = "Using" -> Export(d) \o <<"using">> \o Lx(d.n, lx) \o Opt1(d.a, lx) \o If(Is(d.v), <<"=">> \o TypeToks(d.v, lx) \o Dims(d.v, lx)) \o <<";">>
    [] d.t = "Using_Namespace" -> Export(d) \o <<"using", "namespace">> \o Lx(d.n, lx) \o <<";">>
    \* (its type may be defined with it)
    [] d.t = "Variable" -> Export(d) \o Opt1(d.a, lx) \o Spaced(d.s) \o (IF d.v.t = "Typename" THEN TypeToks(d.v, lx) ELSE Decl(d.v, lx, "")) \o Vars(d, lx) \o <<";">>

\* ------------------------------------------------------------------ what is C++ of the supported kind
RECURSIVE Sensible(_)
Sens(d) == IF d.t = "none" THEN TRUE ELSE Sensible(d)
TypeWords == {"Ptr", "Ref", "RValue", "Const", "Volatile", "Restrict"}
Only(s, S) == Range(Words(s)) \subseteq S /\ \A i, j \in 1..Len(Words(s)) : Words(s)[i] = Words(s)[j] /\ Words(s)[i] # "Ptr" => i = j
\* (what a type points to and the pointer may both be const)
TypeOnly(s) == Range(Words(s)) \subseteq TypeWords /\ \A k \in 2..Len(Words(s)) : Words(s)[k - 1] = Words(s)[k] => Words(s)[k] = "Ptr"
Sensible(d) ==
  CASE "k" \in DOMAIN d -> TRUE
    [] d.t = "Specifiers" -> TRUE
    [] d.t \in {"Parameters", "Parameters_Define"} -> \A k \in 1..Len(d.l) : Sens(d.l[k].v) /\ Sens(d.l[k].b) /\ Sens(d.l[k].p) /\ Sens(d.l[k].x)
    [] "l" \in DOMAIN d -> \A k \in 1..Len(d.l) : Sens(d.l[k])
    [] OTHER ->
       /\ Sens(d.a) /\ Sens(d.v) /\ Sens(d.p) /\ Sens(d.b) /\ Sens(d.x) /\ \A k \in 1..Len(d.i) : Sens(d.i[k])
       /\ CASE d.t = "Typename" -> TypeOnly(d.s)
            [] d.t \in {"Class", "Struct"} -> Only(d.s, {"Final"})
            [] d.t \in {"Class_Fwd", "Struct_Fwd"} -> ~ Is(d.v) /\ Only(d.s, {})
            [] d.t \in {"Constructor", "Constructor_Fwd"} -> Only(d.s, {"Explicit", "Inline", "ForceInline", "NeverInline", "Constexpr"})
            [] d.t = "Destructor" -> Only(d.s, {"Virtual"})
            [] d.t = "Destructor_Fwd" -> Only(d.s, {"Virtual", "Pure"})
            [] d.t \in {"Function", "Operator", "Operator_Member", "Operator_Cast"} -> Only(d.s, (IF d.t = "Operator_Cast" THEN {} ELSE {"Volatile"}) \union {"Inline", "ForceInline", "NeverInline", "Static", "Virtual", "Constexpr", "Consteval", "Explicit", "Const", "Final", "Override", "NoExceptions", "External_Linkage", "Internal_Linkage"})
            [] d.t \in {"Function_Fwd", "Operator_Fwd", "Operator_Member_Fwd", "Operator_Cast_Fwd"} ->
                 Only(d.s, (IF d.t = "Operator_Cast_Fwd" THEN {} ELSE {"Volatile"}) \union {"Inline", "ForceInline", "NeverInline", "Static", "Virtual", "Constexpr", "Consteval", "Explicit", "Const", "Final", "Override", "NoExceptions", "External_Linkage", "Internal_Linkage", "Pure", "Delete"})
                 /\ ~ ({"Pure", "Delete"} \subseteq Range(Words(d.s)))
            [] d.t = "Typedef" -> d.v.t # "Function_Fwd"
            [] OTHER -> TRUE

\* ------------------------------------------------------------------ what parsing a text back must keep
\* Texts count by their lexemes, comments and line breaks do not count, nor does which class a constructor says it is in where that is known;
\* the code in a function's body is its text, however it was put together.
RECURSIVE Canon(_, _, _)
\* One parameter and a sign that is a unary and a binary operator: the text does not tell the unary operator of a type from the binary
\* operator of the class it would be in, and is read as the latter.
Sign == [Unary_Plus |-> "Add", Unary_Minus |-> "Subtract", Indirection |-> "Multiply", AddressOf |-> "BAnd"]
ReadAs(d) == IF d.t \in {"Operator", "Operator_Fwd"} /\ d.u \in DOMAIN Sign /\ Is(d.p) /\ d.p.num <= 1
             THEN [d EXCEPT !.t = IF d.t = "Operator" THEN "Operator_Member" ELSE "Operator_Member_Fwd", !.u = Sign[d.u]] ELSE d
CodeBodies == {"Function_Body", "Execution", "Untyped"}
Shown(q, lx) == SelectSeq(q, LAMBDA e : IF e.t = "Untyped" THEN Lx(e.k, lx) # <<>> ELSE e.t \notin {"Comment", "NewLine"})
CanonBody(b, lx) == IF b.t \in CodeBodies THEN <<"code", Toks(b, lx, "")>> ELSE Canon(b, lx, "")
Canon(d0, lx, cls) ==
  LET d == ReadAs(d0) IN
  CASE d.t = "none" -> <<"none">>
    [] d.t \in {"Access_Public", "Access_Protected", "Access_Private", "Preprocess_Else", "Preprocess_EndIf"} -> <<d.t>>
    [] d.t \in {"Untyped", "Execution"} -> <<"code", Lx(d.k, lx)>>
    [] "k" \in DOMAIN d -> <<d.t, Lx(d.k, lx)>>
    [] d.t = "Specifiers" -> <<d.t, d.w>>
    [] d.t \in {"Parameters", "Parameters_Define"} ->
         <<d.t, [k \in 1..(IF d.num > 1 THEN Len(d.l) ELSE 1) |-> <<Lx(d.l[k].n, lx), Canon(d.l[k].v, lx, ""), Canon(d.l[k].p, lx, ""), Canon(d.l[k].b, lx, ""), Canon(d.l[k].x, lx, "")>>]>>
    [] "l" \in DOMAIN d -> LET q == Shown(d.l, lx) IN <<d.t, [k \in 1..Len(q) |-> Canon(q[k], lx, cls)]>>
    \* (a class named as a friend: a declaration of it, or its type with the word class before it)
    [] d.t = "Friend" /\ d.b.t \in {"Class_Fwd", "Struct_Fwd"} /\ d.b.a.t = "none" -> <<d.t, IF d.b.t = "Class_Fwd" THEN "class" ELSE "struct", Lx(d.b.n, lx)>>
    [] d.t = "Friend" /\ d.b.t = "Typename" /\ d.b.a.t = "none" /\ d.b.s.t = "none" /\ d.b.u \in {"class", "struct"} -> <<d.t, d.b.u, Lx(d.b.n, lx)>>
    [] OTHER ->
         <<d.t, IF d.t \in {"Constructor", "Constructor_Fwd"} /\ cls # "" THEN Lx(cls, lx) ELSE Lx(d.n, lx), d.f, d.u, Canon(d.a, lx, ""),
           Canon(d.s, lx, ""), Canon(d.v, lx, ""), Canon(d.p, lx, ""),
           IF d.t \in {"Function", "Operator", "Operator_Member", "Operator_Cast", "Constructor", "Destructor"} THEN CanonBody(d.b, lx) ELSE Canon(d.b, lx, IF d.t \in {"Class", "Struct"} THEN d.n ELSE cls),
           Canon(d.x, lx, ""), [k \in 1..Len(d.i) |-> Canon(d.i[k], lx, "")]>>
=============================================================================
