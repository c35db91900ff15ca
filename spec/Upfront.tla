------------------------------ MODULE Upfront ------------------------------
(* The upfront constructors. A node is described by its content: type, name, module flags, a value and its children; `nodes` maps
   the ids given to nodes to their descriptions. A call of a constructor either makes the node its arguments describe or refuses,
   and never changes what any node made before says. *)
EXTENDS OpTable, Equal, Integers, TLC
VARIABLES nodes, cap
uvars == <<nodes, cap>>
None == [t |-> "none"]
D(id) == IF id \in DOMAIN nodes THEN nodes[id] ELSE None
T(id) == D(id).t
Arg(a, k) == IF k \in DOMAIN a THEN a[k] ELSE 0
Txt(a, k) == IF k \in DOMAIN a THEN a[k] ELSE ""
Seq0(a, k) == IF k \in DOMAIN a THEN a[k] ELSE <<>>
Abs(a, k) == T(Arg(a, k)) = "none"
Opt(a, k, S) == T(Arg(a, k)) \in S \union {"none"}
Req(a, k, S) == T(Arg(a, k)) \in S
Named(a) == Txt(a, "name") # ""

\* ------------------------------------------------------------------ shapes of descriptions
Node(t, n, f) == [t |-> t, n |-> n, f |-> f, u |-> "0", c |-> None, a |-> None, s |-> None, v |-> None, p |-> None, b |-> None, x |-> None, i |-> <<>>]
Text(t, n, k) == [t |-> t, n |-> n, f |-> 0, k |-> k]
Specs(w) == [t |-> "Specifiers", n |-> "", f |-> 0, num |-> Len(w), w |-> w]
Entry(n, v, b) == [n |-> n, v |-> v, p |-> None, b |-> b, x |-> None]
List(t, l) == [t |-> t, n |-> l[1].n, f |-> 0, num |-> Len(l), l |-> l]
Body(t, l) == [t |-> t, n |-> "", f |-> 0, num |-> Len(l), l |-> l, ends |-> TRUE]

Bodies == {"Enum_Body", "Class_Body", "Union_Body", "Export_Body", "Global_Body", "Struct_Body", "Function_Body", "Namespace_Body", "Extern_Linkage_Body"}
TextTypes == {"Untyped", "Execution", "Comment", "PlatformAttributes", "Access_Private", "Access_Protected", "Access_Public", "NewLine", "Invalid", "Preprocess_Include",
              "Preprocess_If", "Preprocess_IfDef", "Preprocess_IfNotDef", "Preprocess_ElIf", "Preprocess_Else", "Preprocess_EndIf", "Preprocess_Pragma"}
Worded == TextTypes \ {"Access_Private", "Access_Protected", "Access_Public", "NewLine", "Invalid", "Preprocess_Else", "Preprocess_EndIf"}
\* a bare node of type t, with what no node of that type is without
Bodied == {"Class", "Struct", "Enum", "Enum_Class", "Union", "Function", "Operator", "Operator_Member", "Operator_Cast", "Namespace", "Extern_Linkage", "Constructor", "Destructor",
           "Template", "Friend", "Preprocess_Define"}
Typed == {"Function", "Function_Fwd", "Operator", "Operator_Fwd", "Operator_Member", "Operator_Member_Fwd", "Operator_Cast", "Operator_Cast_Fwd", "Typedef", "Using", "Variable"}
Bare(t, n) ==
  IF t \in TextTypes THEN Text(t, n, IF t \in Worded THEN n ELSE "")
  ELSE IF t = "Specifiers" THEN [Specs(<<>>) EXCEPT !.n = n]
  ELSE IF t = "Parameters" THEN List(t, <<Entry(n, [Node("Typename", "int", 0) EXCEPT !.u = ""], None)>>)
  ELSE IF t = "Parameters_Define" THEN List(t, <<Entry(n, None, None)>>)
  ELSE IF t \in Bodies THEN [Body(t, <<>>) EXCEPT !.n = n]
  ELSE [Node(t, n, 0) EXCEPT
          !.u = CASE t \in {"Operator", "Operator_Fwd", "Operator_Member", "Operator_Member_Fwd"} -> "Invalid"
                  [] t \in {"Class", "Class_Fwd", "Struct", "Struct_Fwd"} -> "default" [] t = "Typename" -> "" [] OTHER -> "0",
          !.b = IF t \in Bodied THEN Text("Untyped", "z", "z") ELSE None,
          !.v = IF t \in Typed THEN [Node("Typename", "int", 0) EXCEPT !.u = ""] ELSE None]

\* ------------------------------------------------------------------ what a body may contain
ClassNot == {"PlatformAttributes", "Class_Body", "Enum_Body", "Extern_Linkage", "Function_Body", "Function_Fwd", "Global_Body", "Namespace", "Namespace_Body", "Operator",
             "Operator_Fwd", "Parameters", "Parameters_Define", "Specifiers", "Struct_Body", "Typename"}
FunctionNot == {"Access_Public", "Access_Protected", "Access_Private", "PlatformAttributes", "Class_Body", "Enum_Body", "Extern_Linkage", "Friend", "Function_Body", "Function_Fwd",
                "Global_Body", "Namespace", "Namespace_Body", "Operator", "Operator_Fwd", "Operator_Member", "Operator_Member_Fwd", "Parameters", "Parameters_Define", "Specifiers", "Struct_Body", "Typename"}
GlobalNot == {"Access_Public", "Access_Protected", "Access_Private", "PlatformAttributes", "Class_Body", "Enum_Body", "Execution", "Friend", "Function_Body", "Namespace_Body",
              "Operator_Member", "Operator_Member_Fwd", "Parameters", "Parameters_Define", "Specifiers", "Struct_Body", "Typename"}
BodyType == [class_body |-> "Class_Body", struct_body |-> "Struct_Body", enum_body |-> "Enum_Body", export_body |-> "Export_Body", extern_body |-> "Extern_Linkage_Body",
             function_body |-> "Function_Body", global_body |-> "Global_Body", namespace_body |-> "Namespace_Body", union_body |-> "Union_Body"]
Admitted(f, t) ==
  CASE f \in {"class_body", "struct_body"} -> t \notin ClassNot
    [] f = "function_body" -> t \notin FunctionNot
    [] f \in {"global_body", "export_body", "extern_body", "namespace_body"} -> t \notin GlobalNot
    [] f \in {"enum_body", "union_body"} -> t \in {"Untyped", "Comment"}
\* whether a body has only such entries, and is one at all
ValidBody(d) == \E f \in DOMAIN BodyType : BodyType[f] = d.t /\ \A k \in 1..Len(d.l) : Admitted(f, d.l[k].t)
RECURSIVE Flatten(_)
\* a body inside a body stands for its entries
Flatten(ds) == IF ds = <<>> THEN <<>> ELSE (IF Head(ds).t \in Bodies THEN Flatten(Head(ds).l) ELSE <<Head(ds)>>) \o Flatten(Tail(ds))
DSeq(ids) == [k \in 1..Len(ids) |-> D(ids[k])]

\* ------------------------------------------------------------------ text
RECURSIVE Commented(_)
Commented(ls) == IF ls = <<>> THEN "" ELSE "//" \o Head(ls) \o "\n" \o Commented(Tail(ls))
Ret(a) == IF Abs(a, "ret") THEN [Node("Typename", "void", 0) EXCEPT !.u = ""] ELSE D(Arg(a, "ret"))

\* ------------------------------------------------------------------ when a constructor makes a node
PA == {"PlatformAttributes"}
SP == {"Specifiers"}
TN == {"Typename"}
PM == {"Parameters"}
FB == {"Function_Body", "Execution", "Untyped"}
\* a name for each class of equal types; that of a type that is nothing but a name is the name
TypeText(d) == IF Equal(d, [Node("Typename", d.n, 0) EXCEPT !.u = ""]) THEN d.n ELSE ToString(Norm(d))
OpTypes(a) == IF Abs(a, "params") THEN <<>> ELSE LET q == D(Arg(a, "params")).l IN [k \in 1..Len(q) |-> TypeText(q[k].v)]
Kind(a) == Overload(a.which, OpTypes(a), TypeText(D(a.ret)))
Interfaces(a) == Seq0(a, "interfaces")
Accepts(f, a) ==
  CASE f = "class" -> Named(a) /\ Opt(a, "attributes", PA) /\ Opt(a, "specifiers", SP) /\ Opt(a, "parent", {"Class", "Struct", "Typename", "Untyped"}) /\ Opt(a, "body", {"Class_Body", "Untyped"}) /\ \A k \in 1..Len(Interfaces(a)) : T(Interfaces(a)[k]) = "Typename"
    [] f = "struct" -> Opt(a, "attributes", PA) /\ Opt(a, "specifiers", SP) /\ Opt(a, "parent", TN) /\ Opt(a, "body", {"Struct_Body"}) /\ \A k \in 1..Len(Interfaces(a)) : T(Interfaces(a)[k]) = "Typename"
    [] f \in {"attributes", "comment", "execution", "pragma", "cond", "include"} -> Txt(a, "text") # ""
    [] f = "untyped" -> Txt(a, "text") # ""
    [] f \in {"module", "using_namespace"} -> Named(a)
    [] f = "constructor" -> Opt(a, "params", PM) /\ Opt(a, "body", {"Function_Body", "Untyped"})
    [] f = "destructor" -> Opt(a, "specifiers", SP) /\ Opt(a, "body", {"Function_Body", "Untyped"})
    [] f = "define" -> Named(a) /\ Opt(a, "params", {"Parameters_Define"})
    [] f = "enum" -> /\ Named(a) /\ Opt(a, "type", TN) /\ Opt(a, "attributes", PA) /\ Opt(a, "body", {"Enum_Body", "Untyped"})
                     /\ Abs(a, "body") => ~ Abs(a, "type") \/ ~ Abs(a, "macro")
    [] f = "extern" -> Named(a) /\ Req(a, "body", {"Extern_Linkage_Body", "Untyped"})
    [] f = "namespace" -> Named(a) /\ Req(a, "body", {"Namespace_Body", "Untyped"})
    [] f = "friend" -> Req(a, "decl", {"Class", "Class_Fwd", "Struct", "Struct_Fwd", "Function", "Function_Fwd", "Operator", "Operator_Fwd"})
    [] f = "function" -> Named(a) /\ Opt(a, "params", PM) /\ Opt(a, "ret", TN) /\ Opt(a, "specifiers", SP) /\ Opt(a, "attributes", PA) /\ Opt(a, "body", FB)
    [] f = "operator" -> /\ Req(a, "ret", TN) /\ Opt(a, "params", PM) /\ Opt(a, "specifiers", SP) /\ Opt(a, "attributes", PA) /\ Opt(a, "body", FB)
                         /\ Kind(a) # "Refuse"
    [] f = "opcast" -> Req(a, "type", TN) /\ Opt(a, "specifiers", SP) /\ Opt(a, "body", {"Function_Body", "Execution"})
    [] f = "param" -> Named(a) /\ Req(a, "type", TN) /\ Opt(a, "value", {"Untyped"})
    [] f = "template" -> Opt(a, "params", PM) /\ Req(a, "decl", {"Class", "Function", "Struct", "Variable", "Using"})
    [] f = "type" -> Named(a) /\ Opt(a, "attributes", PA) /\ Opt(a, "specifiers", SP) /\ Opt(a, "array", {"Untyped"})
    [] f = "typedef" -> /\ Named(a) /\ Opt(a, "attributes", PA)
                        /\ Req(a, "type", {"Class", "Class_Fwd", "Enum", "Enum_Fwd", "Enum_Class", "Enum_Class_Fwd", "Function_Fwd", "Struct", "Struct_Fwd", "Union", "Typename"})
    [] f = "union" -> Req(a, "body", {"Union_Body"}) /\ Opt(a, "attributes", PA)
    [] f = "using" -> Named(a) /\ Req(a, "type", TN) /\ Opt(a, "attributes", PA)
    [] f = "variable" -> Named(a) /\ Req(a, "type", TN) /\ Opt(a, "attributes", PA) /\ Opt(a, "specifiers", SP) /\ Opt(a, "value", {"Untyped"})
    [] f = "specifiers" -> Len(Seq0(a, "words")) \in 1..cap
    [] f = "body" -> a.kind \in Bodies
    [] f \in DOMAIN BodyType -> LET e == Seq0(a, "entries") IN e # <<>> /\ \A k \in 1..Len(e) : T(e[k]) # "none" /\ Admitted(f, T(e[k]))
    [] f = "params" -> LET e == Seq0(a, "entries") IN e # <<>> /\ \A k \in 1..Len(e) : T(e[k]) = "Parameters"
    [] f = "define_params" -> LET e == Seq0(a, "entries") IN e # <<>> /\ \A k \in 1..Len(e) : T(e[k]) = "Parameters_Define"

\* ------------------------------------------------------------------ what it makes
OrFwd(a, t) == IF Abs(a, "body") THEN t \o "_Fwd" ELSE t
Common(a, t) == [Node(t, Txt(a, "name"), Arg(a, "mflags")) EXCEPT !.a = D(Arg(a, "attributes")), !.b = D(Arg(a, "body"))]
Class(a, t) ==
  LET i == Interfaces(a)
      noparent == Abs(a, "parent")
  IN [Common(a, OrFwd(a, t)) EXCEPT
        !.s = D(Arg(a, "specifiers")),
        !.u = IF i # <<>> THEN "public" ELSE IF "access" \in DOMAIN a THEN a.access ELSE "default",
        !.v = IF noparent THEN (IF i = <<>> THEN None ELSE D(i[1])) ELSE D(a.parent),
        !.i = IF noparent THEN (IF i = <<>> THEN <<>> ELSE DSeq(Tail(i))) ELSE DSeq(i)]
Makes(f, a) ==
  CASE f = "class" -> Class(a, "Class")
    [] f = "struct" -> Class(a, "Struct")
    [] f = "attributes" -> Text("PlatformAttributes", a.text, a.text)
    [] f = "comment" -> LET q == Commented(a.lines) IN Text("Comment", q, q)
    [] f = "execution" -> Text("Execution", "", a.text)
    [] f = "untyped" -> Text("Untyped", Txt(a, "text"), Txt(a, "text"))
    [] f = "pragma" -> Text("Preprocess_Pragma", "", a.text)
    [] f = "cond" -> Text(<<"Preprocess_If", "Preprocess_IfDef", "Preprocess_IfNotDef", "Preprocess_ElIf">>[Arg(a, "kind") + 1], "", a.text)
    [] f = "include" -> LET q == IF Arg(a, "foreign") = 1 THEN "<" \o a.text \o ">" ELSE "\"" \o a.text \o "\"" IN Text("Preprocess_Include", q, q)
    [] f = "module" -> Node("Module", a.name, Arg(a, "mflags"))
    [] f = "using_namespace" -> Node("Using_Namespace", a.name, 0)
    [] f = "constructor" -> [Node(OrFwd(a, "Constructor"), "", 0) EXCEPT !.p = D(Arg(a, "params")), !.v = D(Arg(a, "init")), !.b = D(Arg(a, "body"))]
    [] f = "destructor" -> [Node(OrFwd(a, "Destructor"), "", 0) EXCEPT !.s = D(Arg(a, "specifiers")), !.b = D(Arg(a, "body"))]
    [] f = "define" -> [Node("Preprocess_Define", a.name, 0) EXCEPT !.p = D(Arg(a, "params")), !.b = LET q == Txt(a, "text") \o "\n" IN Text("Untyped", q, q)]
    [] f = "enum" -> [Common(a, OrFwd(a, IF Arg(a, "isclass") = 1 THEN "Enum_Class" ELSE "Enum")) EXCEPT
                        !.v = D(Arg(a, "type")), !.p = IF Abs(a, "type") THEN D(Arg(a, "macro")) ELSE None]
    [] f = "extern" -> [Node("Extern_Linkage", a.name, 0) EXCEPT !.b = D(a.body)]
    [] f = "namespace" -> [Node("Namespace", a.name, Arg(a, "mflags")) EXCEPT !.b = D(a.body)]
    [] f = "friend" -> [Node("Friend", "", 0) EXCEPT !.b = D(a.decl)]
    [] f = "function" -> [Common(a, OrFwd(a, "Function")) EXCEPT !.s = D(Arg(a, "specifiers")), !.p = D(Arg(a, "params")), !.v = Ret(a)]
    [] f = "operator" -> [Common(a, OrFwd(a, IF Kind(a) = "Member" THEN "Operator_Member" ELSE "Operator")) EXCEPT
                            !.n = Txt(a, "nspace") \o "operator " \o Symbol(a.which), !.u = a.which,
                            !.s = D(Arg(a, "specifiers")), !.p = D(Arg(a, "params")), !.v = D(a.ret)]
    [] f = "opcast" -> [Node(OrFwd(a, "Operator_Cast"), "", 0) EXCEPT !.v = D(a.type), !.s = D(Arg(a, "specifiers")), !.b = D(Arg(a, "body"))]
    [] f = "param" -> List("Parameters", <<Entry(a.name, D(a.type), D(Arg(a, "value")))>>)
    [] f = "template" -> [Node("Template", "", Arg(a, "mflags")) EXCEPT !.p = D(Arg(a, "params")), !.b = D(a.decl)]
    [] f = "type" -> [Node("Typename", a.name, 0) EXCEPT !.a = D(Arg(a, "attributes")), !.s = D(Arg(a, "specifiers")), !.b = D(Arg(a, "array")), !.u = Txt(a, "tag")]
    [] f = "typedef" -> [Common(a, "Typedef") EXCEPT !.v = D(a.type)]
    [] f = "union" -> Common(a, "Union")
    [] f = "using" -> [Common(a, "Using") EXCEPT !.v = D(a.type)]
    [] f = "variable" -> [Common(a, "Variable") EXCEPT !.v = D(a.type), !.s = D(Arg(a, "specifiers")), !.b = D(Arg(a, "value"))]
    [] f = "specifiers" -> Specs(a.words)
    [] f = "body" -> Body(a.kind, <<>>)
    [] f \in DOMAIN BodyType -> Body(BodyType[f], Flatten(DSeq(a.entries)))
    [] f = "params" -> List("Parameters", [k \in 1..Len(a.entries) |-> D(a.entries[k]).l[1]])
    [] f = "define_params" -> List("Parameters_Define", [k \in 1..Len(a.entries) |-> D(a.entries[k]).l[1]])
With(id, d) == [k \in DOMAIN nodes \union {id} |-> IF k = id THEN d ELSE nodes[k]]
Def(id, f, a) == /\ UNCHANGED cap
                 /\ nodes' = IF Accepts(f, a) THEN With(id, Makes(f, a)) ELSE nodes
=============================================================================
