------------------------------ MODULE MCEqual ------------------------------
(* Pairs of nodes that differ in one argument of their constructor (or in none), for every constructor and every argument. They are
   equal exactly if that argument is a text and another text took its place. Prints the pairs for the real code. *)
EXTENDS Upfront, Json
VARIABLES row, done
vars == <<nodes, cap, row, done>>
Types == << "Untyped", "NewLine", "Comment", "Access_Private", "Access_Protected", "Access_Public", "PlatformAttributes", "Class", "Class_Fwd", "Class_Body", "Constructor", "Constructor_Fwd",
  "Destructor", "Destructor_Fwd", "Enum", "Enum_Fwd", "Enum_Body", "Enum_Class", "Enum_Class_Fwd", "Execution", "Export_Body", "Extern_Linkage", "Extern_Linkage_Body", "Friend", "Function",
  "Function_Fwd", "Function_Body", "Global_Body", "Module", "Namespace", "Namespace_Body", "Operator", "Operator_Fwd", "Operator_Member", "Operator_Member_Fwd", "Operator_Cast",
  "Operator_Cast_Fwd", "Parameters", "Parameters_Define", "Preprocess_Define", "Preprocess_Include", "Preprocess_If", "Preprocess_IfDef", "Preprocess_IfNotDef", "Preprocess_ElIf",
  "Preprocess_Else", "Preprocess_EndIf", "Preprocess_Pragma", "Specifiers", "Struct", "Struct_Fwd", "Struct_Body", "Template", "Typedef", "Typename", "Union", "Union_Fwd", "Union_Body",
  "Using", "Using_Namespace", "Variable" >>
N == Len(Types)
Index(t) == CHOOSE k \in 1..N : Types[k] = t
\* nodes 1..N: one of every type; 101..100+N: another of every type, with another name
Fresh == [k \in 1..N |-> Bare(Types[k], "x" \o ToString(k))] @@ [k \in 101..(100 + N) |-> Bare(Types[k - 100], "y" \o ToString(k))]
\* the arguments of every constructor and the types they may be of
Args == [
  class |-> [attributes |-> {"PlatformAttributes"}, specifiers |-> {"Specifiers"}, parent |-> {"Typename", "Class", "Struct"}, body |-> {"Class_Body", "Untyped"}],
  struct |-> [attributes |-> {"PlatformAttributes"}, specifiers |-> {"Specifiers"}, parent |-> {"Typename"}, body |-> {"Struct_Body"}],
  constructor |-> [params |-> {"Parameters"}, init |-> {"Untyped"}, body |-> {"Function_Body", "Untyped"}],
  destructor |-> [specifiers |-> {"Specifiers"}, body |-> {"Function_Body", "Untyped"}],
  define |-> [params |-> {"Parameters_Define"}],
  enum |-> [type |-> {"Typename"}, macro |-> {"Untyped"}, attributes |-> {"PlatformAttributes"}, body |-> {"Enum_Body", "Untyped"}],
  extern |-> [body |-> {"Extern_Linkage_Body", "Untyped"}],
  namespace |-> [body |-> {"Namespace_Body", "Untyped"}],
  friend |-> [decl |-> {"Class", "Class_Fwd", "Struct", "Struct_Fwd", "Function", "Function_Fwd", "Operator", "Operator_Fwd"}],
  function |-> [params |-> {"Parameters"}, ret |-> {"Typename"}, specifiers |-> {"Specifiers"}, attributes |-> {"PlatformAttributes"}, body |-> {"Function_Body", "Execution", "Untyped"}],
  operator |-> [params |-> {"Parameters"}, ret |-> {"Typename"}, specifiers |-> {"Specifiers"}, attributes |-> {"PlatformAttributes"}, body |-> {"Function_Body", "Execution", "Untyped"}],
  opcast |-> [type |-> {"Typename"}, specifiers |-> {"Specifiers"}, body |-> {"Function_Body", "Execution"}],
  param |-> [type |-> {"Typename"}, value |-> {"Untyped"}],
  template |-> [params |-> {"Parameters"}, decl |-> {"Class", "Function", "Struct", "Variable", "Using"}],
  type |-> [attributes |-> {"PlatformAttributes"}, specifiers |-> {"Specifiers"}, array |-> {"Untyped"}],
  typedef |-> [type |-> {"Class", "Class_Fwd", "Enum", "Enum_Fwd", "Enum_Class", "Function_Fwd", "Struct", "Union", "Typename"}, attributes |-> {"PlatformAttributes"}],
  union |-> [body |-> {"Union_Body"}, attributes |-> {"PlatformAttributes"}],
  using |-> [type |-> {"Typename"}, attributes |-> {"PlatformAttributes"}],
  variable |-> [type |-> {"Typename"}, value |-> {"Untyped"}, attributes |-> {"PlatformAttributes"}, specifiers |-> {"Specifiers"}] ]
Scalars(f) ==
  (IF f \in {"operator"} THEN {<<"which", "NewArray">>} ELSE IF f \in {"constructor", "destructor", "friend", "opcast", "template"} THEN {} ELSE {<<"name", "M">>})
  \union (IF f \in {"class", "struct", "enum", "namespace", "function", "operator", "template", "typedef", "union", "using", "variable", "module"} THEN {<<"mflags", 1>>} ELSE {})
  \union (IF f \in {"class", "struct"} THEN {<<"access", "private">>, <<"interfaces", <<Index("Typename")>> >>} ELSE {})
  \union (IF f = "type" THEN {<<"tag", "struct">>} ELSE {})
  \union (IF f = "enum" THEN {<<"isclass", 1>>} ELSE {})
Fix(f) == IF f = "operator" THEN [which |-> "New"] ELSE IF f = "define" THEN [name |-> "N", text |-> "q"] ELSE [name |-> "N"]
\* bases: every argument given or only those that must be
Base(f, full) == Fix(f) @@ [x \in DOMAIN Args[f] |-> IF full \/ ~ Accepts(f, Fix(f) @@ [y \in DOMAIN Args[f] |-> IF y = x THEN 0 ELSE Index(CHOOSE t \in Args[f][y] : TRUE)])
                                                     THEN Index(CHOOSE t \in Args[f][x] : TRUE) ELSE 0]
Change(a, x, v) == (x :> v) @@ a
Vals(f, x) == {0} \union {Index(t) : t \in Args[f][x]} \union {100 + Index(t) : t \in Args[f][x]}
Rows ==
  {[f |-> f, a |-> Base(f, full), x |-> x, v |-> v] : <<f, full, x, v>> \in UNION {UNION {{f} \X BOOLEAN \X {x} \X Vals(f, x) : x \in DOMAIN Args[f]} : f \in DOMAIN Args}}
  \union {[f |-> q[1], a |-> Base(q[1], q[2]), x |-> q[3][1], v |-> q[3][2]] : q \in UNION {{f} \X BOOLEAN \X Scalars(f) : f \in DOMAIN Args}}
  \union {[f |-> "module", a |-> [name |-> "N"], x |-> x[1], v |-> x[2]] : x \in Scalars("module")}
  \union {[f |-> "using_namespace", a |-> [name |-> "N"], x |-> "name", v |-> "M"]}
  \union {[f |-> "specifiers", a |-> [words |-> a], x |-> "words", v |-> v] : a \in {<<"Const">>, <<"Const", "Ptr">>, <<"Ptr", "Const">>}, v \in {<<"Const">>, <<"Const", "Ptr">>, <<"Ptr", "Const">>, <<"Const", "Ptr", "Ptr">>, <<"Inline">>}}
  \union {[f |-> f, a |-> [entries |-> a], x |-> "entries", v |-> v] :
            f \in {"class_body", "struct_body", "export_body", "extern_body", "function_body", "global_body", "namespace_body"},
            a \in {<<Index("Variable")>>, <<Index("Variable"), Index("NewLine")>>, <<Index("Variable"), Index("Using")>>},
            v \in {<<Index("Variable")>>, <<Index("Using"), Index("Variable")>>, <<Index("Variable"), Index("Using")>>, <<Index("Variable"), 100 + Index("Using")>>,
                   <<Index("Variable"), Index("Comment")>>, <<100 + Index("Variable"), Index("NewLine")>>, <<Index("Variable"), Index("NewLine"), Index("Variable")>>}}
  \union {[f |-> f, a |-> [entries |-> a], x |-> "entries", v |-> v] : f \in {"enum_body", "union_body"},
            a \in {<<Index("Untyped")>>, <<Index("Untyped"), Index("Comment")>>}, v \in {<<Index("Untyped")>>, <<100 + Index("Untyped")>>, <<Index("Comment"), Index("Untyped")>>}}
  \union {[f |-> "body", a |-> [kind |-> a], x |-> "kind", v |-> v] : a \in Bodies, v \in Bodies}
Init == /\ nodes = Fresh /\ cap = 14 /\ done = 0
        /\ row \in Rows
        /\ Accepts(row.f, row.a) /\ Accepts(row.f, Change(row.a, row.x, row.v))
        /\ PrintT(ToJson(row))
Next == \/ done = 0 /\ done' = 1 /\ Def(200, row.f, row.a) /\ UNCHANGED row
        \/ done = 1 /\ done' = 2 /\ Def(201, row.f, Change(row.a, row.x, row.v)) /\ UNCHANGED row
Spec == Init /\ [][Next]_vars
Two == done = 2
E1 == nodes[200]
E2 == nodes[201]
Old == IF row.x \in DOMAIN row.a THEN row.a[row.x] ELSE IF row.x \in {"mflags", "isclass"} THEN 0 ELSE IF row.x = "interfaces" THEN <<>> ELSE IF row.x = "access" THEN "default" ELSE ""
\* nothing changed: equal; a text of the same type: equal; anything else: not
NodeArg == row.f \in DOMAIN Args /\ row.x \in DOMAIN Args[row.f]
\* the underlying type macro is not there where there is an underlying type
Ignored == row.f = "enum" /\ row.x = "macro" /\ row.a.type # 0
SameKind(i, j) == i # 0 /\ j # 0 /\ nodes[i].t = nodes[j].t
Sees == Two /\ row.f # "body" => 
  IF Old = row.v \/ Ignored THEN Equal(E1, E2)
  ELSE IF NodeArg THEN
         (IF Equal(E1, E2) THEN SameKind(Old, row.v) /\ nodes[Old].t \in TextNodes \union Bodies
          ELSE ~ SameKind(Old, row.v) \/ nodes[Old].t \notin TextNodes \union Bodies)
  ELSE IF row.x \in {"entries"} THEN TRUE
  ELSE ~ Equal(E1, E2)
Relation == Two => Equal(E1, E1) /\ (Equal(E1, E2) = Equal(E2, E1))
Kinds == Two /\ Equal(E1, E2) => E1.t = E2.t
Counted == Two /\ row.f \in DOMAIN BodyType /\ Equal(E1, E2) => E1.num = E2.num
=============================================================================
