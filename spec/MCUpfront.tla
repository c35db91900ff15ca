----------------------------- MODULE MCUpfront -----------------------------
(* Every constructor with every argument in turn of every node type or absent, the others admissible or absent: a call is accepted
   or refused, what it makes says everything it was given, and nothing made before changes. Prints the calls for the real code. *)
EXTENDS Upfront, Json, FiniteSets
VARIABLES row, done
vars == <<nodes, cap, row, done>>
Types == << "Untyped", "NewLine", "Comment", "Access_Private", "Access_Protected", "Access_Public", "PlatformAttributes", "Class", "Class_Fwd", "Class_Body", "Constructor", "Constructor_Fwd",
  "Destructor", "Destructor_Fwd", "Enum", "Enum_Fwd", "Enum_Body", "Enum_Class", "Enum_Class_Fwd", "Execution", "Export_Body", "Extern_Linkage", "Extern_Linkage_Body", "Friend", "Function",
  "Function_Fwd", "Function_Body", "Global_Body", "Module", "Namespace", "Namespace_Body", "Operator", "Operator_Fwd", "Operator_Member", "Operator_Member_Fwd", "Operator_Cast",
  "Operator_Cast_Fwd", "Parameters", "Parameters_Define", "Preprocess_Define", "Preprocess_Include", "Preprocess_If", "Preprocess_IfDef", "Preprocess_IfNotDef", "Preprocess_ElIf",
  "Preprocess_Else", "Preprocess_EndIf", "Preprocess_Pragma", "Specifiers", "Struct", "Struct_Fwd", "Struct_Body", "Template", "Typedef", "Typename", "Union", "Union_Fwd", "Union_Body",
  "Using", "Using_Namespace", "Variable" >>
Index(t) == CHOOSE k \in 1..Len(Types) : Types[k] = t
\* the node arguments of every constructor, with one type each admits
Fields == [
  class |-> [attributes |-> "PlatformAttributes", specifiers |-> "Specifiers", parent |-> "Typename", body |-> "Class_Body"],
  struct |-> [attributes |-> "PlatformAttributes", specifiers |-> "Specifiers", parent |-> "Typename", body |-> "Struct_Body"],
  constructor |-> [params |-> "Parameters", body |-> "Function_Body"],
  destructor |-> [specifiers |-> "Specifiers", body |-> "Function_Body"],
  define |-> [params |-> "Parameters_Define"],
  enum |-> [type |-> "Typename", attributes |-> "PlatformAttributes", body |-> "Enum_Body"],
  extern |-> [body |-> "Extern_Linkage_Body"],
  namespace |-> [body |-> "Namespace_Body"],
  friend |-> [decl |-> "Class_Fwd"],
  function |-> [params |-> "Parameters", ret |-> "Typename", specifiers |-> "Specifiers", attributes |-> "PlatformAttributes", body |-> "Function_Body"],
  operator |-> [params |-> "Parameters", ret |-> "Typename", specifiers |-> "Specifiers", attributes |-> "PlatformAttributes", body |-> "Function_Body"],
  opcast |-> [type |-> "Typename", specifiers |-> "Specifiers", body |-> "Function_Body"],
  param |-> [type |-> "Typename", value |-> "Untyped"],
  template |-> [params |-> "Parameters", decl |-> "Class"],
  type |-> [attributes |-> "PlatformAttributes", specifiers |-> "Specifiers", array |-> "Untyped"],
  typedef |-> [type |-> "Typename", attributes |-> "PlatformAttributes"],
  union |-> [body |-> "Union_Body", attributes |-> "PlatformAttributes"],
  using |-> [type |-> "Typename", attributes |-> "PlatformAttributes"],
  variable |-> [type |-> "Typename", value |-> "Untyped", attributes |-> "PlatformAttributes", specifiers |-> "Specifiers"] ]
Required == [ c \in DOMAIN Fields |->
  CASE c \in {"extern", "namespace", "union"} -> {"body"} [] c \in {"friend", "template"} -> {"decl"} [] c = "operator" -> {"ret"}
    [] c \in {"opcast", "param", "typedef", "using", "variable"} -> {"type"} [] OTHER -> {} ]
Plain == {"attributes", "comment", "execution", "pragma", "cond", "include", "untyped", "module", "using_namespace"}
Lists == DOMAIN BodyType \union {"params", "define_params"}
Single(f) == IF f = "params" THEN "Parameters" ELSE IF f = "define_params" THEN "Parameters_Define" ELSE "Untyped"
NameOf(f) == IF f = "operator" THEN [which |-> "New", nspace |-> ""] ELSE [name |-> "N"]
Rows ==
  {[f |-> f, a |-> NameOf(f) @@ [x \in DOMAIN Fields[f] |-> IF x = k THEN t ELSE IF full \/ x \in Required[f] THEN Index(Fields[f][x]) ELSE 0]] :
     <<f, k, t, full>> \in UNION {{f} \X (DOMAIN Fields[f]) \X (0..Len(Types)) \X BOOLEAN : f \in DOMAIN Fields}}
  \union {[f |-> f, a |-> [name |-> ""] @@ [x \in DOMAIN Fields[f] |-> IF full \/ x \in Required[f] THEN Index(Fields[f][x]) ELSE 0]] : f \in DOMAIN Fields \ {"operator"}, full \in BOOLEAN}
  \union {[f |-> f, a |-> [name |-> n, text |-> n, lines |-> <<n>>, foreign |-> 0, kind |-> 0]] : f \in Plain, n \in {"", "q"}}
  \union {[f |-> f, a |-> [entries |-> e]] : f \in Lists, e \in {<<>>}}
  \union {[f |-> f, a |-> [entries |-> CASE w = 1 -> <<t>> [] w = 2 -> <<Index(Single(f)), t>> [] w = 3 -> <<t, Index(Single(f))>>]] :
            f \in Lists, t \in 0..Len(Types), w \in 1..3}
  \union {[f |-> "body", a |-> [kind |-> Types[t]]] : t \in 1..Len(Types)}
Fresh == [k \in 1..Len(Types) |-> Bare(Types[k], "x" \o ToString(k))]
Init == /\ row \in Rows /\ nodes = Fresh /\ cap = 14 /\ done = FALSE
        /\ PrintT(ToJson([f |-> row.f, a |-> row.a]))
Next == ~ done /\ done' = TRUE /\ Def(100, row.f, row.a) /\ UNCHANGED row
Spec == Init /\ [][Next]_vars
Made == 100 \in DOMAIN nodes
Out == nodes[100]
Parts(d) == {d[x] : x \in {"c", "a", "s", "v", "p", "b", "x"} \intersect DOMAIN d}
Given == {row.a[x] : x \in DOMAIN Fields[row.f]} \ {0}
\* whatever is given is in what is made
Complete == Made /\ row.f \in DOMAIN Fields /\ row.f # "param" => \A g \in Given : nodes[g] \in Parts(Out)
Entries == Made /\ row.f \in Lists => Len(Out.l) <= Len(row.a.entries) /\ Out.num = Len(Out.l)
NameKept == Made /\ "name" \in DOMAIN row.a /\ row.f \notin {"constructor", "destructor", "friend", "opcast", "template", "param", "attributes", "comment", "execution", "pragma", "cond", "include", "untyped"} => Out.n = row.a.name
FwdIffNoBody == Made /\ row.f \in {"class", "struct", "enum", "function", "operator", "constructor", "destructor", "opcast"} =>
  (row.a.body = 0) = (Out.t \in {"Class_Fwd", "Struct_Fwd", "Enum_Fwd", "Function_Fwd", "Operator_Fwd", "Operator_Member_Fwd", "Constructor_Fwd", "Destructor_Fwd", "Operator_Cast_Fwd"})
Others == \A k \in 1..Len(Types) : nodes[k] = Fresh[k]
\* each required argument is required, and each other one is not
Needs == done /\ row.f \in DOMAIN Fields => \A x \in Required[row.f] : row.a[x] = 0 => ~ Made
=============================================================================
