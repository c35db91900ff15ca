---------------------------- MODULE UpfrontTrace ----------------------------
(* Recorded calls of the upfront constructors: what was made (or that it was refused), and that no node made before changed. *)
EXTENDS Upfront, Syntax, TraceBase
tvars == <<l, uvars>>
TInit == l = 1 /\ nodes = [x \in {} |-> None] /\ cap = 0
TypeNode(n) == [Node("Typename", n, 0) EXCEPT !.u = ""]
Const(n) ==
  CASE n = "t_int" -> TypeNode("int") [] n = "t_bool" -> TypeNode("bool") [] n = "t_void" -> TypeNode("void") [] n = "t_auto" -> TypeNode("auto") [] n = "t_char" -> TypeNode("char")
    [] n = "access_public" -> Text("Access_Public", "public:\n", "") [] n = "access_private" -> Text("Access_Private", "private:\n", "")
    [] n = "fmt_newline" -> Text("NewLine", "", "") [] n = "preprocess_else" -> Text("Preprocess_Else", "", "") [] n = "preprocess_endif" -> Text("Preprocess_EndIf", "", "")
    [] n = "pragma_once" -> Text("Preprocess_Pragma", "once", "once") [] n = "attrib_api_export" -> Text("PlatformAttributes", "GEN_API_Export_Code", "GEN_API_Export_Code")
    [] n = "spec_const" -> Specs(<<"Const">>) [] n = "spec_inline" -> Specs(<<"Inline">>)
Appended(b, x) == LET q == b.l \o Flatten(<<x>>) IN [b EXCEPT !.l = q, !.num = Len(q)]
Do(e) ==
  CASE e.op = "Reset" -> nodes' = [x \in {} |-> None] /\ cap' = e.cap
    [] e.op = "mk" -> nodes' = With(e.id, Bare(e.t, e.n)) /\ e.r = nodes'[e.id] /\ UNCHANGED cap
    [] e.op = "const" -> nodes' = With(e.id, Const(e.t)) /\ e.r = nodes'[e.id] /\ UNCHANGED cap
    [] e.op = "def" -> /\ Def(e.id, e.f, e.a) /\ ~ e.null /\ e.inert
                       /\ e.refused = ~ Accepts(e.f, e.a)
                       /\ IF e.refused THEN TRUE ELSE e.r = nodes'[e.id]
    [] e.op = "dup" -> nodes' = With(e.id, D(e.src)) /\ e.r = nodes'[e.id] /\ UNCHANGED cap
    [] e.op = "eq" -> UNCHANGED uvars /\ e.r = (e.other # 0 /\ Equal(D(e.id), D(e.other)))
    [] e.op = "append" -> nodes' = With(e.id, Appended(D(e.id), D(e.other))) /\ e.r = nodes'[e.id] /\ UNCHANGED cap
    [] e.op = "valid" -> UNCHANGED uvars /\ e.r = ValidBody(D(e.id))
    [] e.op = "same" -> UNCHANGED uvars /\ e.id \in DOMAIN nodes /\ Canon(D(e.id), e.lx, "") = Canon(e.want, e.lx, "") /\ Toks(D(e.id), e.lx, "") = Toks(e.want, e.lx, "")
    [] e.op = "ser" -> UNCHANGED uvars /\ e.alike /\ IF Sensible(D(e.id)) THEN e.out = Toks(D(e.id), e.lx, "") ELSE TRUE
    [] e.op = "back" -> UNCHANGED uvars /\ IF Sensible(D(e.id)) THEN Canon(e.r, e.lx, "") = Canon(D(e.id), e.lx, "") ELSE TRUE
    [] e.op = "parse" -> /\ nodes' = With(e.id, e.r) /\ UNCHANGED cap
                         /\ IF e.plain THEN e.src = Toks(e.want, e.lx, "") ELSE TRUE
                         /\ Canon(e.r, e.lx, "") = Canon(e.want, e.lx, "")
                         /\ e.out = Toks(e.want, e.lx, "")
                         /\ Canon(e.r2, e.lx, "") = Canon(e.want, e.lx, "")
                         /\ e.again /\ e.alike          \* the functions and members of each type give the same text
    [] e.op = "none" -> UNCHANGED uvars
    [] OTHER -> FALSE
Observed(e) == IF e.op = "Reset" THEN TRUE ELSE e.changed = <<>>
TNext == HasEvent /\ Do(Ev) /\ Observed(Ev) /\ Advance
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
