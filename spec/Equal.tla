------------------------------- MODULE Equal -------------------------------
(* When two nodes are equal: when their descriptions are, where the content of a text (untyped code, bodies taken over verbatim,
   attributes, comments, directives) does not count - the library says it is verified by eye - nor do inline comments. *)
EXTENDS Sequences, Integers
TextNodes == {"Untyped", "Execution", "Comment", "PlatformAttributes", "Access_Private", "Access_Protected", "Access_Public", "NewLine", "Invalid", "Preprocess_Include",
              "Preprocess_If", "Preprocess_IfDef", "Preprocess_IfNotDef", "Preprocess_ElIf", "Preprocess_Else", "Preprocess_EndIf", "Preprocess_Pragma"}
RECURSIVE Norm(_)
Norm(d) ==
  IF d.t = "none" THEN <<"none">>
  ELSE IF d.t \in TextNodes THEN <<d.t>>
  ELSE IF d.t = "Specifiers" THEN <<d.t, d.n, d.w>>
  ELSE IF d.t \in {"Parameters", "Parameters_Define"} THEN
         <<d.t, [k \in 1..(IF d.num > 1 THEN Len(d.l) ELSE 1) |-> <<d.l[k].n, Norm(d.l[k].v), Norm(d.l[k].p), Norm(d.l[k].b), Norm(d.l[k].x)>>]>>
  ELSE IF "l" \in DOMAIN d THEN <<d.t, [k \in 1..Len(d.l) |-> Norm(d.l[k])]>>
  ELSE <<d.t, d.n, d.f, d.u, Norm(d.a), Norm(d.s), Norm(d.v), Norm(d.p), Norm(d.b), Norm(d.x), [k \in 1..Len(d.i) |-> Norm(d.i[k])]>>
Equal(d, e) == Norm(d) = Norm(e)
=============================================================================
