----------------------------- MODULE Malformed -----------------------------
(* What reading any text may come to.                                                                                              *)
(* A text is seen here as its shape: its brackets, what ends a statement (";"), a directive ("#"), anything else ("x"), in order.    *)
(* The reader keeps the brackets that are open. A text that was cut off can not be a whole declaration while one is open, nor while   *)
(* it does not end the way a declaration of its kind does.                                                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Opens == {"(", "[", "{"}
Closes == {")", "]", "}"}
Match(o, c) == <<o, c>> \in {<<"(", ")">>, <<"[", "]">>, <<"{", "}">>}
Wrong == <<"!">>

(* The pushdown automaton. *)
Step(st, t) == IF st = Wrong THEN Wrong
  ELSE IF t \in Opens THEN Append(st, t)
  ELSE IF t \in Closes THEN (IF Len(st) > 0 THEN (IF Match(st[Len(st)], t) THEN SubSeq(st, 1, Len(st) - 1) ELSE Wrong) ELSE Wrong)
  ELSE st
RECURSIVE Run(_, _, _)
Run(st, s, k) == IF k > Len(s) THEN st ELSE Run(Step(st, s[k]), s, k + 1)
OpenAt(s) == Run(<<>>, s, 1)

(* What it stands for: balanced texts. *)
RECURSIVE Balanced(_)
Balanced(s) == IF s = <<>> THEN TRUE
  ELSE IF s[1] \in Closes THEN FALSE
  ELSE IF s[1] \notin Opens THEN Balanced(Tail(s))
  ELSE \E k \in 2..Len(s) : IF Match(s[1], s[k]) THEN Balanced(SubSeq(s, 2, k - 1)) /\ Balanced(SubSeq(s, k + 1, Len(s))) ELSE FALSE

(* How the text of a declaration ends. *)
SemiKinds == {"class", "struct", "enum", "union", "friend", "typedef", "using", "variable"}
BlockKinds == {"constructor", "destructor", "function", "operator", "opcast", "template", "namespace", "extern", "export", "global"}
Enders(kind) == IF kind \in SemiKinds THEN {";"} ELSE {";", "}"}

(* A text that is the beginning of a declaration, cut off after some token. *)
Unfinished(kind, s) ==
  IF s = <<>> THEN kind # "global"                          \* (nothing but comments is a file)
  ELSE IF OpenAt(s) # <<>> THEN TRUE
  ELSE IF s[Len(s)] = "#" THEN FALSE                        \* a directive ends with its line
  ELSE IF kind \in SemiKinds \cup BlockKinds THEN s[Len(s)] \notin Enders(kind) ELSE FALSE

(* out: a node, the invalid node, refused (the process ends with a message). claim: what is known about the text: it is a whole       *)
(* declaration ("good"), the beginning of one ("cut"), or nothing ("any").                                                           *)
Outcomes(kind, s, claim) ==
  IF claim = "good" THEN {"node"}
  ELSE IF claim = "cut" /\ Unfinished(kind, s) THEN {"invalid", "refused"}
  ELSE {"node", "invalid", "refused"}

(* State: what came of the texts read so far. Reading one again, whatever was read in between, comes to the same. *)
VARIABLE known
MInit == known = <<>>
Key(kind, src) == <<kind, src>>
Same(kind, src, out, tree) == \A k \in 1..Len(known) : IF known[k][1] = Key(kind, src) THEN known[k][2] = out /\ known[k][3] = tree ELSE TRUE
MParse(kind, src, s, claim, out, tree, said) ==
  /\ out \in Outcomes(kind, s, claim)
  /\ IF out = "refused" THEN said ELSE TRUE                 \* the user is told why the process ends
  /\ Same(kind, src, out, tree)
  /\ known' = IF \E k \in 1..Len(known) : known[k][1] = Key(kind, src) THEN known ELSE Append(known, <<Key(kind, src), out, tree>>)
=============================================================================
