------------------------------ MODULE MCMacros ------------------------------
(* Registrations and files, exhaustively: every registration (and re-registration) of a name followed by every file of one item,
   or two, that fits it. Checks that the lexer sees a macro in a file exactly where the registry says so. *)
EXTENDS Macros, Json
CONSTANTS Regs, Files
VARIABLES reg, hist
vars == <<reg, hist>>
Flags == {0, 1, 2, 3, 4, 5, 8, 9, 12, 16, 17, 32, 33}
Kinds == {"stmt", "expr", "type"}
Forms == {"stmt", "type", "fn", "name", "fname", "pname", "attr", "fattr", "param", "param2", "value", "spec", "def", "define", "enum", "typedef"}
\* flags that only mean something for some kinds
Sensible(kind, flags) == /\ Has(flags, 2) => kind = "stmt"
                         /\ Has(flags, 8) \/ Has(flags, 32) => kind = "expr"
                         /\ Has(flags, 16) => kind = "stmt"
Item(f, n, a, s, b, sp) == [form |-> f, name |-> n, args |-> a, semi |-> s, body |-> b, sp |-> sp]
Items(n) == {Item(f, n, a, FALSE, FALSE, "") : f \in Forms, a \in BOOLEAN} \union {Item("stmt", n, a, TRUE, FALSE, sp) : a \in BOOLEAN, sp \in {"", " ", "\n"}}
            \union {Item("stmt", n, a, FALSE, TRUE, "") : a \in BOOLEAN}
Scopes == {"global", "namespace", "struct", "class", "extern"}
NumOf(op) == Cardinality({k \in 1..Len(hist) : hist[k][1] = op})
Init == reg = [x \in {} |-> 0] /\ hist = <<>>
Register(n) == /\ NumOf("reg") < Regs /\ NumOf("file") = 0
               /\ \E k \in Kinds, f \in Flags : Sensible(k, f) /\ reg' = Put(reg, n, [kind |-> k, flags |-> f]) /\ hist' = Append(hist, <<"reg", n, k, f>>)
File(n) == /\ NumOf("file") < Files
           /\ \E in \in Scopes, it \in Items(n) : /\ Fits(reg, it, in) /\ reg' = After(reg, it) /\ hist' = Append(hist, <<"file", in, <<it>>>>)
Next == Register("AA") \/ File("AA")
Spec == Init /\ [][Next]_vars
Last == hist[Len(hist)]
MacroKinds == {"Preprocess_Macro_Stmt", "Preprocess_Macro_Expr", "Preprocess_Macro_Typename"}
\* the registry before the last step decides the tokens of the file
Prior == [x \in {} |-> 0]
Seen == (hist # <<>> /\ Last[1] = "file" /\ Last[3][1].form # "define") =>
          LET it == Last[3][1]
              s == FileSrc(Last[2], Last[3])
              r == Lex(s, reg)
              named == {k \in 1..Len(r.toks) : SubSeq(s, r.toks[k][2] + 1, r.toks[k][2] + r.toks[k][3]) = "AA"}
          IN ~ r.bad /\ \A k \in named :
               LET args == Ch(s, r.toks[k][2] + 3) = "("
               IN r.toks[k][1] = IF IsMacro(reg, "AA", args) THEN MacroKind(reg["AA"].kind) ELSE "Identifier"
Known == \A n \in DOMAIN reg : reg[n].kind \in Kinds
Emit == (hist # <<>> /\ Last[1] = "file") => PrintT(ToJson(hist))
=============================================================================
