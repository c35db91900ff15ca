------------------------------ MODULE MCLexer ------------------------------
(* (1) Over every text of up to MaxLen characters of an alphabet: the tokens partition the text. (2) Every pair of lexemes with
   every separation. Both print the texts for the real code. *)
EXTENDS Lexer, Json
CONSTANTS MaxLen, Mode
Alpha == <<"a", "1", " ", "\n", "/", "*", "\"", "'", "\\", "#", ".", "<", ">", "=", "-", "e", "[", "]", ";", "&", ":">>
Lexemes == <<"x", "_a1", "struct", "extern", "static", "int", "unsigned", "float", "MM", "FM", "if", "define", "0", "42u", "0x1Fp-3", "1.5e+3f",
  ".5", "1'000", "3.", "'a'", "'\\''", "'\\\\'", "\"\"", "\"a b\"", "\"\\\"\"", "\"//\"", "\"\\\\\"", "// c", "/* c */", "/**/", "/*\n*/",
  "\n#define MM 1\n", "\n#define FM(a, ...) a \\\n b\n", "\n# include <v.h>\n", "\n#if X\n", "\n#else\n", "\n#endif\n", "\n#pragma once\n", "\n#error \"no\"\n">>
  \o [k \in 1..Len(PunctList) |-> PunctList[k][1]]
Seps == <<"", " ", "\t", "\n", "\r\n", "\n\n", "\n\n\n  ", "/* */", "//\n">>
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {""} ELSE LET T == Texts(n - 1) IN T \union {t \o Alpha[k] : t \in {u \in T : Len(u) = n - 1}, k \in 1..Len(Alpha)}
NoMacros == [x \in {} |-> 0]
VARIABLES text, toks
vars == <<text, toks>>
Pick == \/ Mode = "texts" /\ text \in Texts(MaxLen)
        \/ Mode = "pairs" /\ \E a, b \in 1..Len(Lexemes), k \in 1..Len(Seps) :
             text = Lexemes[a] \o Seps[k] \o Lexemes[b] \o (IF (a + b + k) % 3 = 0 THEN "" ELSE IF (a + b + k) % 3 = 1 THEN "\n" ELSE " ;\n\nMM FM( 1 )")
Init == Pick /\ toks = <<>> /\ Supported(text, NoMacros)
Next == toks = <<>> /\ toks' = Lex(text, NoMacros).toks /\ UNCHANGED text /\ PrintT(ToJson(text))
Spec == Init /\ [][Next]_vars
(* ---- the guarantee ---- *)
From(k) == toks[k][2] + 1
To(k) == toks[k][2] + toks[k][3]
Covered == UNION {From(k)..To(k) : k \in 1..Len(toks)}
Partition == toks # <<>> => /\ \A k \in 1..Len(toks) - 1 : To(k) < From(k + 1)
                            /\ \A i \in 1..Len(text) : i \notin Covered => Ch(text, i) \in Space
Nonempty == \A k \in 1..Len(toks) : toks[k][3] = 0 => toks[k][1] = "Preprocess_Content"
Placed == \A k \in 1..Len(toks) : /\ toks[k][4] = LineOf(Breaks(text), From(k)) /\ toks[k][5] = ColOf(Breaks(text), From(k)) /\ toks[k][5] >= 1
\* a token that stands alone is the same token
Context == {"Preprocess_Content", "Preprocess_Define_Param", "NewLine", "Attribute_Close", "Preprocess_Hash", "Decl_Extern_Linkage", "String", "Preprocess_Macro_Expr", "Identifier"}
Alone == \A k \in 1..Len(toks) : toks[k][1] \notin Context =>
           LET r == Lex(SubSeq(text, From(k), To(k)), NoMacros) IN ~ r.bad /\ r.toks[1][1] = toks[k][1] /\ r.toks[1][3] = toks[k][3]
=============================================================================
