------------------------------- MODULE Lexer -------------------------------
(* The lexer: from a source text and the macros registered at that moment to the sequence of its tokens.

   A token is <<kind, offset, length, line, column, macro flags>>. The lexer is a machine that stands at a position of the text
   and takes one token (one directive) at a time, the longest there is (as in C++); what is between tokens is white space. A text
   this specification gives no tokens for (unfinished literals, stray characters, spellings outside the supported language) is
   not Supported. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
            "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "_"}
Word == Digits \union Letters
Space == {" ", "\t", "\f", "\r", "\n"}
Flat == {" ", "\t", "\f"}                  \* white space within a line

\* words with a kind of their own
KeywordList == <<
  <<"private", "Access_Private">>, <<"protected", "Access_Protected">>, <<"public", "Access_Public">>, <<"class", "Decl_Class">>,
  <<"__attribute__", "Decl_GNU_Attribute">>, <<"__declspec", "Decl_MSVC_Attribute">>, <<"enum", "Decl_Enum">>, <<"friend", "Decl_Friend">>,
  <<"module", "Decl_Module">>, <<"namespace", "Decl_Namespace">>, <<"operator", "Decl_Operator">>, <<"struct", "Decl_Struct">>,
  <<"template", "Decl_Template">>, <<"typedef", "Decl_Typedef">>, <<"using", "Decl_Using">>, <<"union", "Decl_Union">>,
  <<"import", "Module_Import">>, <<"export", "Module_Export">>,
  <<"define", "Preprocess_Define">>, <<"if", "Preprocess_If">>, <<"ifdef", "Preprocess_IfDef">>, <<"ifndef", "Preprocess_IfNotDef">>,
  <<"elif", "Preprocess_ElIf">>, <<"else", "Preprocess_Else">>, <<"endif", "Preprocess_EndIf">>, <<"include", "Preprocess_Include">>,
  <<"pragma", "Preprocess_Pragma">>,
  <<"alignas", "Spec_Alignas">>, <<"const", "Spec_Const">>, <<"consteval", "Spec_Consteval">>, <<"constexpr", "Spec_Constexpr">>,
  <<"constinit", "Spec_Constinit">>, <<"explicit", "Spec_Explicit">>, <<"final", "Spec_Final">>, <<"forceinline", "Spec_ForceInline">>,
  <<"global", "Spec_Global">>, <<"inline", "Spec_Inline">>, <<"internal", "Spec_Internal_Linkage">>, <<"local_persist", "Spec_LocalPersist">>,
  <<"mutable", "Spec_Mutable">>, <<"neverinline", "Spec_NeverInline">>, <<"noexcept", "Spec_NoExceptions">>, <<"override", "Spec_Override">>,
  <<"restrict", "Spec_Restrict">>, <<"static", "Spec_Static">>, <<"thread_local", "Spec_ThreadLocal">>, <<"volatile", "Spec_Volatile">>,
  <<"virtual", "Spec_Virtual">>, <<"static_assert", "StaticAssert">>, <<"typename", "Type_Typename">>, <<"unsigned", "Type_Unsigned">>,
  <<"signed", "Type_Signed">>, <<"short", "Type_Short">>, <<"long", "Type_Long">>, <<"bool", "Type_bool">>, <<"char", "Type_char">>,
  <<"int", "Type_int">>, <<"double", "Type_double">>, <<"__int8", "Type_MS_int8">>, <<"__int16", "Type_MS_int16">>,
  <<"__int32", "Type_MS_int32">>, <<"__int64", "Type_MS_int64">>, <<"_W64", "Type_MS_W64">>, <<"GEN_API", "Attribute_GEN_API">> >>
PunctList == <<
  <<".", "Access_MemberSymbol">>, <<"::", "Access_StaticSymbol">>, <<"&", "Ampersand">>, <<"&=", "Ampersand">>, <<"&&", "Ampersand_DBL">>,
  <<":", "Assign_Classifer">>, <<"[[", "Attribute_Open">>, <<"{", "BraceCurly_Open">>, <<"}", "BraceCurly_Close">>,
  <<"[", "BraceSquare_Open">>, <<"]", "BraceSquare_Close">>, <<"(", "Paren_Open">>, <<")", "Paren_Close">>, <<",", "Comma">>,
  <<"*", "Star">>, <<"*=", "Star">>, <<";", "Statement_End">>, <<"...", "Varadic_Argument">>, <<"[]", "Operator">>,
  <<"+", "Operator">>, <<"++", "Operator">>, <<"+=", "Operator">>, <<"-", "Operator">>, <<"--", "Operator">>, <<"-=", "Operator">>,
  <<"->", "Operator">>, <<"->*", "Operator">>, <<"%", "Operator">>, <<"%=", "Operator">>, <<"^", "Operator">>, <<"^=", "Operator">>,
  <<"~", "Operator">>, <<"!", "Operator">>, <<"!=", "Operator">>, <<"<", "Operator">>, <<"<<", "Operator">>, <<"<=", "Operator">>,
  <<"<<=", "Operator">>, <<">", "Operator">>, <<">>", "Operator">>, <<">=", "Operator">>, <<">>=", "Operator">>, <<"|", "Operator">>,
  <<"||", "Operator">>, <<"|=", "Operator">>, <<"=", "Operator">>, <<"==", "Operator">>, <<"?", "Operator">>, <<"/", "Operator">>,
  <<"/=", "Operator">> >>
MapOf(q) == [t \in {q[k][1] : k \in 1..Len(q)} |-> (CHOOSE k \in 1..Len(q) : q[k][1] = t)]
KeywordAt == MapOf(KeywordList)
PunctAt == MapOf(PunctList)
Keywords == DOMAIN KeywordAt
KeywordKind(t) == KeywordList[KeywordAt[t]][2]
PunctKind(t) == PunctList[PunctAt[t]][2]
Directives == {"define", "if", "ifdef", "ifndef", "elif", "else", "endif", "include", "pragma"}

(* ---- the text ---- *)
Ch(s, i) == IF i >= 1 /\ i <= Len(s) THEN SubSeq(s, i, i) ELSE ""
At(s, i, t) == i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t
RECURSIVE Skip(_, _, _)
Skip(s, i, C) == IF Ch(s, i) \in C THEN Skip(s, i + 1, C) ELSE i
LineEnd(s, i) == IF At(s, i, "\r\n") THEN 2 ELSE IF Ch(s, i) = "\n" THEN 1 ELSE 0
EndLine(s, i) == LET k == Skip(s, i, {" "}) IN k + LineEnd(s, k)
Splice(s, i) == IF Ch(s, i) = "\\" /\ LineEnd(s, i + 1) > 0 THEN 1 + LineEnd(s, i + 1) ELSE 0
RECURSIVE SkipSpliced(_, _)                \* white space within a logical line
SkipSpliced(s, i) == IF Ch(s, i) \in Flat THEN SkipSpliced(s, i + 1) ELSE IF Splice(s, i) > 0 THEN SkipSpliced(s, i + Splice(s, i)) ELSE i
Breaks(s) == {k \in 1..Len(s) : Ch(s, k) = "\n"}
Before(nl, i) == {k \in nl : k < i}
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A n \in S : n <= m
LineOf(nl, i) == 1 + Cardinality(Before(nl, i))
ColOf(nl, i) == i - MaxOf(Before(nl, i))

(* ---- where the token that starts at i ends (the position after it); 0 if it does not ---- *)
RECURSIVE LitEnd(_, _, _)                  \* i is past the opening quote q
LitEnd(s, i, q) == LET c == Ch(s, i) IN
  IF c = "" \/ c = "\n" THEN 0
  ELSE IF c = q THEN i + 1
  ELSE IF c = "\\" THEN LitEnd(s, i + 2, q)
  ELSE LitEnd(s, i + 1, q)
RECURSIVE NumEnd(_, _)                     \* i is past the first character
NumEnd(s, i) == LET c == Ch(s, i) IN
  IF c \in Word \union {"."} THEN NumEnd(s, i + 1)
  ELSE IF c \in {"+", "-"} /\ Ch(s, i - 1) \in {"e", "E", "p", "P"} THEN NumEnd(s, i + 1)
  ELSE IF c = "'" /\ Ch(s, i + 1) \in Word THEN NumEnd(s, i + 2)
  ELSE i
RECURSIVE LineCommentEnd(_, _)
LineCommentEnd(s, i) ==
  IF i > Len(s) THEN i
  ELSE IF Splice(s, i) > 0 THEN 0
  ELSE IF LineEnd(s, i) > 0 THEN i + LineEnd(s, i)
  ELSE IF Ch(s, i) = "\r" THEN 0
  ELSE LineCommentEnd(s, i + 1)
RECURSIVE BlockCommentEnd(_, _)
BlockCommentEnd(s, i) ==
  IF i >= Len(s) THEN 0
  ELSE IF At(s, i, "*/") THEN i + 2 + LineEnd(s, i + 2)
  ELSE BlockCommentEnd(s, i + 1)
\* the end of the logical line, q: the quote of the literal the position is in, or ""
RECURSIVE ContentEnd(_, _, _)
ContentEnd(s, i, q) == LET c == Ch(s, i) IN
  IF c = "" \/ LineEnd(s, i) > 0 THEN i
  ELSE IF Splice(s, i) > 0 THEN ContentEnd(s, i + Splice(s, i), q)
  ELSE IF c = "\r" THEN 0
  ELSE IF c = "\\" THEN IF q = "" \/ i = Len(s) THEN 0 ELSE ContentEnd(s, i + 2, q)
  ELSE IF q = "" /\ At(s, i, "/*") THEN 0
  ELSE IF c \in {"\"", "'"} THEN ContentEnd(s, i + 1, IF q = "" THEN c ELSE IF q = c THEN "" ELSE q)
  ELSE ContentEnd(s, i + 1, q)

(* ---- macros: name -> [kind, flags], flags: 1 functional, 2 expects a body, 4 may stand for an identifier, 8 for an attribute, 16 for a
   definition, 32 for a specifier ---- *)
MacroKind(k) == IF k = "stmt" THEN "Preprocess_Macro_Stmt" ELSE IF k = "type" THEN "Preprocess_Macro_Typename" ELSE "Preprocess_Macro_Expr"
Has(flags, bit) == (flags \div bit) % 2 = 1
\* an identifier is a macro if it is registered, and given arguments exactly if it takes some
IsMacro(reg, name, args) == name \in DOMAIN reg /\ Has(reg[name].flags, 1) = args
MacroFlags(reg, name, args) == (IF args THEN 1 ELSE 0) + (IF Has(reg[name].flags, 8) THEN 2 ELSE 0) + (IF Has(reg[name].flags, 32) THEN 4 ELSE 0)
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]

(* ---- the machine: [i, att, toks, reg, bad] ---- *)
Tok(nl, kind, i, e, x) == <<kind, i - 1, e - i, LineOf(nl, i), ColOf(nl, i), x>>
Give(st, e, new) == [st EXCEPT !.i = e, !.toks = @ \o new]
Bad(st) == [st EXCEPT !.bad = TRUE]
\* a line end right here is a token
NewLine(s, nl, st) == IF LineEnd(s, st.i) > 0 THEN Give(st, st.i + LineEnd(s, st.i), <<Tok(nl, "NewLine", st.i, st.i + LineEnd(s, st.i), 0)>>) ELSE st

RECURSIVE Params(_, _, _, _, _)            \* the parameters of a #define: [e, toks], e = 0 if ill-formed
Params(s, nl, i0, toks, first) ==
  LET i == SkipSpliced(s, i0)
      no == [e |-> 0, toks |-> toks]
      close(k, t) == IF Ch(s, k) = ")" THEN [e |-> k + 1, toks |-> Append(t, Tok(nl, "Paren_Close", k, k + 1, 0))] ELSE no
  IN IF At(s, i, "...") THEN close(SkipSpliced(s, i + 3), Append(toks, Tok(nl, "Preprocess_Define_Param", i, i + 3, 0)))
     ELSE IF Ch(s, i) \in Letters THEN
       LET e == Skip(s, i, Word)
           k == SkipSpliced(s, e)
           t == Append(toks, Tok(nl, "Preprocess_Define_Param", i, e, 0))
       IN IF Ch(s, k) = "," THEN Params(s, nl, k + 1, Append(t, Tok(nl, "Comma", k, k + 1, 0)), FALSE) ELSE close(k, t)
     ELSE IF first THEN close(i, toks) ELSE no

Content(s, nl, st, k) == LET e == ContentEnd(s, k, "") IN
  IF e = 0 THEN Bad(st) ELSE NewLine(s, nl, Give(st, e, <<Tok(nl, "Preprocess_Content", k, e, 0)>>))
\* the rest of a directive: st stands after its name, which is given already
Define(s, nl, st) ==
  LET n == Skip(s, st.i, Flat)
      e == Skip(s, n, Word)
      name == SubSeq(s, n, e - 1)
      fn == Ch(s, e) = "("
      st1 == [Give(st, e, <<Tok(nl, "Identifier", n, e, 0)>>)
              EXCEPT !.reg = IF name \in DOMAIN st.reg THEN st.reg ELSE Put(st.reg, name, [kind |-> "expr", flags |-> IF fn THEN 1 ELSE 0])]
      p == Params(s, nl, e + 1, <<Tok(nl, "Paren_Open", e, e + 1, 0)>>, TRUE)
  IN IF Ch(s, n) \notin Letters THEN Bad(st)
     ELSE IF ~ fn THEN Content(s, nl, st1, e)
     ELSE IF p.e = 0 THEN Bad(st) ELSE Content(s, nl, Give(st1, p.e, p.toks), p.e)
Include(s, nl, st) ==
  LET k == Skip(s, st.i, Flat)
      e == Skip(s, k + 1, Word \union {".", "/", "-", "+", " "})
      want == IF Ch(s, k) = "<" THEN ">" ELSE "\""
  IN IF Ch(s, k) \notin {"<", "\""} \/ Ch(s, e) # want THEN Bad(st)
     ELSE NewLine(s, nl, LET g == Give(st, e + 1, <<Tok(nl, "String", k, e + 1, 0)>>) IN [g EXCEPT !.i = @ + LineEnd(s, e + 1)])
Directive(s, nl, st, h) ==                 \* h: where the hash is
  LET n == Skip(s, h + 1, Flat)
      e == Skip(s, n, Word)
      name == SubSeq(s, n, e - 1)
      st1 == Give(st, e, <<Tok(nl, "Preprocess_Hash", h, h + 1, 0), Tok(nl, KeywordKind(name), n, e, 0)>>)
  IN IF Ch(s, n) \notin Letters \/ Skip(s, IF Before(nl, h) = {} THEN 1 ELSE MaxOf(Before(nl, h)) + 1, Flat) # h THEN Bad(st)
     ELSE IF name \notin Directives
       THEN LET c == ContentEnd(s, e, "")
            IN IF c = 0 THEN Bad(st)
               ELSE NewLine(s, nl, Give(st, c + LineEnd(s, c), <<Tok(nl, "Preprocess_Unsupported", h, c + LineEnd(s, c), 0)>>))
     ELSE IF name \in {"else", "endif"} THEN NewLine(s, nl, [st1 EXCEPT !.i = EndLine(s, e)])
     ELSE IF LineEnd(s, Skip(s, e, Flat)) > 0 \/ Skip(s, e, Flat) > Len(s) THEN Bad(st)
     ELSE IF name = "define" THEN Define(s, nl, st1)
     ELSE IF name = "include" THEN Include(s, nl, st1)
     ELSE Content(s, nl, st1, Skip(s, e, Flat))

WordTok(s, nl, st, i) ==
  LET e == Skip(s, i, Word)
      t == SubSeq(s, i, e - 1)
      args == Ch(s, e) = "("
      after == Skip(s, e, Space)
      one(kind, x) == Give(st, e, <<Tok(nl, kind, i, e, x)>>)
  IN IF Ch(s, e) \in {"\"", "'"} /\ t # "extern" THEN Bad(st)          \* prefixed literals
     ELSE IF t = "extern" THEN one(IF Ch(s, after) = "\"" THEN "Decl_Extern_Linkage" ELSE "Spec_Extern", 0)
     ELSE IF t \in Keywords THEN one(KeywordKind(t), 0)
     ELSE IF IsMacro(st.reg, t, args)
       THEN LET k == MacroKind(st.reg[t].kind)
                g == one(k, MacroFlags(st.reg, t, args))
            IN IF k = "Preprocess_Macro_Typename" THEN g ELSE NewLine(s, nl, g)
     ELSE one("Identifier", 0)
Longest(s, i) == IF i + 2 <= Len(s) /\ SubSeq(s, i, i + 2) \in DOMAIN PunctAt THEN 3
                 ELSE IF i + 1 <= Len(s) /\ SubSeq(s, i, i + 1) \in DOMAIN PunctAt THEN 2
                 ELSE IF Ch(s, i) \in DOMAIN PunctAt THEN 1 ELSE 0
PunctTok(s, nl, st, i) ==
  LET n == Longest(s, i)
      t == SubSeq(s, i, i + n - 1)
      g == Give(st, i + n, <<Tok(nl, PunctKind(t), i, i + n, 0)>>)
  IN IF n = 0 \/ At(s, i, "<=>") \/ At(s, i, ".*") \/ (At(s, i, "..") /\ n # 3) \/ At(s, i, "<:") \/ At(s, i, "<%") \/ At(s, i, "%>") \/ At(s, i, "%:") \/ At(s, i, ":>") THEN Bad(st)
     ELSE IF st.att /\ At(s, i, "]]") THEN [Give(st, i + 2, <<Tok(nl, "Attribute_Close", i, i + 2, 0)>>) EXCEPT !.att = FALSE]
     ELSE IF t = "[[" THEN [g EXCEPT !.att = TRUE]
     ELSE IF t \in {";", "}"} THEN [g EXCEPT !.i = EndLine(s, i + n)]
     ELSE g
Piece(s, nl, st, i, kind, e) == IF e = 0 THEN Bad(st) ELSE Give(st, e, <<Tok(nl, kind, i, e, 0)>>)
Step(s, nl, st) ==
  IF ColOf(nl, st.i) = 1 /\ LineEnd(s, st.i) > 0 THEN NewLine(s, nl, st)         \* an empty line
  ELSE LET i == Skip(s, st.i, Space)
           c == Ch(s, i)
       IN IF c = "" THEN [st EXCEPT !.i = i]
          ELSE IF c = "#" THEN Directive(s, nl, st, i)
          ELSE IF At(s, i, "//") THEN Piece(s, nl, st, i, "Comment", LineCommentEnd(s, i + 2))
          ELSE IF At(s, i, "/*") THEN Piece(s, nl, st, i, "Comment", BlockCommentEnd(s, i + 2))
          ELSE IF c = "\"" THEN Piece(s, nl, st, i, "String", IF Ch(s, LitEnd(s, i + 1, c)) \in Letters THEN 0 ELSE LitEnd(s, i + 1, c))
          ELSE IF c = "'" THEN Piece(s, nl, st, i, "Char", IF LitEnd(s, i + 1, c) = i + 2 \/ Ch(s, LitEnd(s, i + 1, c)) \in Letters THEN 0 ELSE LitEnd(s, i + 1, c))
          ELSE IF c \in Digits \/ (c = "." /\ Ch(s, i + 1) \in Digits) THEN Piece(s, nl, st, i, "Number", NumEnd(s, i + 1))
          ELSE IF c \in Letters THEN WordTok(s, nl, st, i)
          ELSE PunctTok(s, nl, st, i)
RECURSIVE Run(_, _, _)
Run(s, nl, st) == IF st.bad \/ st.i > Len(s) THEN st ELSE Run(s, nl, Step(s, nl, st))
\* leading white space is skipped, empty lines included
Lex(s, reg) == Run(s, Breaks(s), [i |-> Skip(s, 1, Space), att |-> FALSE, toks |-> <<>>, reg |-> reg, bad |-> FALSE])
Supported(s, reg) == LET r == Lex(s, reg) IN ~ r.bad /\ r.toks # <<>>
=============================================================================
