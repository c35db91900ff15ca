------------------------------- MODULE Macros -------------------------------
(* What registered macros do to a source file. A file is a sequence of items; each uses a name in one form. What the item is
   read as depends on what is registered under the name at that moment. *)
EXTENDS Lexer
Args == "( 1, (b) )"
Body == " { x { y; } }"
\* an item: [form, name, args, semi, body, sp]; in: the scope it stands in
Use(it) == it.name \o IF it.args THEN Args ELSE ""
Tail_(it) == (IF it.body THEN Body ELSE "") \o (IF it.semi THEN it.sp \o ";" ELSE "")
Src(it) ==
  CASE it.form = "stmt"   -> Use(it) \o Tail_(it) \o "\n"
    [] it.form = "type"   -> Use(it) \o " x;\n"
    [] it.form = "fn"     -> Use(it) \o " f( " \o Use(it) \o " a );\n"
    [] it.form = "name"   -> "int " \o it.name \o ";\n"
    [] it.form = "fname"  -> "void " \o it.name \o "();\n"
    [] it.form = "pname"  -> "void f( int " \o it.name \o " );\n"
    [] it.form = "attr"   -> Use(it) \o " int x;\n"
    [] it.form = "fattr"  -> Use(it) \o " void f();\n"
    [] it.form = "param"  -> "void f( " \o Use(it) \o " int a, int b );\n"
    [] it.form = "param2" -> "void f( int a, int b " \o Use(it) \o " );\n"
    [] it.form = "value"  -> "int v = " \o Use(it) \o " + 1;\n"
    [] it.form = "spec"   -> "virtual void f() " \o Use(it) \o ";\n"
    [] it.form = "def"    -> "static " \o Use(it) \o "\n"
    [] it.form = "define" -> "#define " \o it.name \o (IF it.args THEN "( p, q ) p + q\n" ELSE " 1\n")
    [] it.form = "enum"   -> "enum E { A " \o Use(it) \o ", B };\n"
    [] it.form = "typedef" -> "typedef " \o Use(it) \o " Q;\n"
\* what is read: kind and text; text of anything but a macro statement is given without white space
UseN(it) == it.name \o IF it.args THEN "(1,(b))" ELSE ""
Exp(it) ==
  CASE it.form = "stmt"   -> <<"Untyped", Use(it) \o Tail_(it)>>
    [] it.form = "type"   -> <<"Variable", UseN(it) \o "x;">>
    [] it.form = "fn"     -> <<"Function_Fwd", UseN(it) \o "f(" \o UseN(it) \o "a);">>
    [] it.form = "name"   -> <<"Variable", "int" \o it.name \o ";">>
    [] it.form = "fname"  -> <<"Function_Fwd", "void" \o it.name \o "();">>
    [] it.form = "pname"  -> <<"Function_Fwd", "voidf(int" \o it.name \o ");">>
    [] it.form = "attr"   -> <<"Variable", UseN(it) \o "intx;">>
    [] it.form = "fattr"  -> <<"Function_Fwd", UseN(it) \o "voidf();">>
    [] it.form = "param"  -> <<"Function_Fwd", "voidf(" \o UseN(it) \o "inta,intb);">>
    [] it.form = "param2" -> <<"Function_Fwd", "voidf(inta,intb" \o UseN(it) \o ");">>
    [] it.form = "value"  -> <<"Variable", "intv=" \o UseN(it) \o "+1;">>
    [] it.form = "spec"   -> <<"Function_Fwd", "virtualvoidf()" \o UseN(it) \o ";">>
    [] it.form = "def"    -> <<"Untyped", " static  " \o Use(it)>>
    [] it.form = "define" -> <<"Preprocess_Define", "#define" \o it.name \o (IF it.args THEN "(p,q)p+q" ELSE "1")>>
    [] it.form = "enum"   -> <<"Enum", "enumE{A" \o UseN(it) \o ",B};">>
    [] it.form = "typedef" -> <<"Typedef", "typedef" \o UseN(it) \o "Q;">>
\* the form is one the name may be used in under a registry
Is(reg, it, kind) == IsMacro(reg, it.name, it.args) /\ reg[it.name].kind = kind
Flag(reg, it, bit) == Has(reg[it.name].flags, bit)
Plain(reg, it) == ~ it.args /\ ~ IsMacro(reg, it.name, FALSE)            \* an ordinary identifier where it has no arguments
\* (one also allowed as attribute or specifier may be read as that instead)
Ident(reg, it) == IF Plain(reg, it) THEN TRUE ELSE IsMacro(reg, it.name, FALSE) /\ Flag(reg, it, 4) /\ ~ Flag(reg, it, 8) /\ ~ Flag(reg, it, 32)
\* followed by "(" a functional macro is one whatever the place
CallIdent(reg, it) == ~ IsMacro(reg, it.name, TRUE) /\ Ident(reg, it)
Fits(reg, it, in) ==
  CASE it.form = "stmt"   -> /\ Is(reg, it, "stmt") /\ (it.body => Flag(reg, it, 2) /\ ~ it.semi)
                             /\ in \in {"global", "namespace", "struct", "class", "extern"}
    [] it.form \in {"type", "fn", "typedef"} -> Is(reg, it, "type") \/ Plain(reg, it)
    [] it.form \in {"name", "pname"} -> ~ it.args /\ Ident(reg, it)
    [] it.form = "fname"  -> ~ it.args /\ CallIdent(reg, it)
    [] it.form \in {"attr", "fattr"} -> Is(reg, it, "expr") /\ Flag(reg, it, 8)
    [] it.form \in {"param", "param2"} -> Is(reg, it, "expr")
    [] it.form = "value"  -> TRUE
    [] it.form = "spec"   -> Is(reg, it, "expr") /\ Flag(reg, it, 32) /\ in \in {"struct", "class"}
    [] it.form = "def"    -> Is(reg, it, "stmt") /\ Flag(reg, it, 16) /\ ~ Flag(reg, it, 2)
    [] it.form = "define" -> TRUE
    [] it.form = "enum"   -> Is(reg, it, "expr") /\ it.args
After(reg, it) == IF it.form = "define" /\ it.name \notin DOMAIN reg
                  THEN Put(reg, it.name, [kind |-> "expr", flags |-> IF it.args THEN 1 ELSE 0]) ELSE reg
Open(in) == CASE in = "global" -> "" [] in = "namespace" -> "namespace S {\n" [] in = "struct" -> "struct S {\n" [] in = "class" -> "class S {\n" [] in = "extern" -> "extern \"C\" {\n"
Close(in) == CASE in = "global" -> "" [] in \in {"namespace", "extern"} -> "}\n" [] OTHER -> "};\n"
ScopeKind(in) == CASE in = "namespace" -> "Namespace" [] in = "struct" -> "Struct" [] in = "class" -> "Class" [] in = "extern" -> "Extern_Linkage"
RECURSIVE Srcs(_), Exps(_), AllFit(_, _, _), Afters(_, _)
Srcs(q) == IF q = <<>> THEN "" ELSE Src(Head(q)) \o Srcs(Tail(q))
Exps(q) == IF q = <<>> THEN <<>> ELSE <<Exp(Head(q))>> \o Exps(Tail(q))
AllFit(reg, q, in) == IF q = <<>> THEN TRUE ELSE Fits(reg, Head(q), in) /\ AllFit(After(reg, Head(q)), Tail(q), in)
Afters(reg, q) == IF q = <<>> THEN reg ELSE Afters(After(reg, Head(q)), Tail(q))
FileSrc(in, q) == Open(in) \o Srcs(q) \o Close(in) \o "int last;\n"
FileExp(in, q) == (IF in = "global" THEN Exps(q) ELSE <<<<ScopeKind(in), IF in = "extern" THEN "C" ELSE "S">>>> \o Exps(q) \o <<<<"end", "">>>>) \o <<<<"Variable", "intlast;">>>>
=============================================================================
