"""Random declarations of the supported C++, as descriptions (the shape harness/ast.hpp reports), their source text in many layouts, and the constructor calls that build them."""
import json, re
from vf import hexs

NONE = {"t": "none"}
SPELL = dict(Consteval="consteval", Constexpr="constexpr", Constinit="constinit", Explicit="explicit", External_Linkage="extern", ForceInline="forceinline", Global="global", Inline="inline",
             Internal_Linkage="internal", Local_Persist="local_persist", Mutable="mutable", NeverInline="neverinline", Ptr="*", Ref="&", Register="register", Restrict="restrict", RValue="&&", Static="static",
             Thread_Local="thread_local", Virtual="virtual", Const="const", Final="final", NoExceptions="noexcept", Override="override", Pure="= 0", Delete="= delete", Volatile="volatile")
TRAILING = "Const Final NoExceptions Override Pure Delete Volatile".split()
OPS = dict(Assign="=", Assign_Add="+=", Assign_Subtract="-=", Assign_Multiply="*=", Assign_Divide="/=", Assign_Modulo="%=", Assign_BAnd="&=", Assign_BOr="|=", Assign_BXOr="^=", Assign_LShift="<<=",
           Assign_RShift=">>=", Increment="++", Decrement="--", Unary_Plus="+", Unary_Minus="-", UnaryNot="!", Add="+", Subtract="-", Multiply="*", Divide="/", Modulo="%", BNot="~", BAnd="&", BOr="|",
           BXOr="^", LShift="<<", RShift=">>", LAnd="&&", LOr="||", LEqual="==", LNot="!=", Lesser="<", Greater=">", LesserEqual="<=", GreaterEqual=">=", Subscript="[]", Indirection="*", AddressOf="&",
           MemberOfPointer="->", PtrToMemOfPtr="->*", FunctionCall="()", Comma=",", New="new", NewArray="new[]", Delete="delete", DeleteArray="delete[]")
BINARY = "Add Subtract Multiply Divide Modulo BAnd BOr BXOr LShift RShift LAnd LOr LEqual LNot Lesser Greater LesserEqual GreaterEqual PtrToMemOfPtr Comma".split()
ASSIGNS = [o for o in OPS if o.startswith("Assign_")]
UNARY = "Unary_Plus Unary_Minus UnaryNot BNot Indirection AddressOf".split()


def node(t, n="", f=0, u="0", **kw):
    d = {"t": t, "n": n, "f": f, "u": u, "c": NONE, "a": NONE, "s": NONE, "v": NONE, "p": NONE, "b": NONE, "x": NONE, "i": []}
    d.update(kw)
    return d


def text(t, k, n=""): return {"t": t, "n": n, "f": 0, "k": k}
def untyped(k): return text("Untyped", k, k)
def body(t, l): return {"t": t, "n": "", "f": 0, "num": len(l), "l": l, "ends": True}
def specs(w): return {"t": "Specifiers", "n": "", "f": 0, "num": len(w), "w": w} if w else NONE
def entry(n, v, b=NONE, p=NONE, x=NONE): return {"n": n, "v": v, "p": p, "b": b, "x": x}
def params(l): return {"t": "Parameters", "n": l[0]["n"], "f": 0, "num": len(l), "l": l} if l else NONE
def typ(n, s=(), tag="", arr=(), a=NONE): return node("Typename", n, u=tag, s=specs(list(s)), b=untyped(arr[0]) if arr else NONE, i=[untyped(x) for x in arr[1:]], a=a)


# ------------------------------------------------------------------ lexemes in the order the library writes them
LEX = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|//[^\n]*\n?|/\*.*?\*/|\.?\d(?:[eEpP][+-]|[\w.\'])*|[A-Za-z_$\x80-\xff][\w$\x80-\xff]*|\.\.\.|<<=|->\*|::|->|\+\+|--|<<|<=|==|!=|&&|\|\||[-+*/%&|^]=|##|>>=|>=|>>|\[\[|\]\]|\S', re.S)


def lex(s): return [x for x in LEX.findall(s) if not x.startswith(("//", "/*"))]


class Out:
    """the lexemes of a description; `mark` says where a comment may stand ('|'), and lines ('\\n')"""
    def __init__(self, rng=None, style=()):
        self.o, self.rng, self.style, self.plain = [], rng, style, True

    def t(self, *xs): self.o.extend(xs); return self

    def some(self, k, p=.5): return k in self.style and self.rng.random() < p

    def lx(self, s): self.o.extend(lex(s)); return self

    def words(self, s):
        for w in s.get("w", ()): self.lx(SPELL[w])

    def pick(self, s, yes):
        for w in s.get("w", ()):
            if yes(w): self.lx(SPELL[w])

    def suffix(self, s):
        self.pick(s, lambda w: w in TRAILING and w not in ("Pure", "Delete")); self.pick(s, lambda w: w in ("Pure", "Delete"))

    def opt(self, d, cls=""):
        if d["t"] != "none": self.d(d, cls)

    def dims(self, v):
        if v["t"] == "Typename" and v["b"]["t"] != "none":
            for x in [v["b"]] + v["i"]: self.t("[").opt(x) or self.t("]")

    def params(self, p):
        if p["t"] == "none": return
        for k, e in enumerate(p["l"]):
            if k: self.t(",")
            self.opt(e["p"])
            if e["v"]["t"] != "none": self.type(e["v"])
            self.lx(e["n"])
            if e["v"]["t"] != "none": self.dims(e["v"])
            self.opt(e["x"])
            if e["b"]["t"] != "none": self.t("="); self.opt(e["b"])

    def parens(self, p): self.t("("); self.params(p); self.t(")")

    def type(self, d):
        if d["v"]["t"] != "none":
            self.opt(d["a"]); self.type(d["v"]); self.lx(d["n"]); self.parens(d["p"]); self.words(d["s"]); return
        self.opt(d["a"])
        w = list(d["s"].get("w", ()))
        if w and w[0] in ("Const", "Volatile") and self.some("west"): # const written before the type
            self.lx(SPELL[w[0]]); w = w[1:]; self.plain = False
        pack = d["u"].endswith("..."); tag = d["u"].replace("...", "")
        if tag: self.t(tag)
        self.lx(d["n"])
        for x in w: self.lx(SPELL[x])
        if pack: self.t("...")

    def export(self, d):
        if d["f"] % 2: self.t("export")

    def braces(self, b, cls=""):
        self.t("{"); self.d(b, cls); self.t("}")

    def list(self, q, cls=""):
        for e in q:
            self.t("<c>"); self.d(e, cls); self.t("<c;>" if self.o and self.o[-1] == ";" else "<c>")

    def decl(self, d):
        t = d["t"]; key = t.split("_")[0].lower()
        self.export(d); self.t(key)
        if t.startswith("Enum_Class"): self.t("class")
        self.opt(d["a"]); self.lx(d["n"])
        if key == "enum":
            if d["v"]["t"] != "none": self.t(":"); self.type(d["v"])
            else: self.opt(d["p"])
        elif t in ("Class", "Struct"):
            self.pick(d["s"], lambda w: w == "Final")
            if d["v"]["t"] != "none":
                self.t(":")
                if d["u"] != "default": self.t(d["u"])
                self.type(d["v"])
                for x in d["i"]:
                    self.t(",")
                    if key == "class": self.t("public")
                    self.type(x)
        if d["b"]["t"] != "none": self.braces(d["b"], d["n"])

    def vars(self, d):
        self.lx(d["n"])
        if d["v"]["t"] != "none": self.dims(d["v"])
        if d["p"]["t"] != "none": self.t(":"); self.opt(d["p"])
        if d["b"]["t"] != "none":
            if d["u"] != "0": self.t("("); self.opt(d["b"]); self.t(")")
            else: self.t("="); self.opt(d["b"])
        if d["x"]["t"] != "none":
            self.t(","); self.words(d["x"]["s"]); self.vars(d["x"])

    def line(self, *xs):
        self.t("<bol>", "#"); self.t(xs[0])
        if len(xs) > 1: self.t("<raw>", xs[1])
        self.t("<nl>")

    def d(self, d, cls=""):
        t = d["t"]; o = self
        if t in ("Untyped", "Execution", "PlatformAttributes"): o.lx(d["k"])
        elif t == "Comment": o.t("<comment>", d["k"])
        elif t == "NewLine": o.t("<nl>")
        elif t.startswith("Access_"): o.t(t[7:].lower(), ":")
        elif t == "Preprocess_Include": o.line("include", d["k"])
        elif t in ("Preprocess_If", "Preprocess_IfDef", "Preprocess_IfNotDef", "Preprocess_ElIf", "Preprocess_Pragma"):
            o.line({"If": "if", "IfDef": "ifdef", "IfNotDef": "ifndef", "ElIf": "elif", "Pragma": "pragma"}[t[11:]], d["k"])
        elif t == "Preprocess_Else": o.line("else")
        elif t == "Preprocess_EndIf": o.line("endif")
        elif t == "Preprocess_Define":
            o.line("define", d["n"] + ("(" + ", ".join(e["n"] for e in d["p"]["l"]) + ")" if d["p"]["t"] != "none" else "") + (" " + d["b"]["k"].strip() if d["b"]["t"] != "none" else ""))
        elif t == "Typename": o.type(d)
        elif t == "Parameters": o.params(d)
        elif t == "Export_Body": o.t("export", "{"); o.list(d["l"]); o.t("}", ";")
        elif "l" in d: o.list(d["l"], cls)
        elif t.split("_")[0] in ("Class", "Struct", "Union", "Enum"): o.decl(d); o.t(";")
        elif t.startswith("Constructor"):
            o.pick(d["s"], lambda w: w not in TRAILING); o.lx(cls or d["n"]); o.parens(d["p"])
            if t == "Constructor":
                if d["v"]["t"] != "none": o.t(":"); o.opt(d["v"])
                o.braces(d["b"])
            else:
                if d["b"]["t"] != "none": o.t("="); o.opt(d["b"])
                o.t(";")
        elif t.startswith("Destructor"):
            o.pick(d["s"], lambda w: w == "Virtual")
            if d["n"]: o.lx(d["n"])
            else: o.t("~").lx(cls)
            o.t("(", ")")
            if t == "Destructor": o.braces(d["b"])
            else:
                if "Pure" in d["s"].get("w", ()): o.t("=", "0")
                elif d["b"]["t"] != "none": o.t("="); o.opt(d["b"])
                o.t(";")
        elif t == "Extern_Linkage": o.t("extern", '"' + d["n"] + '"'); o.braces(d["b"])
        elif t == "Friend":
            o.t("friend"); o.d(d["b"])
            if d["b"]["t"] == "Typename": o.t(";")
        elif t in ("Function", "Function_Fwd"):
            o.export(d); o.opt(d["a"]); o.pick(d["s"], lambda w: w not in TRAILING)
            if d["v"]["t"] != "none": o.type(d["v"])
            o.lx(d["n"]); o.parens(d["p"]); o.suffix(d["s"]); o.opt(d["x"])
            if t == "Function": o.braces(d["b"])
            else:
                if d["b"]["t"] != "none": o.t("="); o.opt(d["b"])
                o.t(";")
        elif t == "Module": o.export(d); o.t("import" if d["f"] // 2 % 2 else "module").lx(d["n"]).t(";")
        elif t == "Namespace": o.export(d); o.t("namespace").lx(d["n"]); o.braces(d["b"])
        elif t.startswith("Operator_Cast"):
            o.pick(d["s"], lambda w: w not in TRAILING)
            if t == "Operator_Cast": o.lx(d["n"])
            o.t("operator"); o.type(d["v"]); o.t("(", ")"); o.suffix(d["s"])
            o.t(";") if d["b"]["t"] == "none" else o.braces(d["b"])
        elif t.startswith("Operator"):
            o.export(d); o.opt(d["a"]); o.pick(d["s"], lambda w: w not in TRAILING); o.type(d["v"]); o.lx(d["n"]); o.parens(d["p"]); o.suffix(d["s"])
            o.t(";") if d["b"]["t"] == "none" else o.braces(d["b"])
        elif t == "Template": o.export(d); o.t("template", "<"); o.params(d["p"]); o.t(">"); o.d(d["b"], cls)
        elif t == "Typedef":
            o.export(d); o.t("typedef"); o.opt(d["a"])
            if d["v"]["t"] == "Typename":
                o.type(d["v"])
                if d["v"]["v"]["t"] == "none": o.lx(d["n"]); o.dims(d["v"])
            else: o.decl(d["v"]); o.lx(d["n"])
            o.t(";")
        elif t == "Using":
            o.export(d); o.t("using").lx(d["n"]); o.opt(d["a"])
            if d["v"]["t"] != "none": o.t("="); o.type(d["v"]); o.dims(d["v"])
            o.t(";")
        elif t == "Using_Namespace": o.export(d); o.t("using", "namespace").lx(d["n"]).t(";")
        elif t == "Variable":
            o.export(d); o.opt(d["a"]); o.words(d["s"]); (o.type if d["v"]["t"] == "Typename" else o.decl)(d["v"]); o.vars(d); o.t(";")
        else: raise SystemExit("cxxgen: " + t)


WORDCH = re.compile(r"[\w$\x80-\xff]")
GLUE = re.compile(r"^(?:\+\+|--|<<|<=|==|!=|&&|\|\||[-+*/%&|^]=|##|::|->|//|/\*|\.\.|<<=|>>|>=|:\:)$")


def layout(o, rng, style):
    """the lexemes with white space, line breaks and comments between them"""
    out, bol = [], True
    wide = "wide" in style
    def gap(a, b):
        need = bool(a and b and (WORDCH.match(a[-1]) and WORDCH.match(b[0]) or GLUE.match(a[-1] + b[0]) or a[-1] == "." or a[-1].isdigit() and b[0] == "." or a[-1] == '"' and b[0] == '"'))
        if not wide: return " " if need or rng.random() < .6 else ""
        r = rng.random()
        if r < .35 and not need: return ""
        if r < .8: return " "
        if r < .9: return rng.choice(["\t", "  ", " \t "])
        if a == "}": return rng.choice(["\n", " "]) # (an empty line there is a thing of its own)
        return rng.choice(["\n", "\n\t", "\n\n", "\r\n"])
    prev, i = "", 0
    while i < len(o):
        x = o[i]
        if x == "<bol>":
            if not bol: out.append("\n")
            bol, prev = True, ""
            j = o.index("<nl>", i)
            ds = o[i + 1:j]; s = "#" + (" " if wide and rng.random() < .1 else "") + ds[1]
            if len(ds) > 2: s += " " + ds[3]
            out.append(s + "\n"); i = j + 1
            continue
        if x == "<nl>": out.append("\n"); bol, prev = True, ""
        elif x == "<comment>":
            if not bol and rng.random() < .5: out.append("\n")
            i += 1; out.append(o[i] if o[i].endswith("\n") or not o[i].startswith("//") else o[i] + "\n"); bol, prev = out[-1].endswith("\n"), ""
        elif x in ("<c>", "<c;>"):
            r = rng.random()
            if "comments" in style and r < .12:
                if x == "<c>" and not bol: out.append("\n")
                out.append(rng.choice(["// a comment\n", "/* a comment */\n", "//\n", "/* of\n two lines */ "]) if x == "<c>" else rng.choice([" // inline\n", "// x\n"])); bol, prev = True, ""
            elif "lines" in style and r < .6 or x == "<c;>" and r < .4: out.append("\n"); bol, prev = True, ""
        else:
            if not bol: out.append(gap(prev, x))
            out.append(x); bol, prev = False, x
        i += 1
    return "".join(out)


def source(d, rng, style=()):
    o = Out(rng, style); o.d(d)
    return layout(o.o, rng, style), o.plain


def canonical(d):
    o = Out(); o.d(d)
    return [x for x in o.o if x not in ("<c>", "<c;>")]


# ------------------------------------------------------------------ random declarations
class Gen:
    def __init__(self, rng, off=()):
        self.rng, self.off, self.k = rng, set(off), 0

    def p(self, x): return self.rng.random() < x
    def on(self, k): return k not in self.off
    def of(self, *xs): return self.rng.choice(xs)

    def name(self, pre=None):
        self.k += 1
        return self.of("a", "b", "value", "Foo", "Bar_2", "_x", "some_longer_name", "T", "N", "i") + (str(self.k) if self.p(.6) else "")

    def cname(self):
        self.k += 1
        return self.of("C", "Thing", "Node", "S_", "A") + str(self.k)

    def qual(self):
        return self.of("N::", "A::B::", "") + self.cname()

    # types ------------------------------------------------------------
    def tname(self):
        r = self.rng.random()
        if r < .5: return self.of("int", "char", "bool", "float", "double", "unsigned int", "long", "short", "unsigned char", "unsigned long long" if self.on("longlong") else "int")
        if r < .8: return self.of("Foo", "Type_A", "u32", "Str")
        if r < .9: return self.of("N::Foo", "A::B::C", "std::string")
        return self.of("Vec<int>", "std::vector<Foo>", "Map<int, Foo*>", "V<V<int>>", "A<3>::type" if self.on("tplmember") else "A<3>")

    def tspecs(self, ref=True):
        s = []
        if self.p(.3): s.append("Const")
        for _ in range(self.of(0, 0, 0, 1, 1, 2)):
            s.append("Ptr")
            if self.p(.1): s.append(self.of("Const", "Restrict"))
        if ref and self.p(.2): s.append(self.of("Ref", "Ref", "RValue"))
        return s

    def type(self, ref=True, void=False, tagged=False):
        if void and self.p(.4): return typ("void")
        if tagged and self.p(.08): return typ(self.cname(), self.tspecs(ref), tag=self.of("struct", "class", "enum", "union"))
        return typ(self.tname(), self.tspecs(ref))

    def expr(self, paren=True):
        return self.of("0", "1", "42", "0x1F", "1.5f", "'c'", "'\\''", '"text"', '"a\\"b"', "x", "nullptr", "a + b", "f(1, 2)" if paren else "7", "(a * b) - 3" if paren else "3", "N::value", "-1", "! flag", "a < b", "p->q", "a ? b : c", "true",
                       "sizeof(int)" if paren else "5", "x[2]", "{ 1, 2 }" if paren else "6", "&y", "[&]( int q ) { f( q, 1 ); return q; }" if paren else "8", "m[ f(1, 2) ]" if paren else "9")

    def dflt(self):
        while True:
            e = self.expr()
            if not any(x in e for x in "<>{"): return e

    def dimexpr(self): return self.of("4", "N", "a + 1", "sizeof(x)", "2 * 3", "K::n")

    def attrs(self, p=.12):
        return text("PlatformAttributes", self.of("[[nodiscard]]", "__declspec(dllexport)", "__attribute__((unused))", "[[maybe_unused]]", "__declspec(noinline)"), "") if self.on("attrs") and self.p(p) else NONE

    def mflag(self, ctx): return 1 if ctx in ("frag", "global") and self.p(.08) and self.on("export") else 0

    # parts ------------------------------------------------------------
    def code(self):
        q = [self.of("return;", "return x + 1;", "int a = 3;", "f( a, b );", "if ( a ) { b(); } else { c(); }", "for ( int i = 0; i < n; ++ i ) x += i;", "{ }", "while ( 1 ) { break; }", "a = b ? c : d;", 's = "}";', "c = '{';",
                     "switch ( k ) { case 1: break; default: ; }", "struct L { int x; }; L l;", "auto l = [&]( int q ) { return q; };", "x->y.z = 1;", "delete p;", "a <<= 2; b >>= 1;") for _ in range(self.of(0, 1, 1, 2, 3))]
        return " ".join(q)

    def fbody(self):
        c = self.code()
        return body("Function_Body", [text("Execution", c)] if c else [])

    def params(self, values=True):
        l, dflt = [], False
        n = self.of(0, 0, 1, 1, 2, 3)
        for _ in range(n):
            dflt = values and (dflt or self.p(.12))
            l.append(entry(self.name() if dflt or self.p(.9) or n > 1 and not l else "", self.type(tagged=True), untyped(self.dflt()) if dflt else NONE))
        return params(l)

    def fspecs(self, ctx, fwd, pre=True):
        s = []
        if ctx in ("class", "struct"):
            if self.p(.15): s.append("Static")
            elif self.p(.2): s.append("Virtual")
            if self.p(.1): s.append(self.of("Inline", "ForceInline", "NeverInline"))
        else:
            if self.p(.2): s.append(self.of("Static", "Inline", "External_Linkage", "Internal_Linkage", "ForceInline", "NeverInline") if pre else "Inline")
        if self.p(.06): s.append(self.of("Constexpr", "Consteval") if pre else "Constexpr")
        if ctx in ("class", "struct") and "Static" not in s:
            if self.p(.3): s.append("Const")
            if self.p(.08): s.append("Volatile")
            if self.p(.08): s.append("NoExceptions")
            if "Virtual" in s and self.p(.2): s.append(self.of("Override", "Final"))
            if "Virtual" in s and fwd and self.p(.3): s.append("Pure")
        if fwd and "Pure" not in s and self.p(.05): s.append("Delete")
        return s

    # declarations -----------------------------------------------------
    def function(self, ctx):
        fwd = self.p(.5)
        return node("Function_Fwd" if fwd else "Function", self.name(), self.mflag(ctx), a=self.attrs(), s=specs(self.fspecs(ctx, fwd)), v=self.type(void=True, tagged=ctx in ("frag", "global")), p=self.params(), b=NONE if fwd else self.fbody())

    def operator(self, ctx):
        fwd = self.p(.5); member = ctx in ("class", "struct")
        me = typ("Self")
        o = self.of(*[x for x in OPS if self.on("op" + x)])
        ret, n = self.type(ref=False, void=False), None
        while ret["n"] == "Self": ret = self.type(ref=False)
        P = lambda *ts: params([entry(self.name(), t) for t in ts])
        kind = "Operator_Member" if member else "Operator"
        if o == "Assign" or o in ("Subscript", "FunctionCall", "MemberOfPointer"):
            kind = "Operator_Member"
            if not member: return self.function(ctx)
            ps = P(me) if o == "Assign" else P(typ("int")) if o == "Subscript" else NONE if o == "MemberOfPointer" else self.params(values=False)
        elif o in ASSIGNS: ret = me; ps = P(typ("Other")) if member else P(me, typ("Other"))
        elif o in ("Increment", "Decrement"): ret = me; ps = self.of(NONE, P(typ("int"))) if member else self.of(P(me), P(me, typ("int")))
        elif o in UNARY:
            if o == "UnaryNot": ret = typ("bool")
            ps = NONE if member else P(me)
        elif o in BINARY: ps = P(typ("Other")) if member else P(me, typ("Other"))
        else: ret, ps, kind = typ("void", ["Ptr"] if o.startswith("New") else []), P(typ("size_t")) if o.startswith("New") else P(typ("void", ["Ptr"])), "Operator"
        s = [x for x in self.fspecs(ctx, fwd, pre=False) if x != "External_Linkage"]
        if kind == "Operator" and member: s = [x for x in s if x in ("Static", "Inline")]
        return node(kind + ("_Fwd" if fwd else ""), "operator " + OPS[o], self.mflag(ctx), u=o, a=self.attrs(), s=specs(s), v=ret, p=ps, b=NONE if fwd else self.fbody())

    def opcast(self, ctx):
        fwd = self.p(.5)
        s = (["Explicit"] if self.p(.3) else ["Virtual"] if self.p(.1) else []) + (["Const"] if self.p(.4) else [])
        t = self.type(tagged=False)
        return node("Operator_Cast" + ("_Fwd" if fwd else ""), "", 0, s=specs(s), v=t, b=NONE if fwd else self.fbody())

    def ctor(self, cls):
        fwd = self.p(.5)
        s = [x for x in ("Explicit", "Inline", "Constexpr") if self.p(.12)]
        d = node("Constructor" + ("_Fwd" if fwd else ""), cls, 0, s=specs(s), p=self.params())
        if not fwd:
            d["b"] = self.fbody()
            if self.p(.4): d["v"] = untyped(self.of("a( 1 )", "a(1), b( f( 2 ) )", "Base( x ), y( 0 )", "a( f(1, 2) ), b( { 1 } )" if self.on("braceinit") else "a( 1 )"))
        elif self.p(.25) and self.on("ctordefault"): d["b"] = untyped(self.of("default", "delete"))
        return d

    def dtor(self, cls):
        fwd = self.p(.5)
        s = ["Virtual"] if self.p(.4) else []
        if fwd and s and self.p(.3) and self.on("dtorpure"): s.append("Pure")
        d = node("Destructor" + ("_Fwd" if fwd else ""), "", 0, s=specs(s))
        if not fwd: d["b"] = self.fbody()
        elif "Pure" not in s and self.p(.2) and self.on("dtordefault"): d["b"] = untyped("default")
        return d

    def variable(self, ctx, lone=False):
        member = ctx in ("class", "struct", "union")
        s = []
        if ctx == "union": pass
        elif member:
            if self.p(.15): s.append("Static")
            elif self.p(.1): s.append("Mutable")
            if self.p(.07): s.append("Volatile")
        elif ctx in ("frag", "global") and self.p(.3): s.append(self.of("Static", "External_Linkage", "Thread_Local", "Global", "Local_Persist", "Inline", "Volatile", "Mutable"))
        elif ctx not in ("frag", "global") and self.p(.25): s.append(self.of("Static", "External_Linkage", "Internal_Linkage", "Global"))
        if ctx not in ("frag", "global", "union") and not member and s and self.p(.1): s.append("Volatile")
        if self.p(.06) and ctx != "union": s.append(self.of("Constexpr", "Constinit"))
        t = self.type(ref=ctx != "union", tagged=ctx in ("frag", "global"))
        if self.p(.2): t["b"] = untyped(self.dimexpr()); t["i"] = [untyped(self.dimexpr())] if self.p(.3) and self.on("dims2") else []
        d = node("Variable", self.name(), self.mflag(ctx), s=specs(s), v=t, a=self.attrs(.06))
        if member and t["b"]["t"] == "none" and not s and self.p(.12) and "Ptr" not in t["s"].get("w", ()) and self.on("bits"): d["p"] = untyped(self.of("1", "3", "8"))
        elif ctx != "union" and self.p(.35) and s[:1] != ["External_Linkage"]:
            d["b"] = untyped(self.expr())
            if t["b"]["t"] != "none": d["b"] = untyped("{ 1, 2 }")
            elif self.p(.2) and self.on("pareninit") and ctx == "function": d["u"] = "1"
        if self.p(.12) and self.on("multi") and not lone and d["p"]["t"] == "none":
            q = d
            for _ in range(self.of(1, 1, 2)):
                w = node("Variable", self.name(), 0, s=specs(["Ptr"] if self.p(.3) else []), v=typ("", arr=[self.dimexpr()]) if self.p(.2) else NONE)
                if self.p(.3): w["b"] = untyped(self.expr())
                q["x"] = w; q = w
        return d

    def in_place(self, ctx):
        """a variable whose type is defined with it"""
        k = self.of("Class", "Struct", "Struct", "Enum", "Union")
        if k == "Enum":
            d = self.enum(ctx)
            while d["t"].endswith("_Fwd"): d = self.enum(ctx)
        elif k == "Union": d = self.union(ctx)
        else:
            d = self.klass(ctx, 0)
            while d["t"].endswith("_Fwd"): d = self.klass(ctx, 0)
            if d["t"] == "Struct" and self.p(.3) and d["v"]["t"] == "none" and d["s"]["t"] == "none" and not any(e["t"].split("_")[0] in ("Constructor", "Destructor") for e in d["b"]["l"]): d["n"] = ""
        d["f"] = 0
        return node("Variable", self.name(), 0, v=d)

    def members(self, t, cls, depth):
        l = []
        for _ in range(self.of(0, 1, 2, 3, 4)):
            l.append(self.member(t, cls, depth))
        return l

    def member(self, t, cls, depth):
        k = self.rng.random()
        if k < .1: return text("Access_" + self.of("Public", "Private", "Protected"), "", "")
        if k < .12 and depth and self.on("inplace"): return self.in_place(t)
        if k < .3: return self.variable(t)
        if k < .5: return self.function(t)
        if k < .58: return self.ctor(cls) if self.on("ctor") else self.function(t)
        if k < .63: return self.dtor(cls) if self.on("dtor") else self.function(t)
        if k < .70 and self.on("operator"): return self.operator(t)
        if k < .74 and self.on("opcast"): return self.opcast(t)
        if k < .78 and self.on("friend"): return self.friend()
        if k < .82: return self.using(t)
        if k < .85: return self.typedef(t)
        if k < .89: return self.enum(t)
        if k < .92 and self.on("tplmemb"): return self.template(t)
        if k < .94 and depth: return self.klass(t, depth - 1)
        if k < .96: return self.union(t)
        return self.directive(t)

    def friend(self):
        r = self.rng.random()
        if r < .4: return node("Friend", b=node(self.of("Class_Fwd", "Struct_Fwd"), self.cname(), u="default"))
        if r < .7: return node("Friend", b=typ(self.cname()) if self.on("friendtype") else node("Class_Fwd", self.cname(), u="default"))
        f = self.function("friend"); f["s"] = specs(self.of([], [], ["Inline"], ["ForceInline"])); f["a"] = NONE
        return node("Friend", b=f)

    def klass(self, ctx, depth=1):
        key = self.of("Class", "Struct"); n = self.cname()
        if self.p(.25): return node(key + "_Fwd", n, self.mflag(ctx), u="default", a=NONE)
        d = node(key, n, self.mflag(ctx), u="default", a=self.attrs())
        if self.p(.1): d["s"] = specs(["Final"])
        if self.p(.35):
            d["u"] = self.of("public", "private", "protected", "default"); d["v"] = typ(self.qual())
            if self.p(.4) and self.on("interfaces"):
                d["u"] = "public"; d["i"] = [typ(self.qual()) for _ in range(self.of(1, 2))]
        d["b"] = body(key + "_Body", self.members(key.lower(), n, depth))
        return d

    def union(self, ctx):
        n = self.cname() if ctx == "global" or self.p(.5) or not self.on("anonunion") else ""
        return node("Union", n, self.mflag(ctx), a=self.attrs(.1), b=body("Union_Body", [self.variable("union") for _ in range(self.of(0, 1, 2, 3))]))

    def enum(self, ctx):
        k = self.of("Enum", "Enum_Class"); n = self.cname()
        u = typ(self.of("int", "u8", "unsigned int", "char")) if self.p(.4) else NONE
        if self.p(.2) and u["t"] != "none" and u["n"] != "unsigned int": return node(k + "_Fwd", n, 0, v=u)
        l = []
        m = self.of(0, 1, 2, 3, 5)
        for i in range(m):
            l.append(untyped(self.name() + (" = " + self.of("1", "1 << 2", "'a'", "B + 1", "N::x", "(2, 3)" if self.on("enumparen") else "4") if self.p(.4) else "") + ("," if i < m - 1 or self.p(.3) else "")))
        return node(k, n, 0, a=self.attrs(.05), v=u, b=body("Enum_Body", l))

    def using(self, ctx):
        t = self.type()
        if self.p(.1) and self.on("usingarr"): t["b"] = untyped(self.dimexpr())
        return node("Using", self.cname(), self.mflag(ctx), v=t, a=self.attrs(.05))

    def typedef(self, ctx):
        r = self.rng.random()
        if r < .7 or not self.on("tdefdef"):
            t = self.type()
            if self.p(.15): t["b"] = untyped(self.dimexpr())
            return node("Typedef", self.cname(), self.mflag(ctx), v=t)
        k = self.of(0, 1, 2, 3)
        d = self.klass(ctx, 0) if k < 2 else self.enum(ctx) if k == 2 else self.union(ctx)
        d["f"] = 0
        if d["t"].startswith("Enum_Class"): d["t"] = d["t"].replace("_Class", "")
        if d["t"].endswith("_Fwd"): d["t"] = "Struct"; d["v"] = NONE; d["u"] = "default"; d["b"] = body("Struct_Body", [])
        return node("Typedef", self.cname(), self.mflag(ctx), v=d)

    def template(self, ctx):
        ps = []
        for _ in range(self.of(1, 1, 2)):
            r = self.rng.random()
            ps.append(entry(self.cname(), typ("typename"), typ_value(self) if self.p(.15) and self.on("tpldefault") else NONE) if r < .5 else
                      entry(self.cname(), typ("class" if self.on("tplclass") else "typename")) if r < .7 else entry(self.name(), typ(self.of("int", "bool", "u32"))))
        k = self.of("Class", "Struct", "Function", "Using", "Variable") if self.on("tplusing") else self.of("Class", "Struct", "Function")
        if k in ("Class", "Struct"):
            d = self.klass("template", 0)
            while d["t"] not in ("Class", "Struct"): d = self.klass("template", 0)
        elif k == "Function":
            d = self.function("template"); d["s"] = specs([w for w in d["s"].get("w", ()) if w in ("Inline", "Constexpr", "Consteval", "Static", "ForceInline")])
        elif k == "Using": d = self.using("template")
        else: d = self.variable("template", lone=True); d["s"] = specs([w for w in d["s"].get("w", ()) if w in ("Static", "Constexpr", "Constinit")])
        d["f"] = 0
        return node("Template", "", self.mflag(ctx), p=params(ps), b=d)

    def namespace(self, ctx, depth=1):
        return node("Namespace", self.cname(), 0, b=body("Namespace_Body", self.entries("namespace", self.of(0, 1, 2, 3), depth)))

    def extern(self, ctx, depth=1):
        return node("Extern_Linkage", "C", 0, b=body("Extern_Linkage_Body", self.entries("extern", self.of(0, 1, 2), depth)))

    def export_body(self, depth=1):
        return body("Export_Body", self.entries("export", self.of(1, 2, 3), 0))

    def directive(self, ctx):
        k = self.of("include", "if", "ifdef", "ifndef", "pragma", "define") if ctx in ("global", "file", "namespace", "extern") else self.of("if", "pragma", "ifdef")
        if k == "include": return text("Preprocess_Include", self.of("<stdio.h>", '"foo/bar.hpp"', '"x.h"'))
        if k == "pragma": return text("Preprocess_Pragma", self.of("once", "pack(push, 1)", "region Some Text"))
        if k == "if": return text("Preprocess_If", self.of("FOO", "defined(A) && B > 2", "0", "! X"))
        if k == "ifdef": return text("Preprocess_IfDef", self.cname())
        if k == "ifndef": return text("Preprocess_IfNotDef", self.cname())
        return self.define()

    def define(self):
        return node("Preprocess_Define", "M_" + self.cname(), p=NONE, b=untyped(self.of("1", "(a + b)", '"text"', "f( 1 )", "x", "do { } while (0)")))

    def entries(self, ctx, n, depth=1):
        return [self.any(ctx, depth) for _ in range(n)]

    def any(self, ctx, depth=1):
        k = self.rng.random()
        if k < .2: return self.function(ctx)
        if k < .22 and depth and ctx in ("file", "namespace", "extern") and self.on("inplace"): return self.in_place(ctx)
        if k < .38: return self.variable(ctx)
        if k < .53: return self.klass(ctx, depth)
        if k < .58: return self.enum(ctx)
        if k < .62: return self.union(ctx) if ctx in ("global", "file") else self.enum(ctx)
        if k < .67: return self.using(ctx)
        if k < .72: return self.typedef(ctx)
        if k < .77: return self.template(ctx)
        if k < .82 and self.on("operator"): return self.operator(ctx)
        if k < .85: return node("Using_Namespace", self.cname(), self.mflag(ctx))
        if k < .89 and depth: return self.namespace(ctx, depth - 1)
        if k < .91 and depth and ctx in ("global", "file", "namespace"): return self.extern(ctx, depth - 1)
        return self.directive(ctx)

    def file(self, n):
        return body("Global_Body", self.entries("file", n))


def typ_value(g): return untyped(g.of("int", "Foo", "void"))


FRAGMENTS = dict(Class="class", Struct="struct", Union="union", Enum="enum", Enum_Class="enum", Function="function", Operator="operator", Operator_Cast="operator_cast", Namespace="namespace", Extern_Linkage="extern",
                 Template="template", Typedef="typedef", Using="using", Using_Namespace="using", Variable="variable", Typename="type", Preprocess_Define="define", Export_Body="export_body", Global_Body="global_body", Friend="friend")


def parse_op(nid, d, rng, style):
    src, plain = source(d, rng, style)
    return f"parse {nid} {d['t']} {1 if plain else 0} {hexs(src)} {hexs(json.dumps(d))}"


# ------------------------------------------------------------------ the same by constructor calls
class Unbuildable(Exception): pass


BODYCTOR = dict(Class_Body="class_body", Struct_Body="struct_body", Enum_Body="enum_body", Export_Body="export_body", Extern_Linkage_Body="extern_body", Function_Body="function_body", Global_Body="global_body", Namespace_Body="namespace_body", Union_Body="union_body")
FREE_NOT = set("Access_Public Access_Protected Access_Private PlatformAttributes Class_Body Enum_Body Execution Friend Function_Body Namespace_Body Operator_Member Operator_Member_Fwd Parameters Parameters_Define Specifiers Struct_Body Typename".split())
CLASS_NOT = set("PlatformAttributes Class_Body Enum_Body Extern_Linkage Function_Body Function_Fwd Global_Body Namespace Namespace_Body Operator Operator_Fwd Parameters Parameters_Define Specifiers Struct_Body Typename".split())
CONSTS = dict(int="t_int", bool="t_bool", void="t_void", auto="t_auto", char="t_char")


class Builder:
    """the constructor calls that make what is described; `ids` are handed out from `first` on"""
    def __init__(self, rng, first=1): self.rng, self.out, self.k = rng, [], first - 1

    def new(self): self.k += 1; return self.k

    def call(self, f, **a):
        i = self.new(); s = f"def {i} {f}"
        for k, v in a.items():
            if v in (None, 0, ""): continue
            s += f" {k}=" + (hexs(v) if k in ("name", "text", "nspace") else ",".join(map(str, v)) if isinstance(v, list) else str(v))
        self.out.append(s)
        return i

    def const(self, n): i = self.new(); self.out.append(f"const {i} {n}"); return i
    def opt(self, d, f=None): return 0 if d["t"] == "none" else (f or self.d)(d)

    def specs(self, d):
        w = d["w"]
        if w in (["Const"], ["Inline"]) and self.rng.random() < .3: return self.const("spec_" + w[0].lower())
        return self.call("specifiers", words=w, how=self.rng.choice([0, 1, 2] if len(w) == 1 else [0, 1]))

    def type(self, d):
        if d["i"] or d["v"]["t"] != "none" or "..." in d["u"]: raise Unbuildable
        if d["n"] in CONSTS and d["s"]["t"] == d["b"]["t"] == d["a"]["t"] == "none" and not d["u"] and self.rng.random() < .6: return self.const(CONSTS[d["n"]])
        return self.call("type", name=d["n"], attributes=self.opt(d["a"]), specifiers=self.opt(d["s"]), array=self.opt(d["b"]), tag=d["u"])

    def untyped(self, d): return self.call("untyped", text=d["k"])

    def params(self, d):
        ids = []
        for e in d["l"]:
            if not e["n"] or e["p"]["t"] != "none" or e["x"]["t"] != "none": raise Unbuildable
            ids.append(self.call("param", name=e["n"], type=self.type(e["v"]), value=self.opt(e["b"])))
        if len(ids) == 1 and self.rng.random() < .6: return ids[0]
        if len(ids) > 8: raise Unbuildable
        return self.call("params", entries=ids, how=self.rng.randint(0, 1))

    def code(self, d, texts=("execution", "untyped")):
        """the body of a function, given as a body of one or more texts, or as a text"""
        k = " ".join(x["k"] for x in d["l"]).strip()
        r = self.rng.random()
        if not k: return self.call("body", kind="Function_Body")
        k += self.rng.choice(["", "\n"])
        if r < .4: return self.call(self.rng.choice(texts), text=k)
        if r < .5: i = self.call("body", kind="Function_Body"); self.append(i, self.call("execution", text=k)); return i
        return self.call("function_body", entries=[self.call(self.rng.choice(["execution", "untyped"]), text=k)], how=self.rng.randint(0, 1))

    def append(self, i, e): self.out.append(f"append {i} {e}")

    def body(self, d, cls=""):
        t = d["t"]
        if t == "Function_Body": return self.code(d)
        l = [self.member(e, cls) for e in d["l"]]
        f = BODYCTOR[t]
        no = {"Class_Body": CLASS_NOT, "Struct_Body": CLASS_NOT, "Enum_Body": (), "Union_Body": ("Variable",)}.get(t, FREE_NOT)
        if l and len(l) <= 8 and not any(e["t"] in no for e in d["l"]) and self.rng.random() < .7: return self.call(f, entries=l, how=self.rng.randint(0, 1))
        i = self.call("body", kind=t)
        for e in l: self.append(i, e)
        return i

    def member(self, d, cls):
        if d["t"] == "Untyped": return self.call("untyped", text=d["k"] + self.rng.choice(["\n", " "]))
        return self.d(d, cls)

    def d(self, d, cls=""):
        t, n, c = d["t"], d.get("n", ""), self.call
        a = lambda: self.opt(d["a"]); s = lambda: self.opt(d["s"]); p = lambda: self.opt(d["p"], self.params); b = lambda: self.opt(d["b"], lambda x: self.body(x, n) if "l" in x else self.d(x)); mf = d["f"] if "f" in d else 0
        if t in ("Untyped",): return self.untyped(d)
        if t == "Execution": return c("execution", text=d["k"])
        if t == "Comment": raise Unbuildable
        if t == "NewLine": return self.const("fmt_newline")
        if t in ("Access_Public", "Access_Private"): return self.const(t.lower())
        if t == "Access_Protected": raise Unbuildable
        if t == "PlatformAttributes": return c("attributes", text=d["k"])
        if t == "Preprocess_Include": return c("include", text=d["k"][1:-1], foreign=int(d["k"][0] == "<"))
        if t == "Preprocess_Pragma": return c("pragma", text=d["k"])
        if t in ("Preprocess_If", "Preprocess_IfDef", "Preprocess_IfNotDef", "Preprocess_ElIf"): return c("cond", kind=["Preprocess_If", "Preprocess_IfDef", "Preprocess_IfNotDef", "Preprocess_ElIf"].index(t) or "0", text=d["k"])
        if t == "Preprocess_Else": return self.const("preprocess_else")
        if t == "Preprocess_EndIf": return self.const("preprocess_endif")
        if t == "Preprocess_Define":
            if d["p"]["t"] != "none": raise Unbuildable
            return c("define", name=n, text=d["b"].get("k", "").strip())
        if t == "Specifiers": return self.specs(d)
        if t == "Typename": return self.type(d)
        if t == "Parameters": return self.params(d)
        if "l" in d: return self.body(d, cls)
        key = t.split("_")[0]
        if key in ("Class", "Struct"):
            kw = {}
            if d["i"]:
                kw = dict(interfaces=[self.type(x) for x in ([d["v"]] + d["i"] if self.rng.random() < .5 else d["i"])])
                if len(kw["interfaces"]) == len(d["i"]): kw["parent"] = self.type(d["v"])
            elif d["v"]["t"] != "none": kw = dict(parent=self.type(d["v"]), access=d["u"])
            return c(key.lower(), name=n, mflags=mf, attributes=a(), specifiers=s(), body=b(), **kw)
        if key == "Enum":
            if not n: raise Unbuildable
            return c("enum", name=n, mflags=mf, attributes=a(), type=self.opt(d["v"]), body=b(), isclass=int(t.startswith("Enum_Class")))
        if key == "Union": return c("union", name=n, mflags=mf, attributes=a(), body=b())
        if key == "Constructor":
            if d["s"]["t"] != "none" or t == "Constructor_Fwd" and d["b"]["t"] != "none": raise Unbuildable
            return c("constructor", params=p(), init=self.opt(d["v"]), body=self.opt(d["b"], lambda x: self.code(x, ("untyped",))))
        if key == "Destructor":
            if t == "Destructor_Fwd" and d["b"]["t"] != "none": raise Unbuildable
            return c("destructor", specifiers=s(), body=self.opt(d["b"], lambda x: self.code(x, ("untyped",))))
        if t == "Extern_Linkage": return c("extern", name=n, body=b())
        if t == "Namespace": return c("namespace", name=n, mflags=mf, body=b())
        if t == "Friend":
            if d["b"]["t"] == "Typename": raise Unbuildable
            return c("friend", decl=self.d(d["b"]))
        if key == "Function":
            if d["x"]["t"] != "none" or t == "Function_Fwd" and d["b"]["t"] != "none": raise Unbuildable
            return c("function", name=n, mflags=mf, attributes=a(), specifiers=s(), ret=self.opt(d["v"]), params=p(), body=b())
        if t.startswith("Operator_Cast"): return c("opcast", type=self.type(d["v"]), specifiers=s(), body=self.opt(d["b"], lambda x: self.code(x, ("execution",))))
        if key == "Operator": return c("operator", which=d["u"], mflags=mf, attributes=a(), specifiers=s(), ret=self.type(d["v"]), params=p(), body=b())
        if t == "Template" and d["b"]["t"] not in ("Class", "Function", "Struct", "Variable", "Using"): raise Unbuildable
        if t == "Template": return c("template", mflags=mf, params=p(), decl=self.d(d["b"]))
        if t == "Typedef":
            return c("typedef", name=n, mflags=mf, attributes=a(), type=self.d(d["v"]))
        if t == "Using": return c("using", name=n, mflags=mf, attributes=a(), type=self.type(d["v"]))
        if t == "Using_Namespace" and d["f"]: raise Unbuildable
        if t == "Using_Namespace": return c("using_namespace", name=n)
        if t == "Variable":
            if d["x"]["t"] != "none" or d["p"]["t"] != "none" or d["u"] != "0" or d["v"]["t"] != "Typename": raise Unbuildable
            return c("variable", name=n, mflags=mf, attributes=a(), specifiers=s(), type=self.type(d["v"]), value=self.opt(d["b"]))
        raise Unbuildable


def build_ops(d, rng, first=1):
    """(calls, id of the result), or nothing where the constructors have no way to say it"""
    B = Builder(rng, first)
    try: i = B.d(d)
    except Unbuildable: return None
    return B.out, i
