"""C20: malformed input. Spec: Malformed.tla; MCMalformed (the bracket automaton is the balanced texts); GenMalformed (every text of few tokens); MalformedTrace."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, cxxgen
from vf import hexs

KINDS = "global class constructor define destructor enum export extern friend function namespace operator opcast struct template type typedef union using variable".split()
KIND = {"Class": "class", "Struct": "struct", "Enum": "enum", "Enum_Class": "enum", "Union": "union", "Function": "function", "Operator": "operator", "Operator_Member": "operator",
        "Operator_Cast": "opcast", "Namespace": "namespace", "Extern_Linkage": "extern", "Template": "template", "Typedef": "typedef", "Using": "using", "Using_Namespace": "using",
        "Variable": "variable", "Typename": "type", "Friend": "friend", "Export_Body": "export"}
ALPHABET = ["x", "A", "1", ";", ",", "(", ")", "{", "}", "[", "]", "<", ">", "=", "*", "&", ":", "::", "~", "...", "->", "\n", "struct ", "enum ", "template", "operator", "virtual ", "const ", "int ",
            "typedef ", "using ", "extern ", "\"s\"", "'c'", "\n#define ", "\n#if ", "/*", "//", "[[", "default"]
REGS = ["MS stmt 0", "MSF stmt 1", "MSB stmt 3", "ME expr 0", "MEF expr 1", "MT type 0", "MTF type 1", "MI expr 4", "MA expr 8", "MAF expr 9", "MD expr 17", "MSP expr 33"]
NAMES = [r.split()[0] for r in REGS]
NOISE = ["(", ")", "{", "}", "[", "]", ";", ",", "<", ">", "=", "::", "*", "&", "&&", "...", "~", "int", "x", "struct", "class", "enum", "operator", "virtual", "const", "= 0", "= delete", "template",
         "#define", "#if", "\n", "[[", "]]", "'", "\"", "/*", "//", "#", "\\", "@", "1", "0x", "..", "->", "static", "inline", "using", "typedef", "friend", "extern", "\"C\"", "namespace", "export",
         "unsigned", "noexcept", "public:", "/**/", "%", "!", "*/", "\\\n", "#include", "#include <", "#pragma", "#ifdef", "#else", "#endif", "#define A(", "#define A( x, ... )", "#undef", "#error",
         "\r\n", "\t", " ", "\x00", "\x80", "\xff", "R\"(", "u8\"", "'a", "\"\\", "1.", "1e+", ".5", "::*", "operator()", "operator\"\"", "[]", "()", "<>", ">>", "<<", "<=>", "a::b::", "template <>",
         "template<", "~A", "A::~A()", "enum class", "using namespace", "extern \"C\" {", "friend class", "union", "typedef struct", "__attribute__((", "__declspec(", "alignas(", "[[a",
         "static_assert(", "import", "module", "consteval", "thread_local", "volatile", "= default", "= 0;", ": public", "= {", "={", "GEN_API", "restrict", "signed", "long long", "__int64", "final",
         "override", "asm"] + NAMES + [n + "(" for n in NAMES] + [n + "( 1 )" for n in NAMES]
PIECE = re.compile(r'[ \t]+|\n|//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[A-Za-z_]\w*|\d\w*|::|->|.', re.S)
TOKEN = re.compile(r'//[^\n]*|/\*.*?\*/|(?m:^[ \t]*\#(?:\\\n|[^\n])*)|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[A-Za-z_]\w*|\d\w*|\s|.', re.S)


QUOTED = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', re.S)


def shape(s):
    s = QUOTED.sub(lambda m: m[0] if m[0][0] in "\"'" else "\n" if "\n" in m[0] else " ", s)   # (a directive may have comments before it)
    out = []
    for m in TOKEN.finditer(s):
        t = m.group(0)
        if t.isspace() or t[:2] in ("//", "/*"): continue
        k = "#" if t.lstrip()[:1] == "#" else t if t in "()[]{};" else "x"
        if not out or out[-1] != k or k not in "x#": out.append(k)
    return "".join(out) or "-"


def line(kind, text, claim="any"):
    return f"parse {kind} {hexs(text)} {shape(text) if claim != 'any' else '-'} {claim}"


def decl(rng, G):
    r = rng.random()
    d = G.type() if r < .04 else G.friend() if r < .08 else G.export_body() if r < .11 else G.file(3) if r < .3 else G.any("global", 1)
    kind = KIND.get(d["t"].replace("_Fwd", ""), "global")
    text, _ = cxxgen.source(d, rng, rng.choice([(), (), ("comments", "lines"), ("wide",)]))
    return kind, text


def mutate(rng, ls):
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        if not ls: ls = [";"]
        m, k = rng.random(), rng.randrange(len(ls))
        j = min(len(ls), k + rng.randint(1, 6))
        if m < .1: ls = ls[:k]
        elif m < .25: del ls[k]
        elif m < .35: ls[k:j] = ls[k:j] * rng.choice([2, 3, 20, 40])
        elif m < .45: ls[k] = rng.choice(ls)
        elif m < .65: ls[k] = rng.choice(NOISE)
        elif m < .9: ls.insert(k, rng.choice(NOISE) + rng.choice(["", " "]))
        elif m < .95: i = rng.randrange(len(ls)); ls[k], ls[i] = ls[i], ls[k]
        else: del ls[k:j]
    return ls


def large(rng, n):
    """Texts whose size, not whose form, is unusual: (kind, text, claim)."""
    w = "n" * n
    out = [("variable", f"int {w};", "good"), ("variable", f"{w} x = {w};", "good"), ("variable", f'char const* s = "{w}";', "good"), ("global", f"/* {w} */\nint x;\n", "good"),
           ("global", f"// {w}\n", "any"), ("function", "void f( " + ", ".join(f"int a{i}" for i in range(n // 8)) + " );", "good"),
           ("enum", "enum E { " + ", ".join(f"e{i}" for i in range(n // 8)) + " };", "good"), ("struct", "struct S : " + ", ".join(f"I{i}" for i in range(n // 16)) + " {};", "good"),
           ("global", "".join(f"int v{i};\n" for i in range(n // 8)), "good"), ("type", w, "good"), ("global", f"#define D {w}\n", "any"), ("function", "void f( int a = " + w + " );", "good"),
           ("variable", "int x " + "[4]" * (n // 64) + ";", "any"), ("template", "template< " + ", ".join(f"typename T{i}" for i in range(n // 16)) + " > struct S;", "good")]
    out += [(k, t[:rng.randrange(1, len(t))], "any") for k, t, _ in out]
    return out


def deep(n):
    return [("namespace", "namespace n { " * n + "int x; " + "} " * n, "good"), ("struct", "struct s { " * n + "int x; " + "}; " * n, "good"), ("variable", "int x = " + "( " * n + "1" + " )" * n + ";", "good"),
            ("type", "V< " * n + "int" + " >" * n, "any"), ("global", "template< " * n, "any"), ("namespace", "namespace n { " * n, "cut"), ("struct", "struct s { " * n, "cut"), ("function", "void f() { " + "{ " * n, "cut"),
            ("global", "extern \"C\" { " * n, "cut"), ("variable", "int x = " + "( " * n, "cut"), ("enum", "enum e { a = " + "( " * n, "cut")]


def check(c):
    c.model("MCMalformed", c.pick("MCMalformed.cfg", "MCMalformed6.cfg"), what="the bracket automaton accepts the balanced texts; cut texts can be completed")
    gen = c.model("GenMalformed", c.pick("GenMalformed.cfg", "GenMalformed3.cfg"), gen=True, what="every text of few tokens")
    rng = c.rng
    exe = c.build("malformed.cpp")
    small = []
    for i, g in enumerate(gen):
        toks = [ALPHABET[k - 1] for k in g["t"]]
        text = (" " if i % 3 else "").join(toks)
        kinds = KINDS if len(toks) == 1 else ["global", KINDS[i % len(KINDS)], KINDS[(i // 7 + 3) % len(KINDS)]] if len(toks) == 2 else [KINDS[i % len(KINDS)]]
        for k in dict.fromkeys(kinds):
            small.append(line(k, text))
            if "#define" in text: small.append("fresh")
    c.conform("MalformedTrace", exe, [small[i:i + 40] for i in range(0, len(small), 40)], what="every text of few tokens")
    G = cxxgen.Gen(rng)
    cuts = []
    for _ in range(c.pick(90, 1500)):
        kind, text = decl(rng, G); k2, t2 = decl(rng, G)
        ps = PIECE.findall(text)
        at = [i for i in range(1, len(ps)) if not ps[i - 1].isspace()]
        at = at if len(at) <= 60 else rng.sample(at, 60)
        s = [line(kind, text, "good"), line(k2, t2, "good")]
        for i in at: s += [line(kind, "".join(ps[:i]), "cut")] + (["fresh"] if "#define" in text else [])
        s += [line(k2, t2, "good"), line(kind, text, "good")]
        cuts.append(s)
    c.conform("MalformedTrace", exe, cuts, what="declarations cut off after every token")
    mut = []
    for _ in range(c.pick(500, 9000)):
        s = [f"reg {r}" for r in REGS] if rng.random() < .3 else []
        kind, text = decl(rng, G)
        good = line(kind, text, "good" if not s else "any")
        s.append(good)
        for _ in range(8):
            if rng.random() < .1: k, t = rng.choice(KINDS), "".join(rng.choice(NOISE) + rng.choice(["", " "]) for _ in range(rng.randint(1, 12)))
            else:
                k, t = decl(rng, G)
                if rng.random() < .15: k = "global"
                if rng.random() < .05: k = rng.choice(KINDS)
                t = "".join(mutate(rng, PIECE.findall(t)))
            l = line(k, t.encode("latin-1", "replace").decode("latin-1"))
            s += [l] + (["fresh"] if "define" in t or "define" in text else [])
            if rng.random() < .4: s.append(l)
            if "define" in t or "define" in text: s.append("fresh")
        s.append(good)
        mut.append(s)
    c.conform("MalformedTrace", exe, mut, what="changed programs, with and without registered macros")
    big = []
    for n in c.pick([300, 5000], [300, 1000, 3000, 9000, 40000]):
        for k, t, cl in large(rng, n): big.append([line(k, t, cl)])
    for n in c.pick([8, 60], [8, 30, 60, 120]):
        for k, t, cl in deep(n): big.append([line(k, t, cl)])
    c.conform("MalformedTrace", exe, big, what="texts of unusual size", timeout=120)
    c.assumptions += ["the default configuration: what is refused is reported and ends the process (GEN_FATAL), which the driver takes for the end of the parse",
                      "which of the texts that are neither whole declarations nor beginnings of one are refused is not specified",
                      "declarations are nested at most 120 deep"]


if __name__ == "__main__":
    vf.main(check, "C20")
