"""C11: the lexer. Spec: Lexer.tla; MCLexer (the tokens partition every small text; generates every pair of lexemes with every
separation); LexerTrace."""
import sys, os, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from vf import hexs

PUNCT = ". :: & &= && : { } [ ] ( ) , * *= ; ... [] + ++ += - -- -= -> ->* % %= ^ ^= ~ ! != < << <= <<= > >> >= >>= | || |= = == ? / /=".split()
WORDS = """private protected public class __attribute__ __declspec enum friend module namespace operator struct template typedef using union import export define if ifdef ifndef
elif else endif include pragma alignas const consteval constexpr constinit explicit final forceinline global inline internal local_persist mutable neverinline noexcept override restrict
static thread_local volatile virtual static_assert typename unsigned signed short long bool char int double __int8 __int16 __int32 __int64 _W64 GEN_API extern""".split()


def ident(rng):
    w = rng.choice(WORDS + ["x", "_", "a1", "value", "Type", "float", "void", "auto", "true", "nullptr", "return", "while", "MM", "FM", "u8x", "R2D2", "constant", "iff", "i", "externs"])
    return w if rng.random() < .7 else w + rng.choice(["_t", "1", "X", "_"])


def number(rng):
    d = lambda n=4, a="0123456789": "".join(rng.choice(a) for _ in range(rng.randint(1, n)))
    return rng.choice([lambda: d(), lambda: "0x" + d(5, "0123456789abcdefABCDEF"), lambda: "0b" + d(8, "01"), lambda: d() + "." + d(), lambda: d() + ".", lambda: "." + d(),
                       lambda: d() + rng.choice(["u", "l", "UL", "llu", "z", "f", "_km"]), lambda: d() + "." + d() + rng.choice(["f", "L", "e3", "e-12", "E+5f"]), lambda: d() + "'" + d(3),
                       lambda: d() + "e" + rng.choice(["", "+", "-"]) + d(2), lambda: "0x" + d(2, "0123456789abcdf") + "." + d(2) + "p-" + d(2), lambda: "0" + d(5, "01234567")])()


def literal(rng):
    body = lambda q: "".join(rng.choice(["a", " ", "0", "//", "/*", "\\n", "\\\\", "\\" + q, "\\x41", "#", "'" if q == '"' else '"', "{", ";", "%d", "\\0"]) for _ in range(rng.randint(0 if q == '"' else 1, 6)))
    q = rng.choice(['"', '"', "'"])
    return q + body(q) + q


def comment(rng):
    t = "".join(rng.choice(["a", " ", "x = 1;", "'", '"', "#", "é"[:0], "*", "->", "TODO", "{", "\t"]) for _ in range(rng.randint(0, 6)))
    return rng.choice(["//" + t + rng.choice(["\n", "\r\n"]), "/*" + t.replace("*/", "") + "*/", "/*" + t + "\n" + t + "*/", "/**" + t + " */\n"])


def directive(rng):
    body = lambda: "".join(rng.choice([" ", "a", "1", "( x )", '"s\\"t"', "'c'", "+", "\\\n", " \\\r\n  ", "do { } while(0)", "#x", "a ## b", "// it", "<", "'\\''"]) for _ in range(rng.randint(1, 6)))
    h = rng.choice(["#", "# ", "#\t", "  #", "\t# "])
    nl = rng.choice(["\n", "\n", "\r\n", "\n\n", "\n\n\n"])
    return "\n" + rng.choice([
        lambda: h + "define " + ident(rng) + rng.choice(["", " ", " "]).rstrip(" ") + " " + body(), lambda: h + "define MM" , lambda: h + "define  FM( a, b ) " + body(), lambda: h + "define V(...)" + " __VA_ARGS__",
        lambda: h + "define G( first,\\\n second , ... ) " + body(), lambda: h + "define H()", lambda: h + "define H2( ) 1", lambda: h + "define K( x \\\n ) x", lambda: h + "define K2( x \\\n , y ) x y",
        lambda: h + "if " + body(), lambda: h + "ifdef " + ident(rng), lambda: h + "ifndef " + ident(rng), lambda: h + "elif " + body(), lambda: h + "else", lambda: h + "endif", lambda: h + "else // c",
        lambda: h + "endif /* c */", lambda: h + 'include "a/b.hpp"', lambda: h + "include <vector>", lambda: h + "include<vector>", lambda: h + 'include"a.h" // c', lambda: h + "pragma once", lambda: h + "pragma region a b",
        lambda: h + "if(X)", lambda: h + "undef X", lambda: h + 'error "a \\" b"', lambda: h + "error it is", lambda: h + "line 3", lambda: h + "warning x \\\n y"])() + nl


def source(rng, n):
    out = []
    for _ in range(n):
        r = rng.random()
        out.append(ident(rng) if r < .35 else rng.choice(PUNCT) if r < .65 else number(rng) if r < .75 else literal(rng) if r < .83 else comment(rng) if r < .9 else directive(rng) if r < .97 else "[[" + ident(rng) + "]]")
        out.append(rng.choice([" ", " ", " ", "", "\n", "\t", "  ", "\r\n", "\n\n", " \n \n", "\f", "\n\n\n", ";\n\n", "}\n", "  ;  \n"]))
    return "".join(out)


def corpus(rng, limit):
    """Pieces of the repository's own sources."""
    res = []
    for f in sorted(glob.glob(f"{vf.REPO}/base/**/*.[hc]pp", recursive=True) + glob.glob(f"{vf.REPO}/base/components/gen/*")):
        t = open(f, errors="replace").read()
        t = "".join(ch if 0 < ord(ch) < 127 else "?" for ch in t)
        cur = ""
        for ln in t.splitlines(True):
            cur += ln
            if len(cur) > 700 and not ln.rstrip("\r\n").endswith("\\"):
                res.append(cur); cur = ""
        if cur.strip(): res.append(cur)
    rng.shuffle(res)
    return res[:limit]


def check(c):
    c.model("MCLexer", c.pick("MCLexer.cfg", "MCLexer4.cfg"), what="the tokens partition every small text, with the right places, and a token standing alone is the same token")
    pairs = c.model("MCLexer", "GenLexer.cfg", gen=True, what="every pair of lexemes with every separation")
    rng = c.rng
    if not c.thorough:
        pairs = [p for p in pairs if rng.random() < .45]
    texts = c.model("MCLexer", "MCLexer.cfg", gen=True, what="every small text")
    exe = c.build("lexer.cpp")
    pack = lambda q, n: [[f"lexf {hexs(t)}" for t in q[i:i + n]] for i in range(0, len(q), n)]
    c.conform("LexerTrace", exe, pack(texts + pairs, 100), what="every pair of lexemes")
    c.conform("LexerTrace", exe, pack([source(rng, rng.randint(3, 25)) for _ in range(c.pick(3000, 30000))], 30), what="random sources")
    c.conform("LexerTrace", exe, pack(corpus(rng, c.pick(300, 5000)), 10), what="the repository's own sources")
    c.assumptions += ["texts are followed by a NUL, as literals, files and StrBuilders are",
                      "not in the supported language: prefixed, raw and suffixed literals, .* <=> ## and digraphs outside of directives, comments over several lines within a directive, a stray backslash",
                      "a text outside the supported language is only required not to touch foreign memory"]


if __name__ == "__main__":
    vf.main(check, "C11")
