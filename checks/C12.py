"""C12: parsing and serialising. Spec: Syntax.tla (checked in MCSyntax, which also generates declarations of every kind); UpfrontTrace (conformance)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import cxxgen as g

STYLES = [(), (), ("wide",), ("lines",), ("west",), ("comments", "lines"), ("wide", "west", "lines"), ("wide", "comments")]
MORE = ("Typename", "Friend", "Export_Body")


def parsable(t):
    return t.replace("_Fwd", "") in g.FRAGMENTS


def fragments(rng, n):
    out, G, style = [], g.Gen(rng), rng.choice(STYLES)
    while len(out) < n:
        r = rng.random()
        d = G.type() if r < .03 else G.friend() if r < .07 else G.export_body() if r < .1 else G.any("global", 1)
        if parsable(d["t"]): out.append(g.parse_op(len(out) % 3 + 1, d, rng, style))
    return out


def files(rng, n):
    G = g.Gen(rng)
    return [g.parse_op(i + 1, G.file(rng.randrange(1, 9)), rng, rng.choice(STYLES)) for i in range(n)]


def systematic(rows, rng, style, per=40):
    rows = [r["d"] for r in rows if parsable(r["d"]["t"])]
    return [[g.parse_op(k % 2 + 1, d, rng, style) for k, d in enumerate(rows[i:i + per])] for i in range(0, len(rows), per)]


def check(c):
    rows = c.model("MCSyntax", "MCSyntax.cfg", gen=True, what="declarations of every kind, systematically")
    c.rng.shuffle(rows)
    exe = c.build("upfront.cpp")
    c.conform("UpfrontTrace", exe, systematic(rows, c.rng, ()), what="declarations of every kind, systematically")
    for style in c.pick([c.rng.choice(STYLES[2:])], STYLES[2:]):
        c.conform("UpfrontTrace", exe, systematic(rows if c.thorough else rows[:2000], c.rng, style), what="the same, laid out differently: " + ", ".join(style))
    c.conform("UpfrontTrace", exe, [fragments(c.rng, 6) for _ in range(c.pick(400, 6000))], what="random declarations of every kind")
    c.conform("UpfrontTrace", exe, [files(c.rng, 3) for _ in range(c.pick(150, 2500))], what="random files")
    d = g.body("Global_Body", [g.body("Export_Body", [g.node("Variable", "a", v=g.typ("int"))])])
    c.known_case("export-in-file", "UpfrontTrace", exe, [g.parse_op(1, d, c.rng, ())])
    c.assumptions += ["declarations of the kinds and places docs/Parsing.md and the parser's tables of specifiers admit; the rest is refused and not looked at",
                      "the parser is given no registered macros here (C09)"]


if __name__ == "__main__":
    vf.main(check, "C12")
