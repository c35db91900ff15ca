"""C13: building and parsing. Spec: Syntax.tla and Upfront.tla (MCSyntax generates declarations of every kind); UpfrontTrace (conformance)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, json
from vf import hexs
import cxxgen as g


def both(d, rng):
    """built, compared with what was wanted, written, and what was written parsed; and its text in another layout parsed"""
    r = g.build_ops(d, rng)
    if not r: return None
    ops, i = r
    out = ops + [f"same {i} {hexs(json.dumps(d))}", f"ser {i}", f"back {i}"]
    if d["t"].replace("_Fwd", "") in g.FRAGMENTS: out.append(g.parse_op(i + 1, d, rng, rng.choice([(), ("wide",), ("lines",)])))
    return out


def scripts(ds, rng):
    return [s for s in (both(d, rng) for d in ds) if s]


def check(c):
    rows = [r["d"] for r in c.model("MCSyntax", "MCSyntax.cfg", gen=True, what="declarations of every kind, systematically")]
    c.rng.shuffle(rows)
    exe = c.build("upfront.cpp")
    sys_ = scripts(rows, c.rng)
    c.extra["declarations the constructors can express"] = f"{len(sys_)} of {len(rows)}"
    c.conform("UpfrontTrace", exe, sys_ if c.thorough else sys_[:2600], what="declarations of every kind, built and parsed")
    G = g.Gen(c.rng)
    ds = [G.any("global", 1) for _ in range(c.pick(1500, 30000))]
    c.conform("UpfrontTrace", exe, scripts(ds, c.rng), what="random declarations, built and parsed")
    fs = [G.file(c.rng.randrange(1, 7)) for _ in range(c.pick(300, 5000))]
    c.conform("UpfrontTrace", exe, scripts(fs, c.rng), what="random files, built and parsed")
    c.assumptions += ["declarations the constructors can express: no declaration lists, bit fields, specifiers of constructors, parameters without names, arrays of arrays",
                      "verbatim text in a body ends where a lexeme ends (with white space)"]


if __name__ == "__main__":
    vf.main(check, "C13")
