"""C09: registered macros. Spec: Macros.tla (on Lexer.tla); MCMacros/GenMacros; MacrosTrace."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from vf import hexs

ARGS, BODY = "( 1, (b) )", " { x { y; } }"


def src(it):
    n = it["name"]; use = n + (ARGS if it["args"] else "")
    return {"stmt": use + (BODY if it["body"] else "") + (it["sp"] + ";" if it["semi"] else "") + "\n", "type": f"{use} x;\n", "fn": f"{use} f( {use} a );\n", "name": f"int {n};\n",
            "fname": f"void {n}();\n", "pname": f"void f( int {n} );\n", "attr": f"{use} int x;\n", "fattr": f"{use} void f();\n", "param": f"void f( {use} int a, int b );\n",
            "param2": f"void f( int a, int b {use} );\n", "value": f"int v = {use} + 1;\n", "spec": f"virtual void f() {use};\n", "def": f"static {use}\n",
            "define": f"#define {n}" + ("( p, q ) p + q\n" if it["args"] else " 1\n"), "enum": f"enum E {{ A {use}, B }};\n", "typedef": f"typedef {use} Q;\n"}[it["form"]]


OPEN = {"global": "", "namespace": "namespace S {\n", "struct": "struct S {\n", "class": "class S {\n", "extern": 'extern "C" {\n'}
CLOSE = {"global": "", "namespace": "}\n", "extern": "}\n", "struct": "};\n", "class": "};\n"}


def lines(h, name, rng):
    out = []
    for e in h:
        if e[0] == "reg":
            out.append(f"reg {name} {e[2]} {e[3]} {rng.randint(0, 4)}")
        else:
            its = [{**i, "name": name} for i in e[2]]
            out.append(f"file {e[1]} {hexs(json.dumps(its))} {hexs(OPEN[e[1]] + ''.join(map(src, its)) + CLOSE[e[1]] + 'int last;' + chr(10))}")
        if rng.random() < .2: out.append(f"lookup {name}")
    return out


def collisions():
    """Identifiers of the same CRC-32."""
    import zlib
    seen, res, k = {}, [], 0
    while len(res) < 4:
        n = "M" + str(k) + "_" + str(k * 7919 % 100003); k += 1
        h = zlib.crc32(n.encode())
        if h in seen: res.append((seen[h], n))
        seen[h] = n
    return res


def source(rng, names):
    from C11 import source as general
    import re
    out = []
    for _ in range(rng.randint(2, 9)):
        n = rng.choice(names)
        out.append(rng.choice([n, n + "( a )", n + "(", n + " (", n + "\n", n + "\n\n", n + "(1)\n\n", n + "x", "x" + n, n + ";", n + "::" + n, f"\n#define {n} 1\n", f"\n#define {n}( a ) a\n", f"\n#ifdef {n}\n",
                                 '"' + n + '"', "// " + n + "\n", n + "\r\n", n + " // c\n", "struct " + n, n + "," + n]))
        out.append(rng.choice(["", " ", "\n", ";\n\n"]) if not out[-1][-1].isalnum() else rng.choice([" ", "\n", ";", "\t"]))
    return "".join(out) if rng.random() < .8 else "".join(out) + general(rng, 5)


def check(c):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    c.model("MCMacros", "MCMacros.cfg", what="the lexer sees a macro in a file exactly where the registry says so, every registration and every two files")
    gen = c.model("MCMacros", "GenMacros.cfg", gen=True, what="every registration and re-registration with every file of one item")
    rng = c.rng
    if not c.thorough: gen = [h for h in gen if len(h) < 3 or rng.random() < .15]
    rng.shuffle(gen)
    # many registrations: every history gets a name of its own, and all share one registry
    scripts = []
    for i in range(0, len(gen), 40):
        s = []
        for k, h in enumerate(gen[i:i + 40]): s += lines(h, rng.choice(["N", "MACRO_", "wx"]) + str(k), rng)
        s += [f"lookup {p}{k}" for k in range(41) for p in ("N", "wx", "other")]
        scripts.append(s)
    col = collisions()
    hist = []
    for _ in range(c.pick(250, 3000)):
        pair = rng.choice(col)
        names = rng.choice([["AA", "BB", "AAA"], [*pair, "Z"], [f"n{k}" for k in range(60)], ["A", "AB", "enum_underlying", "_"], ["struct", "inline", "GEN_API", "MM"]])
        s = []
        for _ in range(rng.choice([12, 40])):
            r = rng.random()
            if r < .35: s.append(f"reg {rng.choice(names)} {rng.choice(['stmt', 'expr', 'type'])} {rng.choice([0, 1, 1, 3, 4, 5, 8, 9, 16, 17, 32, 33, 41])} {rng.randint(0, 4)}")
            elif r < .6: s.append(f"lookup {rng.choice(names)}")
            else: s.append("lex " + hexs(source(rng, names)))
        hist.append(s)
    exe = c.build("lexer.cpp")
    c.conform("MacrosTrace", exe, scripts, what="every registration and file")
    c.conform("MacrosTrace", exe, hist, what="random histories of registrations, lookups and source texts")
    c.assumptions += ["an argument list follows the name of a functional macro directly", "a macro that may stand for an identifier does so as the name of a variable, function or parameter",
                      "forms a kind of macro has no meaning in (a type macro where a statement is expected) are malformed input: C20"]


if __name__ == "__main__":
    vf.main(check, "C09")
