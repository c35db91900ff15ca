"""C14: token substitution. Spec: TokenFmt.tla; MCTokenFmt (scanner machine, exhaustive; generates the calls); TokenFmtTrace."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from vf import hexs


def call(op, cap, t, m):
    return f"{op} {cap} {hexs(bytes(t))}" + "".join(f" {hexs(bytes(n))} {hexs(bytes(v))}" for n, v in m)


def check(c):
    gen = c.model("MCTokenFmt", c.pick("MCTokenFmt.cfg", "MCTokenFmt6.cfg"), gen=True, what="scanner machine over all small templates, maps and buffers")
    lines = []
    for i, g in enumerate(gen):
        m = [(e["n"], e["v"]) for e in g["m"]]
        lines.append(call("va", g["cap"], g["t"], m))
        if g["cap"] == 64:
            lines.append(call("impl" if i % 3 else "code", 0, g["t"], m))
    table = [lines[i:i + 60] for i in range(0, len(lines), 60)]
    rng = c.rng
    names = ["a", "b", "type", "Type", "name", "A_very_long_token_name_indeed", "x1", "type_", "typ", "", "plumless", "buckeroo", "codding", "gnu"]  # some of the same hash
    rnd = []
    for _ in range(c.pick(150, 3000)):
        s = []
        for _ in range(12):
            k = rng.randint(0, 4)
            given = [rng.choice(names) for _ in range(k)]
            m = [(n.encode(), "".join(rng.choice(["<", ">", "<type>", "int", "x" * rng.randint(0, 90), "\n", " "]) for _ in range(rng.randint(0, 4))).encode()) for n in given]
            t = "".join(rng.choice(["<", ">", " ", "\n", "int", "::", "; ", "<<", "->", "\t"] + [f"<{n}>" for n in names] * 2 + [f"<{n}" for n in names] + [f"< {n}>" for n in names[:2]])
                        for _ in range(rng.randint(0, 25))).encode()
            op = rng.choice(["va", "va", "impl", "impl", "code", "str", "fmt"])
            if op == "fmt":
                m = [(b"pre" * rng.randint(0, 5), b"post" * rng.randint(0, 5))]
            if op in ("str", "code"):
                t = t.replace(b"\n", b" ")
            s.append(call(op, rng.choice([0, 1, 7, 30, 100, 5000]) if op == "va" else 0, t, m))
        rnd.append(s)
    for defs in ((), ("-DVF_CLIKE",)):
        if defs and not c.thorough:
            continue
        exe = c.build("tokenfmt.cpp", defs=defs)
        c.conform("TokenFmtTrace", exe, table, what="every generated template")
        c.conform("TokenFmtTrace", exe, rnd, what="random templates through every entry point")
    c.assumptions += ["untyped_token_fmt is not specified: its format parameter and its argument list contradict each other"]


if __name__ == "__main__":
    vf.main(check, "C14")
