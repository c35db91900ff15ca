"""C16: formatted printing. Spec: Format.tla; MCFormat (exhaustive directive table); FormatTrace."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from vf import hexs


def piece(k, minus=0, zero=0, width=-1, prec=-1, mod="", star=0, text="", v=0):
    return f"{'PC' if k == '%' else k}/{int(minus)}/{int(zero)}/{width}/{prec}/{mod}/{star}/{hexs(text)}/{v}"


def u64(l):
    return (l[0] << 48) | (l[1] << 32) | (l[2] << 16) | l[3]


def rpiece(rng, last):
    k = rng.choice(["lit", "lit", "s", "s", "S", "SB", "d", "i", "u", "x", "X", "c", "r", "%", "p", "o"])
    w = rng.choice([-1, -1, -1, 1, 3, 8, 20]); star = rng.choice([0, 0, 1]); minus = rng.random() < .3
    text = "".join(rng.choice("abc XYZ_:<>09") for _ in range(rng.choice([0, 1, 2, 5, 20])))
    if k == "lit":
        if last: text = rng.choice(["q", ";"]) + text
        return piece("lit", text=text)
    if k == "%": return piece("%")
    if k == "c": return piece("c", minus, width=w, text=rng.choice("aZ 0"))
    if k == "r": return piece("r", width=rng.choice([-1, 1, 4, 12]), text=rng.choice("-= *"))
    if k == "s": return piece("s", minus, width=w, prec=rng.choice([-1, -1, rng.randint(0, len(text))]), star=star, text=text)
    if k in ("S", "SB"): return piece(k, minus, width=w, star=star, text=text)
    v = rng.choice([0, 1, 42, 2**31 - 1, 2**31, 2**32 - 1, 2**63 - 1, rng.getrandbits(64), rng.getrandbits(31), 2**64 - 1 - rng.getrandbits(20)])
    if k == "p": return piece("p", width=w, v=v)
    mod = rng.choice(["", "", "hh", "h", "l", "ll", "z"])
    if mod == "z" and k in "dio": mod = "l"
    if k == "o": mod = "l"; v &= 2**63 - 1
    zero = 0
    if w > 0 and not minus and k in "uxX": zero = rng.random() < .4
    return piece(k, minus, zero, w, mod=mod, star=star, v=v)


def check(c):
    gen = c.model("MCFormat", "MCFormat.cfg", gen=True, what="every directive over small constants; generator of the table")
    table, script = [], []
    for i, d in enumerate(gen):
        p = piece(d["k"], d["minus"], d["zero"], d["width"], d["prec"], d["mod"], i % 2 if d["width"] >= 0 else 0, bytes(d["text"]).decode(), u64(d["v"]))
        script.append(f"fmt {['va', 'va', 'buf'][i % 3]} x {p} {piece('lit', text=';')}")
        if len(script) == 40:
            table.append(script); script = []
    table.append(script)
    rng = c.rng
    rnd = []
    for _ in range(c.pick(120, 2500)):
        s = []
        for _ in range(25):
            ps = [rpiece(rng, False) for _ in range(rng.randint(1, 6))]
            entry = rng.choice(["va", "va", "buf", "file", "fmt", "sbfmt", "sbfmtbuf", "append", "msbfmt", "msbfmtbuf", "mappend"])
            if entry not in ("va", "buf", "file"):
                ps = [p for p in ps if not p.startswith("S/")][:4]   # a Str argument would straddle registers and stack
                if not ps: continue
            s.append(f"fmt {entry} {hexs('pre'[: rng.randint(0, 3)])} {' '.join(ps)}")
        rnd.append(s)
    exe = c.build("format.cpp")
    c.conform("FormatTrace", exe, table, what="every directive of the generated table")
    c.conform("FormatTrace", exe, rnd, what="random formats through every entry point")
    # buffers around the length of the text, and texts longer than the printer's own buffer
    tight = []
    for _ in range(c.pick(60, 1200)):
        s = []
        for _ in range(25):
            ps = [rpiece(rng, False) for _ in range(rng.randint(1, 4))]
            entry = rng.choice(["va", "va", "fmt", "sbfmt", "msbfmt"])
            if entry != "va": ps = [p for p in ps if not p.startswith("S/")] or [piece("lit", text="abc")]
            cap = rng.choice([1, 2, 3, 4, rng.randint(1, 12), rng.randint(1, 40), rng.randint(1, 120)])
            s.append(f"fmt {entry}:{cap} x {' '.join(ps)}")
        tight.append(s)
    for i, d in enumerate(gen):
        if i % c.pick(9, 1) == 0:
            p = piece(d["k"], d["minus"], d["zero"], d["width"], d["prec"], d["mod"], 0, bytes(d["text"]).decode(), u64(d["v"]))
            n = max(d["width"], {"c": 1}.get(d["k"], len(d["text"]) if d["k"] in ("s", "S", "SB") else rng.randint(1, 20)))
            tight.append([f"fmt va:{cap} x {p}" for cap in range(max(1, n - 1), n + 3)])
    c.conform("FormatTrace", exe, tight, what="buffers that the text may not fit")
    long = []
    for n in (131070, 131071, 131072, 131073, 262144, c.pick(300000, 1000000)):
        big = piece("s", text="".join(rng.choice("abcdefgh") for _ in range(n - 5)))
        for entry in ("sbfmtbuf", "append", "msbfmtbuf", "mappend", "buf", f"va:{n}", f"va:{n + 1}", f"va:{n - 1}"):
            long.append([f"fmt {entry} {hexs('pre')} {piece('lit', text='<')} {big} {piece('d', width=4, v=7)}"])
    c.conform("FormatTrace", exe, long if c.thorough else rng.sample(long, 14), what="long texts")
    c.assumptions += ["which beginning of a text that does not fit is kept is not specified", "floating point conversions are not specified (numeric accuracy is outside this technique)",
                      "zero padding of negative numbers and precision of integers are not specified"]


if __name__ == "__main__":
    vf.main(check, "C16")
