"""C19: enumerator tables. Spec: Enums.tla; MCEnums (the tables agree with each other and with the other specifications, and their lookups
invert); EnumsTrace (the repository's tables, the library built from the committed enumerations, from regenerated ones, and the generated variants)."""
import sys, os, re, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, variants
from vf import hexs
from collections import Counter


def rows(f, prefix=""):
    out = []
    with open(f"{vf.REPO}/base/enums/{f}", encoding="latin-1") as h:
        for ln in h:
            if not ln.strip(): continue
            n, _, t = ln.partition(",")
            t = t.strip()
            out.append((prefix + n.strip(), t[1:-1] if t.startswith('"') else t))
    return out


def collide(rng, target, tries=200):
    """identifiers with the CRC-32 of another text"""
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    # 32 letters, each one of two, solved as a linear system over GF(2)
    n = 44
    base = bytearray(rng.choice(b"bdfhjlnprtvxz") for _ in range(n))
    alt = [b ^ 1 for b in base]
    c0 = zlib.crc32(bytes(base))
    want = c0 ^ zlib.crc32(target)
    basis = {}
    for i in range(n):
        m = bytearray(base); m[i] = alt[i]
        v, sel = zlib.crc32(bytes(m)) ^ c0, 1 << i
        while v:
            h = v.bit_length()
            if h not in basis: basis[h] = (v, sel); break
            v, sel = v ^ basis[h][0], sel ^ basis[h][1]
    sel = 0
    while want:
        h = want.bit_length()
        if h not in basis: return None
        want, sel = want ^ basis[h][0], sel ^ basis[h][1]
    out = bytes(alt[i] if sel >> i & 1 else base[i] for i in range(n))
    return out.decode() if zlib.crc32(out) == zlib.crc32(target) else None


def check(c):
    gen = c.model("MCEnums", "MCEnums.cfg", gen=True, what="the tables agree with each other, lookups invert them")
    tables = {"op": rows("EOperator.csv"), "spec": rows("ESpecifier.csv"), "tok": rows("ETokType.csv") + rows("AttributeTokens.csv", "Attribute_"), "code": rows("ECodeTypes.csv")}
    head = ["table " + k + "".join(f" {hexs(n.encode())} {hexs(t.encode())}" for n, t in r) for k, r in tables.items()]
    rng = c.rng
    texts = {g["text"] for g in gen}
    listed = sorted({t for r in tables.values() for _, t in r} | {n for r in tables.values() for n, _ in r})
    forged = [x for t in listed for x in [collide(rng, t.encode())] if x]
    for _ in range(c.pick(3000, 60000)):
        t = rng.choice(listed)
        k = rng.randrange(len(t) + 1)
        texts.add(rng.choice([t[:k], t[k:], t[:k] + rng.choice("abcxyz_019 *&=<>") + t[k:], t[:k] + t[k + 1:], t.upper(), t.capitalize(), t[:k] + t[k:k + 1].swapcase() + t[k + 1:],
                              t + rng.choice(listed), "".join(rng.choice("abcdefghijklmnopqrstuvwxyz_") for _ in range(rng.randint(1, 12)))]))
    froms = sorted(texts | set(listed) | set(forged))
    c.extra["texts_with_the_hash_of_a_listed_one"] = len(forged)
    lines = ["from " + hexs(t.encode()) for t in froms]
    scripts = [head + ["kind " + k for k in ("op", "spec", "tok", "code", "access", "macro", "module")]] + [head[1:3] + lines[i:i + 150] for i in range(0, len(lines), 150)]
    few = [scripts[0]] + rng.sample(scripts[1:], min(len(scripts) - 1, 12))
    c.conform("EnumsTrace", c.build("enums.cpp"), scripts, what="the library with its committed enumerations")
    base = variants.regenerated_base(c)
    c.conform("EnumsTrace", c.build("enums.cpp", incs=[base]), few, what="the library with the enumerations generated from the tables")
    c.conform("EnumsTrace", c.build("enums.cpp", incs=[variants.variant(c, "singleheader")], defs=("-DVF_SINGLE",)), few, what="the generated single header")
    c.conform("EnumsTrace", c.build("enums.cpp", incs=[variants.variant(c, "segmented")], defs=("-DVF_SEGMENTED",)), few, what="the generated segmented library")
    c.conform("EnumsTrace", c.build("enums.cpp", defs=("-DVF_CLIKE",)), few, what="the library with its C-like interface")
    c.assumptions += ["texts are ASCII"]


if __name__ == "__main__":
    vf.main(check, "C19")
