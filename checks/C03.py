"""C03: interning. Spec: Context.tla; MCIntern (store design with arenas, collisions, lengths); ContextTrace."""
import sys, os, zlib, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from vf import hexs


def fcrc(prefix, target):
    """Four bytes that, appended to prefix, give the CRC-32 target."""
    tbl = [0] * 256
    for i in range(256):
        v = i
        for _ in range(8): v = (v >> 1) ^ (0xEDB88320 if v & 1 else 0)
        tbl[i] = v
    rev = {tbl[i] >> 24: i for i in range(256)}
    want = target ^ 0xFFFFFFFF
    idx = []
    for _ in range(4):
        i = rev[want >> 24]; idx.append(i); want = ((want ^ tbl[i]) << 8) & 0xFFFFFFFF
    state = (zlib.crc32(prefix) ^ 0xFFFFFFFF)
    out = b""
    for i in reversed(idx):
        b = (state ^ i) & 0xFF; out += bytes([b]); state = (state >> 8) ^ tbl[i]
    assert zlib.crc32(prefix + out) == target
    return out


def lit(b):
    return "x" + b.hex()


def forged(rng, base, k):
    """k texts with the same CRC-32 as base, without NUL bytes and spelled in Latin-1."""
    out = []
    while len(out) < k:
        p = bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyz_0123456789") for _ in range(rng.randint(1, 12)))
        t = p + fcrc(p, zlib.crc32(base))
        if 0 not in t and all(32 < ch < 127 and ch not in (34, 92) for ch in t): out.append(t)
    return out


PAIRS = [("plumless", "buckeroo"), ("codding", "gnu"), ("exhibiters", "schlager")]


def check(c):
    rng = c.rng
    c.model("MCIntern", "MCIntern.cfg", what="string store (table over string arenas) implements interning; stored strings are disjoint; all histories up to depth 7")
    gen = c.model("MCIntern", "GenIntern.cfg", gen=True, what="behaviour generation")
    pairs = [p for p in PAIRS if zlib.crc32(p[0].encode()) == zlib.crc32(p[1].encode())]
    assert pairs
    fam = [forged(rng, b"base", 3) for _ in range(c.pick(3, 12))]
    if not c.thorough:
        rng.shuffle(gen); gen = gen[:900]
    scripts = []
    for h in gen:
        # the model's arena of 8 and limit of 9: an arena of 256 bytes, a limit of 400 and the lengths in proportion
        f = rng.choice(fam)
        m = {"a": lit(f[0]), "b": lit(f[1]), "c": lit(f[2]), "d": "x6420", "L": f"R 76 {rng.choice([300, 399, 400])}", "M": f"R 77 {rng.choice([401, 500, 4000])}"}
        scripts.append([f"cinit 1 {rng.choice('fc')} 256 400 256"] + ["intern " + m[t] for t in h])
    words = [w.encode() for p in pairs for w in p]
    rnd = []
    for _ in range(c.pick(150, 3000)):
        arena = rng.choice([96, 128, 200, 256, 1000, 4096]); lim = rng.choice([0, 40, arena - 1, arena, arena + 50, 4 * arena])
        s = [f"cinit 1 {rng.choice('fcp')} {arena} {lim} 256"]
        own = words + [t for f in rng.sample(fam, 2) for t in f]
        for _ in range(rng.choice([20, 60, 150])):
            r = rng.random()
            if r < .35: s.append("intern " + lit(rng.choice(own)))
            elif r < .5: s.append("intern " + lit(bytes(rng.choice(b"ab") for _ in range(rng.randint(0, 6)))))
            elif r < .75:
                n = rng.choice([1, 2, 30, 61, lim - 1, lim, lim + 1, arena - 48, arena - 40, arena - 33, arena - 32, arena - 31, arena - 24, arena - 16, arena - 1, arena, arena + 1, 2 * arena, 3 * arena + 7])
                s.append(f"intern R {rng.choice([65, 66])} {max(1, n)}")
            elif r < .9: s.append(f"part {rng.randint(0, 40)} {rng.randint(0, 30)} {rng.randint(0, 20)}")
            elif r < .94: s.append("creset 1")
            else: s.append("intern " + lit(rng.choice([b"public:\n", b"int", b"auto", b"Global Code", b"...", b"", b" ", b"enum_underlying"])))
        rnd.append(s)
    # many texts: the table grows over and over, every text is asked for again afterwards
    many = []
    for k in range(c.pick(3, 10)):
        n = c.pick(700, 2500)
        texts = [b"n%d" % i for i in range(n)] + [t for f in fam for t in f] + words
        rng.shuffle(texts)
        s = [f"cinit 1 {rng.choice('fc')} {rng.choice([128, 1000, 65536])} {rng.choice([0, 8])} 256"]
        for t in texts: s.append("intern " + lit(t))
        for t in rng.sample(texts, len(texts) // 2): s.append("intern " + lit(t))
        many.append(s)
    exe = c.build("context.cpp")
    c.conform("ContextTrace", exe, scripts, what="generated interning histories")
    c.conform("ContextTrace", exe, rnd, what="random interning histories")
    c.conform("ContextTrace", exe, many, what="many texts", timeout=200)
    c.extra["colliding_texts"] = [p for p in pairs] + [[t.decode("latin-1") for t in f] for f in fam[:2]]
    c.assumptions += ["texts longer than the configured sharing limit are stored anew each time", "stored strings are read-only to the caller"]


if __name__ == "__main__":
    vf.main(check, "C03")
