"""C22: memory primitives and checksums. Spec: Memory.tla; MCMemory/GenMemory; MemoryTrace."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

VALUES = [0, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff]


def check(c):
    c.model("MCMemory", "MCMemory.cfg", what="all histories on four bytes; the checksums' published check values")
    gen = c.model("MCMemory", "GenMemory.cfg", gen=True, what="generator: all pairs of operations on four bytes")
    rng = c.rng
    scripts = [["new 0 4 0"] + [" ".join(map(str, o)) for o in h] for h in gen]
    rng.shuffle(scripts)
    scripts = scripts[: c.pick(1500, 60000)]
    grid, top = [], c.pick(76, 200)
    for res in range(8):          # every residue of the address, every length up to several times the unrolled strides
        s = [f"new {res} {top + 12} {res}"]
        for n in range(top): s.append(f"set {rng.randrange(12)} {rng.choice(VALUES)} {n}")
        grid.append(s)
        s = [f"new {res} {top + 12} {res + 8}"]
        for n in range(top):
            d = rng.randrange(12); s.append(f"zero {d} {n}")
            if n: s.append(f"set {d} {rng.randrange(1, 256)} {n}")
        grid.append(s)
    span = c.pick(40, 90)
    for dist in range(-18, 19):    # overlapping in both directions, at every distance about two words
        s = []
        for n in range(0, span, 1 if c.thorough else 3):
            n += rng.randrange(3) if not c.thorough else 0
            a = rng.randrange(8); s.append(f"new {rng.randrange(8)} {span + 40} {rng.randrange(200)}")
            s.append(f"move {max(0, dist) + a} {max(0, -dist) + a} {n}")
            if abs(dist) >= n: s.append(f"copy {max(0, dist) + a} {max(0, -dist) + a} {n}")
        grid.append(s)
    for res in range(8):
        s = [f"new {res} 60 {res}"]
        for n in list(range(0, 28)) + [40, 59]:
            for _ in range(c.pick(3, 20)):
                d = rng.randrange(60 - n + 1 if n < 59 else 1)
                if rng.random() < .5: s.append(f"set {rng.randrange(40)} {rng.choice(VALUES)} {rng.randrange(0, 20)}")
                s.append(f"find {rng.choice(VALUES + [rng.randrange(256)] * 4)} {d} {n}")
        s += [f"swap {rng.randrange(20)} {20 + rng.randrange(20)} {rng.choice([1, 2, 5])}" for _ in range(10)] + ["null 3", "null 0"]
        grid.append(s)
    one = ["new 0 1 0"]
    for x in list(range(-40, 70)) + [96, 100, 127, 128, 129, 255, 256, 511, 512, 1000, 1024, 4095, 4096]:
        if -500 < x < 500 or x > 0: one.append(f"arith {x} {rng.choice([1, 2, 4, 8, 16, 32, 64])}")
    grid.append(one)
    crc = []
    msgs = [bytes([b]) for b in range(256)] + [b"", b"123456789", bytes(7), b"\xff" * 8] + [bytes(rng.randrange(256) for _ in range(rng.randrange(1, 24))) for _ in range(c.pick(40, 400))]
    for k in range(0, len(msgs), 20): crc.append([f"crc x{m.hex()} {rng.randrange(8)}" for m in msgs[k:k + 20]])
    exe = c.build("memory.cpp")
    c.conform("MemoryTrace", exe, scripts, what="every pair of operations of the generated table")
    c.conform("MemoryTrace", exe, grid, what="lengths, residues, distances and overlaps")
    c.conform("MemoryTrace", exe, crc, what="checksums of every byte and of random messages")
    opt = c.build("memory.cpp", opt="-O2", asan=False, name="memory-O2")
    c.conform("MemoryTrace", opt, grid, what="lengths, residues, distances and overlaps (optimised build)")
    c.assumptions += ["copying is asked for only between ranges that do not overlap", "alignments are powers of two", "every range lies within memory that may be read"]


if __name__ == "__main__":
    vf.main(check, "C22")
