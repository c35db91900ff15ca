"""C04: arenas, fixed arenas, pools, fallback buckets. Spec: Alloc.tla; MCAlloc/GenAlloc; AllocTrace."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

ALIGNS = [1, 2, 4, 8, 16, 16, 16, 32, 64]


def check(c):
    c.model("MCAlloc", "MCAlloc.cfg", what="bump arena and free-list pool designs, all histories up to depth 6")
    gen = c.model("MCAlloc", "GenAlloc.cfg", gen=True, what="behaviour generation")
    scripts = [[" ".join(map(str, e)) for e in h] for h in gen]
    rng = c.rng
    rnd = []
    for _ in range(c.pick(300, 5000)):
        s, nid, al, live = [], 1, {}, {"A": [], "B": [], "P": [], "Q": [], "F": []}
        hows = ["mem", "mem", "alloc", "sub", "fixed"]
        s.append(f"anew A {rng.choice([0, 1, 4, 8, 16, 24])} {rng.choice([64, 200, 1000, 5000])} {rng.choice(hows)}")
        s.append(f"anew B {rng.choice([0, 1, 4, 8, 16, 24])} {rng.choice([0, 64, 333])} {rng.choice(hows[:2])}")
        s.append(f"pnew P {rng.choice([1, 2, 3, 7, 20])} {rng.choice([8, 24, 40, 100, 128])} {rng.choice([8, 16, 16, 32])}")
        s.append(f"pnew Q {rng.choice([1, 5])} {rng.choice([16, 208])} 16")
        bucket = rng.choice([8192, 16384])
        withf = rng.random() < .5
        if withf: s.append(f"fnew F {bucket}")
        for _ in range(rng.choice([20, 60])):
            op = rng.choice(["alloc"] * 4 + ["resize", "free", "freeall", "remaining"] + ["palloc"] * 5 + ["pfree"] * 3 + ["pclear", "pfreeall"] + (["falloc"] * 4 + ["fresize"] if withf else []))
            a = rng.choice("AAB") if op[0] in "ar" or op in ("free", "freeall") else rng.choice("PPQ") if op[0] == "p" else "F"
            size = rng.choice([0, 1, 2, 3, 7, 8, 12, 16, 17, 30, 64, 100, 500])
            if op in ("freeall", "pclear", "pfreeall") and rng.random() < .7: continue
            if op in ("alloc", "falloc"):
                if op == "falloc" and rng.random() < .2: size = rng.choice([3000, bucket - 16, bucket, bucket + 1, 4000, bucket // 2])
                al[nid] = rng.choice(ALIGNS)
                s.append(f"{op} {a} {nid} {size} {al[nid]}"); live[a].append(nid); nid += 1
            elif op == "palloc": s.append(f"palloc {a} {nid}"); live[a].append(nid); nid += 1
            elif op in ("resize", "fresize", "free", "pfree"):
                if not live[a]: continue
                i = rng.choice(live[a])
                if op in ("free", "pfree"): live[a].remove(i); s.append(f"{op} {a} {i}")
                else: s.append(f"{op} {a} {i} {rng.choice([1, 8, 9, 40, 200, 800])} {al[i]}")
            elif op == "remaining": s.append(f"remaining {a} {rng.choice(ALIGNS)}")
            else: s.append(f"{op} {a}"); live[a] = []
        rnd.append(s)
    heap = []
    for _ in range(c.pick(60, 1500)):
        s, live = [], {}
        for nid in range(1, rng.choice([10, 40])):
            a = rng.choice(ALIGNS[3:])
            if live and rng.random() < .4:
                i = rng.choice(list(live))
                if rng.random() < .5: s.append(f"hfree {i}"); del live[i]
                else:
                    n = rng.choice([0, 1, 8, 9, 40, 200, 5000]); s.append(f"hresize {i} {n} {live[i]}")
                    if not n: del live[i]
            s.append(f"halloc {nid} {rng.choice([1, 2, 7, 8, 15, 16, 17, 30, 31, 32, 33, 100, 1000, 4096])} {a}"); live[nid] = a
        heap.append(s + [f"hfree {i}" for i in live])
    exe = c.build("alloc.cpp")
    c.conform("AllocTrace", exe, scripts, what="every history of the generated table")
    c.conform("AllocTrace", exe, rnd, what="random histories over several allocators")
    c.conform("AllocTrace", exe, heap, what="random histories of the heap")
    c.conform("AllocTrace", c.build("alloc.cpp", defs=("-DGEN_HEAP_ANALYSIS",)), heap, what="random histories of the heap with its bookkeeping")
    c.conform("AllocTrace", c.build("alloc.cpp", defs=("-DVF_CLIKE",)), rnd[: len(rnd) // 4] + heap[:10], what="random histories (C-like API)")
    c.assumptions += ["alignments are powers of two", "a pool is asked for blocks of its own size and alignment, large enough for a pointer",
                      "a resize gives the alignment the block was obtained with"]


if __name__ == "__main__":
    vf.main(check, "C04")
