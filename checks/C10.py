"""C10: context lifecycle. Spec: Context.tla; MCContext/GenContext; ContextTrace."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from vf import hexs


def check(c):
    c.model("MCContext", "MCContext.cfg", what="string cache with colliding hashes in two contexts implements interning, all histories up to depth 8")
    gen = c.model("MCContext", "GenContext.cfg", gen=True, what="behaviour generation")
    rng = c.rng
    full = max(len(h) for h in gen)
    gen = [h for h in gen if len(h) == full]
    if not c.thorough:
        rng.shuffle(gen); gen = gen[:1500]
    scripts = []
    for h in gen:
        s = []
        kind = {}
        for e in h:
            if e[0] == "cinit":
                s.append(f"cinit {e[1]} {rng.choice('fcp')} {rng.choice([512, 4096])} {rng.choice([0, 100])} {rng.choice([128, 512])}")
                if rng.random() < .3: s.append("const")
            elif e[0] == "intern": s.append("intern " + hexs(e[1]))
            elif e[0] == "sample": s.append(f"sample {rng.randint(1, 8)}")
            else: s.append(" ".join(map(str, e)))
        scripts.append(s)
    rnd = []
    for _ in range(c.pick(120, 2500)):
        up, cur, base, s = set(), 0, 0, []
        for _ in range(rng.choice([15, 40])):
            op = rng.choice(["cinit", "cinit", "cswitch", "creset", "cdeinit"] + ["intern"] * 4 + ["reg", "def", "lookup", "lookup", "sample", "sample", "const"])
            k = rng.randint(1, 3)
            if op == "cinit":
                if k in up: continue
                s.append(f"cinit {k} {rng.choice('fcp')} {rng.choice([256, 1024, 65536])} {rng.choice([0, 60, 300])} {rng.choice([96, 400])}"); up.add(k); cur = k; base = base or k
            elif op == "cswitch":
                if k not in up: continue
                s.append(f"cswitch {k}"); cur = k
            elif op == "creset":
                if k in up: s.append(f"creset {k}")
            elif op == "cdeinit":
                if k not in up or (k == base and len(up) > 1): continue
                s.append(f"cdeinit {k}"); up.discard(k)
                if cur == k: cur = 0
                if base == k: base = 0
            elif cur:
                if op == "intern": s.append(rng.choice([f"intern {hexs('t%d' % rng.randint(0, 30))}", f"intern R {rng.randint(65, 90)} {rng.choice([61, 100, 299, 300, 301, 1000])}"]))
                elif op == "reg":  # a name keeps its shape: what follows a #define of a name registered with another shape is C09's and C20's
                    nm = rng.choice(['MM', 'M2', 'M3']); s.append(f"reg {nm} {rng.choice(['expr', 'stmt', 'type'])} {rng.choice({'MM': [0, 4], 'M2': [1, 5], 'M3': [0, 1, 4]}[nm])}")
                elif op == "def": s.append(f"def {rng.choice(['MM 0', 'M2 1', 'M4 0', 'M5 1'])}")
                elif op == "lookup": s.append(f"lookup {rng.choice(['MM', 'M2', 'M3', 'M4', 'M5', 'enum_underlying', 'other'])}")
                elif op == "sample": s.append(f"sample {rng.randint(1, 8)}")
                else: s.append("const")
        rnd.append(s)
    # long use of one context: pools and string arenas grow, then reset, several times over
    long = []
    for kind in "fc":
        s = [f"cinit 1 {kind} 1024 0 64", "const", "sample"]
        for _ in range(c.pick(4, 25)):
            for q in range(20): s += ["sample", f"intern {hexs('u%d' % q)}"]
            s += ["const", "creset 1", "const"]
        s += ["sample", f"cinit 2 {kind} 1024 0 64", "sample", "creset 1", "const", "sample", "cswitch 1", "sample", "cdeinit 2", "sample", "cdeinit 1", "cinit 3 f", "const", "sample"]
        long.append(s)
    exe = c.build("context.cpp")
    c.conform("ContextTrace", exe, scripts, what="generated lifecycle histories")
    c.conform("ContextTrace", exe, rnd, what="random lifecycle histories")
    c.conform("ContextTrace", exe, long, what="long use with resets", timeout=200)
    c.assumptions += ["the context initialised first outlives the others (documented)", "only the active context is used", "memory given by the caller's temporary allocator is the caller's",
                      "a macro MM of the caller and nothing else outside a sample program influences it"]


if __name__ == "__main__":
    vf.main(check, "C10")
