"""C08: equality of nodes. Spec: Equal.tla over the descriptions of Upfront.tla (checked in MCEqual, which also generates the pairs); UpfrontTrace (conformance)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from vf import hexs
from C01 import TYPES, BODIES, CTORS, H, line, CONSTS, CONST_TYPE


def mk(i):
    return f"mk {i} {TYPES[(i - 1) % 100]} {hexs(('x' if i < 100 else 'y') + str(i))}"


def ids(a):
    out = []
    for k, v in a.items():
        if k in ("name", "text", "which", "mflags", "access", "tag", "isclass", "words", "kind"): continue
        out += v if isinstance(v, list) else [v]
    return [x for x in out if x]


def pairs(rows, per=8):
    """both nodes, then all comparisons between them, themselves and their duplicates"""
    res = []
    for i in range(0, len(rows), per):
        out, have, n = [], set(), 1000
        for r in rows[i:i + per]:
            a, b = dict(r["a"]), dict(r["a"])
            b[r["x"]] = r["v"]
            for x in ids(a) + ids(b):
                if x not in have:
                    have.add(x); out.append(mk(x))
            out += [line(n, r["f"], a), line(n + 1, r["f"], b), f"dup {n + 2} {n}", f"dup {n + 3} {n + 1}"]
            out += [f"eq {n + p} {n + q}" for p, q in ((0, 1), (1, 0), (0, 0), (1, 1), (0, 2), (2, 0), (3, 1), (2, 3), (3, 0))] + [f"eq {n} 0"]
            n += 4
        res.append(out)
    return res


def kinds(rng):
    """nodes of every type against nodes of every type"""
    res = []
    for i in range(1, len(TYPES) + 1):
        out = [mk(i)] + [mk(100 + j) for j in range(1, len(TYPES) + 1)] + [f"dup 300 {i}", f"eq {i} 300", f"eq 300 {i}", f"eq {i} {i}", f"eq {i} 0"]
        for j in range(1, len(TYPES) + 1):
            out += [f"eq {i} {100 + j}", f"eq {100 + j} {i}"]
        res.append(out)
    return res


class G(H):
    """constructor calls of a small vocabulary, repeated with changes, and comparisons"""
    def word(self):
        return self.rng.choice(["a", "b"])

    def pick(self, types, absent=0.0, wrong=0.0):
        return H.pick(self, types, absent, 0.0)


def history(rng, n):
    h = G(rng)
    mine = rng.sample(CTORS, 4)
    while len(h.out) < n:
        k = len(h.out)
        h.call(rng.choice(mine if rng.random() < .8 else CTORS))
        last = h.nid
        if h.ty[last] == "?": continue
        # the same call once more, or with one argument changed
        ln = h.out[-1].split()
        if ln[0] == "def" and rng.random() < .8:
            if rng.random() < .5 and len(ln) > 3:
                j = rng.randrange(3, len(ln)); key, val = ln[j].split("=", 1)
                if key in ("name", "text", "nspace"): val = hexs(rng.choice(["a", "b", "c"]))
                elif key in ("mflags", "isclass", "kind", "foreign") and val.isdigit(): val = str(1 - min(1, int(val)))
                elif key == "access": val = rng.choice(["private", "public"])
                elif key == "tag": val = rng.choice(["class", "enum", "struct"])
                elif key == "words": val = ",".join(rng.sample(val.split(","), len(val.split(","))))
                elif val.isdigit() and int(val) in h.ty and key not in ("how", "register", "flags"):
                    same = [i for i, t in h.ty.items() if t == h.ty[int(val)] and h.size[i] < 25]
                    val = str(rng.choice(same or [val]))
                ln[j] = f"{key}={val}"
            i = h.new(h.ty[last], h.size[last]); ln[1] = str(i); h.out.append(" ".join(ln))
            if h.ty[i] in ("Parameters", "Parameters_Define") and ln[2].endswith("params"): h.out.pop(); continue
        same = [i for i, t in h.ty.items() if t == h.ty[last]]
        for _ in range(3):
            x, y = rng.choice(same), rng.choice(same)
            h.out += [f"eq {x} {y}", f"eq {y} {x}"]
        if rng.random() < .4:
            s = rng.choice(same); i = h.new(h.ty[s], h.size[s]); h.out += [f"dup {i} {s}", f"eq {i} {s}", f"eq {s} {i}"]
            if h.ty[s] in ("Parameters", "Parameters_Define"): del h.ty[i]
    return h.out


def check(c):
    rows = c.model("MCEqual", "MCEqual.cfg", gen=True, what="pairs of nodes that differ in one argument")
    c.rng.shuffle(rows)
    exe = c.build("upfront.cpp")
    c.conform("UpfrontTrace", exe, pairs(rows), what="pairs of nodes that differ in one argument")
    k = kinds(c.rng)
    c.conform("UpfrontTrace", exe, k if c.thorough else c.rng.sample(k, 20) , what="nodes of every type against nodes of every type")
    c.conform("UpfrontTrace", exe, [history(c.rng, 60) for _ in range(c.pick(250, 4000))], what="random histories of constructors and comparisons")
    c.assumptions += ["by the library's own account the content of untyped code, verbatim bodies, attributes, comments and directives is not compared but logged"]


if __name__ == "__main__":
    vf.main(check, "C08")
