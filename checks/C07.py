"""C07: lists of nodes. Spec: Lists.tla; MCLists (exhaustive, generator); ListsTrace (conformance)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from vf import hexs

START = [("Body", "a"), ("Body", "b"), ("Item", "x"), ("Class", "c"), ("Params", "p"), ("Params", "q"), ("Specs", ""), ("Type", "T")]
SPECS = "Consteval Constexpr Explicit External_Linkage ForceInline Inline Mutable Ptr Ref RValue Static Virtual Const Final NoExceptions Override Volatile".split()


class H:
    """a random history; mirrors what Lists says so that calls keep to what is asked of the caller"""
    def __init__(self, rng): self.rng, self.out, self.n = rng, [], []

    def mk(self, k, name=None, which=None):
        r = self.rng
        name = r.choice(["a", "b", "Foo", "some_name", "x y", "N::M", "a rather longer name than the others"]) if name is None else name
        self.out.append(f"mk {k} {r.randrange(36) if which is None else which} {hexs(name)}"); self.n.append(dict(k=k, p=0, e=[], w=[], def_=None))
        if k == "Params": self.n[-1]["def_"] = int(self.out[-1].split()[2]) % 2
        return len(self.n)

    def node(self, i): return self.n[i - 1]

    def copy(self, x, p):
        self.n.append(dict(self.node(x), p=p, e=[], w=list(self.node(x)["w"]))); me = len(self.n)
        for y in list(self.node(x)["e"]):
            self.node(me)["e"].append(self.copy(y, me if self.node(me)["k"] != "Class" else 0))
        return me

    def put(self, b, x):
        if self.node(x)["p"] == 0: self.node(x)["p"] = b; self.node(b)["e"].append(x)
        else: i = self.copy(x, b); self.node(b)["e"].append(i)

    def of(self, *ks, free=False):
        c = [i + 1 for i, v in enumerate(self.n) if v["k"] in ks and not (free and v["p"])]
        return self.rng.choice(c[-6:] if self.rng.random() < .5 else c) if c else None

    def step(self):
        r = self.rng; op = r.choice(["mk"] * 4 + ["append"] * 8 + ["appendbody", "pappend", "pappend", "pappend", "iface", "dup", "dup", "sappend", "sappend", "sappend", "sremove", "shas", "entry", "param", "has"])
        if op == "mk": self.mk(r.choice(["Body", "Item", "Item", "Item", "Class", "Params", "Params", "Specs", "Type"])); return
        if op == "dup":
            x = self.of("Body", "Item", "Class", "Params", "Specs", "Type")
            if x and len(self.n) < 60: self.copy(x, 0); self.out.append(f"dup {x}")
            return
        if op in ("append", "appendbody"):
            b, x = self.of("Body"), self.of(*(["Item", "Item", "Class", "Body"] if op == "append" else ["Body"]))
            if not b or not x or b == x or len(self.node(b)["e"]) > 9 or len(self.n) > 60: return
            for y in list(self.node(x)["e"]) if self.node(x)["k"] == "Body" else [x]: self.put(b, y)
            self.out.append(f"{op} {b} {x}"); return
        if op == "pappend":
            b, x = self.of("Params", free=True), self.of("Params")
            if not b or not x or b == x or self.node(x)["e"] or len(self.n) > 60 or self.node(b)["def_"] != self.node(x)["def_"]: return
            self.put(b, x); self.out.append(f"pappend {b} {x}"); return
        if op == "iface":
            b, x = self.of("Class"), self.of("Type")
            if b and x and len(self.n) < 60: i = self.copy(x, 0); self.node(b)["e"].append(i); self.out.append(f"iface {b} {x}")
            return
        if op in ("sappend", "sremove", "shas"):
            b = self.of("Specs")
            if not b: return
            w = self.node(b)["w"]
            for _ in range(r.choice([1, 1, 1, 14, 16]) if op == "sappend" else 1):
                s = r.choice(w) if w and r.random() < .6 else r.choice(SPECS)
                self.out.append(f"{op} {b} {s}")
                if op == "sappend" and len(w) < 14: w.append(s)
                if op == "sremove" and s in w: w.remove(s)
            return
        if op == "entry":
            b = self.of("Body")
            if b and self.node(b)["e"]: self.out.append(f"entry {b} {r.randrange(len(self.node(b)['e']))}")
            return
        if op == "param":
            b = self.of("Params", free=True)
            if b: self.out.append(f"param {b} {r.randrange(len(self.node(b)['e']) + 3)}")
            return
        b = self.of("Body", "Params", "Specs")
        if b: self.out.append(f"has {b}")


def history(rng, n):
    h = H(rng)
    while len(h.out) < n: h.step()
    return h.out


def scripts(hs, rng):
    out = []
    for h in hs:
        v = rng.randrange(2)
        out.append([f"mk {k} {v if k == 'Params' else rng.randrange(36)} {hexs(n)}" for k, n in START] + [" ".join(map(str, o)) for o in h])
    return out


def check(c):
    c.model("MCLists", "MCLists.cfg", what="all histories over two bodies, an item, a class, two parameters, specifiers and a type, with two more nodes as duplicates")
    hs = c.model("MCLists", "GenLists.cfg", gen=True, what="generator: every operation sequence of length 3")
    if c.thorough:
        more = c.model("MCLists", "GenLists4.cfg", gen=True, what="generator: every operation sequence of length 4")
        c.rng.shuffle(more); hs += more[:60000]
    exe = c.build("lists.cpp")
    c.rng.shuffle(hs)
    c.conform("ListsTrace", exe, scripts(hs if c.thorough else hs[:5000], c.rng), what="generated histories")
    rnd = [history(c.rng, 60) for _ in range(c.pick(250, 5000))]
    c.conform("ListsTrace", exe, rnd, what="random histories")
    cl = c.build("lists.cpp", defs=("-DVF_CLIKE",))
    c.conform("ListsTrace", cl, rnd[:len(rnd) // 4], what="random histories (C-like API)")
    c.assumptions += ["what is appended to a parameter list is a single parameter, and a parameter in a list is not used as a list itself", "no list is appended to itself (it is an assertion)",
                      "an entry is asked for within the length of the list"]


if __name__ == "__main__":
    vf.main(check, "C07")
