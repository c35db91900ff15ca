"""C17: files, memory streams, builder and scanner under faults. Spec: Files.tla; MCFiles/GenFiles; FilesTrace."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from vf import hexs


class W:
    """Keeps what a script may do next (which slots are open, which files exist)."""
    def __init__(self):
        self.s, self.open, self.exists, self.b = [], {}, set(), None

    def do(self, op, *a):
        if op == "open":
            sl, p, m, f = a
            if sl in self.open: return
            if f == 0 and (m[0] != "r" or p in self.exists):
                self.open[sl] = ("file", p); self.exists.add(p)
            self.s.append(f"open {sl} {p} {m} {f}")
        elif op == "snew":
            if a[0] in self.open: return
            self.open[a[0]] = ("mem", None); self.s.append(f"snew {a[0]}")
        elif op == "sopen":
            if a[0] in self.open: return
            self.open[a[0]] = ("mem", None); self.s.append(f"sopen {a[0]} {a[1]} {hexs(a[2])}")
        elif op in ("write", "writeat", "read", "readat", "seek", "seekend", "size", "close", "buf"):
            sl = a[0]
            if sl not in self.open: return
            mem = self.open[sl][0] == "mem"
            f = 0 if mem else (a[1] if len(a) > 1 else 0)
            if op == "buf" and not mem: return
            if op == "write": self.s.append(f"write {sl} {f} {hexs(a[2])}")
            elif op == "writeat": self.s.append(f"writeat {sl} {f} {hexs(a[2])} {a[3]}")
            elif op == "read": self.s.append(f"read {sl} {f} {a[2]}")
            elif op == "readat": self.s.append(f"readat {sl} {f} {a[2]} {a[3]}")
            elif op == "seek": self.s.append(f"seek {sl} {a[1]}")
            else: self.s.append(f"{op} {sl}")
            if op == "close": del self.open[sl]
        elif op == "bopen":
            if self.b: return
            if a[1] == 0: self.b = a[0]; self.exists.add(a[0])
            self.s.append(f"bopen {a[0]} {a[1]}")
        elif op == "bwrite":
            if not self.b: return
            self.s.append(f"bwrite {a[0]}"); self.b = None
        elif op in ("bpad", "bprint", "bfmt"):
            if self.b: self.s.append(f"{op} " + " ".join(map(str, a)))
        elif op == "mk":
            if any(k == "file" and p == a[0] for k, p in self.open.values()) or self.b == a[0]: return
            self.exists.add(a[0]); self.s.append(f"mk {a[0]} {hexs(a[1])}")
        else:
            self.s.append(" ".join([op] + [str(x) for x in a]))

    def wind_up(self):
        for sl in list(self.open):
            for x in (("seek", sl, 0), ("read", sl, 0, 12), ("size", sl), ("buf", sl), ("close", sl)): self.do(*x)
        self.do("bwrite", 0)
        for p in "ab": self.do("contents", p, 1, 0)
        return self.s


DIRECTIVES = ["#ifdef INTELLISENSE_DIRECTIVES", "#\tifdef  INTELLISENSE_DIRECTIVES", "#ifdef OTHER", "#pragma once", "#include \"x.hpp\"", "#endif", "# endif // x",
              "#if 0", "int a;", "", "struct S { int b; };", "#define X # y", "// # comment", "#", "##endif", "#else", "#ifdef", "#endifx", "a #endif b"]


def source(rng):
    ls = [rng.choice(DIRECTIVES) for _ in range(rng.randint(0, 8))]
    if rng.random() < .5: ls = [DIRECTIVES[rng.randint(0, 1)], *ls[:3], "#endif", *ls[3:]]
    nl = rng.choice(["\n", "\n", "\r\n"])
    t = nl.join(ls) + rng.choice(["", nl, nl + nl])
    return t


def check(c):
    c.model("MCFiles", "MCFiles.cfg", what="file layer, streams and builder with faults, all histories up to depth 5")
    gen = c.model("MCFiles", "GenFiles.cfg", gen=True, what="behaviour generation")
    n = max(len(h) for h in gen)
    scripts = []
    for h in gen:
        if len(h) < n: continue
        w = W()
        for e in h:
            a = list(e[1:])
            if e[0] == "sopen": a.append(b"xyz")
            if e[0] == "write": a = [e[1], e[3], bytes(e[2])]
            if e[0] == "bfmt": a = [hexs(b"t"), len(w.s)]
            w.do(e[0], *a)
        scripts.append(w.wind_up())
    if not c.thorough:
        c.rng.shuffle(scripts); scripts = scripts[:5000]
    rng = c.rng
    data = lambda n=None: bytes(rng.choice(b"abc \n\0\xff%<") for _ in range(rng.choice([0, 1, 2, 5, 9, 40, 300]) if n is None else n))
    rnd = []
    for _ in range(c.pick(250, 4000)):
        w = W()
        for _ in range(40):
            sl, p, off = rng.randint(1, 3), rng.choice("abc"), rng.choice([0, 0, 1, 3, 10, 60, 400])
            f = rng.choice([0] * 8 + [-1, 2, 4])
            op = rng.choice(["open", "open", "snew", "sopen", "write", "write", "write", "writeat", "read", "read", "readat", "seek", "seekend", "size", "buf", "close",
                             "contents", "bopen", "bpad", "bprint", "bprint", "bfmt", "bfmt", "bwrite", "mk", "scan"])
            if op == "open": w.do(op, sl, p, rng.choice(["r", "w", "a", "r+", "w+", "a+"]), rng.choice([0] * 6 + [2, 5, 80, 183, 99]))
            elif op == "sopen": w.do(op, sl, rng.choice(["ro", "rw", "clone"]), data())
            elif op == "write": w.do(op, sl, f, data())
            elif op == "writeat": w.do(op, sl, f, data(), off)
            elif op == "read": w.do(op, sl, f, rng.choice([0, 1, 4, 50, 500]))
            elif op == "readat": w.do(op, sl, f, rng.choice([0, 1, 4, 50, 500]), off)
            elif op == "seek": w.do(op, sl, off)
            elif op == "contents": w.do(op, p, rng.randint(0, 1), rng.choice([0, 0, 0, -1]))
            elif op == "bopen": w.do(op, p, rng.choice([0, 0, 0, 5]))
            elif op == "bpad": w.do(op, rng.choice([0, 1, 3]))
            elif op == "bprint": w.do(op, rng.choice(["newline", "comment", "untyped", "untyped"]), hexs("text %s <x> ." * rng.randint(1, 30)), rng.randint(0, 1))
            elif op == "bfmt": w.do(op, hexs("q" * rng.choice([0, 3, 200])), rng.randint(0, 10000))
            elif op == "bwrite": w.do(op, f)
            elif op == "mk": w.do(op, p, source(rng).encode())
            elif op == "scan": w.do(op, p, rng.choice([0, 0, 0, 0, -1]))
            else: w.do(op, sl)
        rnd.append(w.wind_up())
    scans = []
    for _ in range(c.pick(120, 2000)):
        w = W()
        for _ in range(6):
            w.do("mk", "a", source(rng).encode()); w.do("scan", "a", 0)
        scans.append(w.s)
    # the builder's buffer grows past its initial reservation
    big = W(); big.do("bopen", "a", 0)
    for k in range(60): big.do("bprint", "untyped", hexs("x" * 3000), k % 2); big.do("bfmt", hexs("y" * 500), k)
    exe = c.build("files.cpp")
    c.conform("FilesTrace", exe, scripts, what="every history of the generated table")
    c.conform("FilesTrace", exe, rnd, what="random histories")
    c.conform("FilesTrace", exe, scans, what="scanned sources")
    c.conform("FilesTrace", exe, [big.wind_up()], what="large builder output")
    c.assumptions += ["the operating system is the POSIX-backed stand-in: its answers are those of the real files plus the injected faults",
                      "after a refused or partial read or write the position of the handle is not specified", "a builder that could not be opened is not used further",
                      "a line end right after a dropped block may be dropped with it"]


if __name__ == "__main__":
    vf.main(check, "C17")
