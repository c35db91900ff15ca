"""C18: CSV tables. Spec: Csv.tla; MCCsv (writer/reader round trip, reader totality; generates the texts); CsvTrace."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from vf import hexs

W = ["builder", "file", "string"]


def table_text(rng, d):
    rows, cols = rng.randint(1, 7), rng.randint(1, 5)
    out, empty = [], rng.random() < .3
    def cell(last):
        pad = lambda: rng.choice(["", "", " ", "\t", "  "])
        if rng.random() < .35:
            s = "".join(rng.choice(["a", "B", "9", '""', "\n", d, " ", "\t", "é"]) for _ in range(rng.randint(0, 9)))
            return pad() + '"' + s + '"' + pad()
        if empty and cols > 1 and rng.random() < .4:
            return pad()
        s = rng.choice(["x", "0x1F", "0xZ", "12", "-3.5", "a b", "operator", "i\"q", "Z" * rng.randint(1, 60)]) + rng.choice(["", "a", " b", '"'])
        return pad() + s + pad()
    for r in range(rows):
        n = cols
        if rng.random() < .03: n += rng.choice([-1, 1])
        line = d.join(cell(i == n - 1) for i in range(max(1, n)))
        out.append(line + rng.choice(["\n", "\n", "\n", "\r\n", "\n\n", " \n \n"]))
    t = "".join(out)
    if rng.random() < .3: t = t.rstrip("\r\n \t")
    if rng.random() < .05: t = t[:rng.randint(0, len(t))]
    return t


def check(c):
    gen = c.model("MCCsv", c.pick("MCCsv.cfg", "MCCsv7.cfg"), gen=True, what="round trip of every small table, totality of the reader on every small text")
    lines = [f"csv 44 {h} {W[(i + h) % 3]} {hexs(bytes(t))}" for i, t in enumerate(gen) for h in (0, 1) if h == i % 2 or len(t) < 5]
    table = [lines[i:i + 60] for i in range(0, len(lines), 60)]
    rng = c.rng
    rnd = []
    for _ in range(c.pick(150, 2500)):
        s = []
        for _ in range(10):
            d = rng.choice([",", ",", ";", "|"])
            s.append(f"csv {ord(d)} {rng.randint(0, 1)} {rng.choice(W)} {hexs(table_text(rng, d).encode('latin-1'))}")
        rnd.append(s)
    exe = c.build("csv.cpp")
    c.conform("CsvTrace", exe, table, what="every generated table text")
    c.conform("CsvTrace", exe, rnd, what="random tables")
    c.assumptions += ["text following a closing quote inside a cell is not specified", "delimiters that are blanks are not specified",
                      "a cell that ends the text without a line end may keep its trailing blanks", "cells are text: no cell is turned into a number by the reader"]


if __name__ == "__main__":
    vf.main(check, "C18")
