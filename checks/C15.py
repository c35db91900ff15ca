"""C15: string builders and string operations. Spec: Bytes.tla, Text.tla; MCText (exhaustive, generator); TextTrace."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from vf import hexs

ALPH = "ab Z0\t\n_\x0b\x0c\r\xc3"


def rstr(rng, hi=12, alph=ALPH):
    return "".join(rng.choice(alph) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, hi])))


def tok(o):
    return " ".join(hexs(bytes(x).decode("latin-1")) if isinstance(x, list) else str(x) for x in o)


def rand_script(rng, n):
    L = {1: None, 2: None, 3: None}   # whether the builder is known to hold something (back needs a non-empty one)
    out = []
    ref = lambda: 1 if rng.random() < .1 else 0
    while len(out) < n:
        a = rng.randint(1, 3)
        s = rstr(rng, rng.choice([12, 40, 300]) if rng.random() < .2 else 12)
        if L[a] is None:
            k = rng.choice(["make_c_str", "make_str", "make_length", "make_reserve", "join", "dup", "vis"])
            if k in ("dup", "vis"):
                b = rng.choice([1, 2, 3])
                if L[b] is None: continue
                out.append(f"{k} {a} {b}"); L[a] = L[b]
            elif k == "join":
                parts = [rstr(rng) for _ in range(rng.randint(1, 4))]
                out.append(f"join {a} {hexs(rstr(rng, 2))} {' '.join(map(hexs, parts))}"); L[a] = "?"
            elif k == "make_reserve":
                r = ref(); out.append(f"make_reserve {a} {rng.choice([0, 1, 4, 30])} {r}"); L[a] = None if r else "e"
            else:
                r = ref(); out.append(f"{k} {a} {hexs(s)} {r}"); L[a] = None if r else ("n" if s else "e")
            continue
        live = [b for b in L if L[b] is not None]
        k = rng.choice(["append_c_str", "append_str", "append_len", "append_char"] * 3 + ["append_sb", "make_space", "clear", "trim", "trim_space", "strip_space", "free",
                       "back", "eq", "contains", "starts", "eq_str", "contains_str", "starts_str", "to_str"])
        if k.startswith("append") and k != "append_sb":
            r = ref()
            if k == "append_char": s = rng.choice(ALPH)
            out.append(f"{k} {a} {hexs(s)} {r}")
            if s and not r: L[a] = "n"
        elif k == "append_sb":
            b = rng.choice(live)
            if b == a: continue
            r = ref(); out.append(f"append_sb {a} {b} {r}")
            if not r and L[b] == "n": L[a] = "n"
        elif k == "make_space": out.append(f"make_space {a} {rng.randint(0, 50)} {ref()}")
        elif k == "trim": out.append(f"trim {a} {hexs(rng.choice(['ab', ' ', 'Z', 'a b', '']))}"); L[a] = "?"
        elif k in ("trim_space", "strip_space"): out.append(f"{k} {a}"); L[a] = "?"
        elif k == "clear": out.append(f"clear {a}"); L[a] = "e"
        elif k == "free": out.append(f"free {a}"); L[a] = None
        elif k == "back":
            if L[a] == "n": out.append(f"back {a}")
        elif k in ("eq", "contains", "starts"): out.append(f"{k} {a} {rng.choice(live)}")
        elif k == "to_str": out.append(f"to_str {a}")
        else: out.append(f"{k} {a} {hexs(rstr(rng, 3))}")
    return out


def pure_scripts(c):
    rng, sc = c.rng, []
    sc.append([f"pure {f} {hexs(chr(x))}" for x in range(1, 256) for f in ("is_alpha", "is_alnum", "is_digit", "is_hex", "is_space", "to_lower", "to_upper", "hex_val")]
              + [f"pure digit_val {hexs(chr(x))}" for x in range(48, 58)])
    for _ in range(c.pick(40, 600)):
        s = []
        for _ in range(40):
            x, y = rstr(rng), rstr(rng)
            if rng.random() < .4: y = x[:rng.randint(0, len(x))] + rng.choice(["", "a", "b"])
            if rng.random() < .15: y = x
            f = rng.choice(["first_occ", "cmp_zero", "cmp_sign", "cmpn_zero", "copy", "copy_pad", "copy_pad_n", "len", "len_cap", "reverse", "skip",
                            "skip_any", "trim", "lower", "upper", "str_eq", "str_contains", "str_starts", "str_dup", "str_vis", "to_str"])
            n = rng.randint(0, 8)
            if f in ("first_occ", "skip"): n = ord(rng.choice("ab Z0x"))
            if f == "trim": x = rng.choice(["", " ", "\t\n", "  \n ", "\r\n\t"]) + x; n = rng.randint(0, 1)
            s.append(f"pure {f} {hexs(x)} {hexs(y)} {n}")
        sc.append(s)
    for _ in range(c.pick(15, 300)):
        s = []
        for _ in range(30):
            v = rng.choice([0, 1, 9, 10, 255, 2**31, 2**32, 2**63 - 1, 2**64 - 1, 2**63 + 1, rng.getrandbits(64), rng.getrandbits(32), rng.getrandbits(16)])
            s.append(f"pure {rng.choice(['u64_str', 'i64_str'])} x {v} {rng.choice([2, 8, 10, 10, 10, 16, 16, 36, 62, 64])}")
            base = rng.choice([0, 10, 16, 8, 0])
            body = rng.choice([str(rng.getrandbits(rng.choice([4, 16, 40, 62]))), hex(rng.getrandbits(40)), "%x" % rng.getrandbits(60), "%X" % rng.getrandbits(30), "", "0x", "0"])
            if base == 8: body = "".join(ch for ch in body if ch in "01234567")
            s.append(f"pure parse {hexs(rng.choice(['', '', '-']) + body + rng.choice(['', ' ', 'z', 'g1', ';']))} x {base}")
        sc.append(s)
    return sc


def check(c):
    c.model("MCText", "MCText.cfg", what="all histories over two builders of up to 3 bytes, every allocator refusal")
    gen = c.model("MCText", "GenText.cfg", gen=True, what="generator: every operation sequence of length 3")
    c.extra["generated_histories"] = len(gen)
    c.rng.shuffle(gen)
    scripts = [[tok(o) for o in h] for h in gen[: c.pick(6000, 100000)]]
    rnd = [rand_script(c.rng, c.pick(60, 120)) for _ in range(c.pick(100, 1500))]
    pure = pure_scripts(c)
    exe = c.build("text.cpp")
    c.conform("TextTrace", exe, scripts, what="generated histories")
    c.conform("TextTrace", exe, rnd, what="random histories (functions)")
    c.conform("TextTrace", exe, rnd, what="random histories (members)", drvargs=("m",))
    c.conform("TextTrace", exe, pure, what="pure string operations")
    c.conform("TextTrace", exe, pure[:20], what="pure string operations (members)", drvargs=("m",))
    cl = c.build("text.cpp", defs=("-DVF_CLIKE",))
    c.conform("TextTrace", cl, rnd[:50] + pure[:30], what="random histories (C-like API)")
    c.assumptions += ["text holds no NUL bytes", "appended text does not alias the builder's own storage"]


if __name__ == "__main__":
    vf.main(check, "C15")
