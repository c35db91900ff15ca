"""C05: the growable array is a sequence. Spec: Array.tla; MCArray (exhaustive, generator); ArrayTrace (conformance)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf


def rand_script(rng, n):
    """Random legal histories over three arrays. Mirrors only liveness and length, to respect preconditions."""
    L = {1: None, 2: None, 3: None}
    cap = {1: 0, 2: 0, 3: 0}
    out = []
    ref = lambda: 1 if rng.random() < 0.12 else 0
    while len(out) < n:
        a = rng.randint(1, 3)
        if L[a] is None:
            c = rng.choice([1, 1, 2, 3, 8, 8, 17, 64]); r = ref()
            out.append(f"init {a} {c} {r}")
            if not r:
                L[a] = 0; cap[a] = c
            continue
        op = rng.choice(["append"] * 6 + ["append_items", "append_array", "append_at", "append_at", "append_items_at", "back",
                        "fill", "pop", "remove_at", "remove_at", "reserve", "grow", "resize", "set_capacity"] + (["clear", "free"] if rng.random() < .3 else []))
        v = rng.randint(1, 99); r = ref()
        vs = [str(rng.randint(1, 99)) for _ in range(rng.choice([1, 1, 2, 3, 5, 9, 20]))]
        # the length the array will have is only needed to keep calls within their preconditions; a refused call makes it an
        # upper bound, so calls that need exact lengths are preceded by an exact one
        if op == "append":
            out.append(f"append {a} {v} {r}"); L[a] += 0 if r else 1
        elif op == "append_items":
            out.append(f"append_items {a} {r} {' '.join(vs)}"); L[a] += 0 if r else len(vs)
        elif op == "append_array":
            b = rng.choice([x for x in L if x != a])
            if not L[b]:
                continue
            out.append(f"append_array {a} {b} {r}"); L[a] += 0 if r else L[b]
        elif op == "append_at":
            out.append(f"append_at {a} {v} {rng.randint(0, L[a] + 2)} {r}"); L[a] += 0 if r else 1
        elif op == "append_items_at":
            out.append(f"append_items_at {a} {rng.randint(0, L[a] + 2)} {r} {' '.join(vs)}"); L[a] += 0 if r else len(vs)
        elif op == "fill":
            b = rng.randint(0, L[a] + 1); e = rng.randint(b, L[a] + 2)
            out.append(f"fill {a} {b} {e} {v}")
        elif op == "pop":
            if L[a] > 0:
                out.append(f"pop {a}"); L[a] -= 1
        elif op == "remove_at":
            if L[a] > 0:
                out.append(f"remove_at {a} {rng.randint(0, L[a] - 1)}"); L[a] -= 1
        elif op in ("reserve", "grow"):
            out.append(f"{op} {a} {rng.randint(1, 60)} {r}")
        elif op == "resize":
            k = rng.randint(0, L[a] + 6)
            out.append(f"resize {a} {k} {r}"); L[a] = min(L[a], k) if r else k
        elif op == "set_capacity":
            k = rng.randint(1, L[a] + 12)
            out.append(f"set_capacity {a} {k} {r}"); L[a] = min(L[a], k)
        elif op == "clear":
            out.append(f"clear {a}"); L[a] = 0
        elif op == "free":
            out.append(f"free {a}"); L[a] = None
        else:
            out.append(f"back {a}")
    return out


def lower(L):  # L above is a lower bound on the length after refused growth that did not need to grow: calls stay legal
    return L


def check(c):
    c.model("MCArray", "MCArray.cfg", what="all histories over two arrays, up to 3 items each, every allocator refusal")
    gen = c.model("MCArray", "GenArray.cfg", gen=True, what="generator: every operation sequence of length 3")
    scripts = [[" ".join(map(str, o)) for o in h] for h in gen]
    if c.thorough:
        g4 = c.model("MCArray", "GenArray4.cfg", gen=True, what="generator: every operation sequence of length 4")
        c.rng.shuffle(g4)
        scripts += [[" ".join(map(str, o)) for o in h] for h in g4[:60000]]
    n, ln = c.pick((60, 60), (1500, 120))
    rnd = [rand_script(c.rng, ln) for _ in range(n)]
    exe = c.build("array.cpp")
    c.conform("ArrayTrace", exe, scripts, what="generated histories (int items)", drvargs=("int",))
    for ty in ("int", "char", "u64", "wide"):
        c.conform("ArrayTrace", exe, rnd, what=f"random histories ({ty} items)", drvargs=(ty,))
    cl = c.build("array.cpp", defs=("-DVF_CLIKE",))
    c.conform("ArrayTrace", cl, rnd[: len(rnd) // 2], what="random histories (C-like API)", drvargs=("wide",))
    c.assumptions += ["items passed to an insertion do not alias the array's own storage", "the driver's allocator is correct",
                      "array_pop/array_remove_at are called within range (their documented precondition)"]


if __name__ == "__main__":
    vf.main(check, "C05")
