"""C06: the hash table is a map. Spec: HashTable.tla; MCHashTable (exhaustive, generator); HashTableTrace (conformance)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf


def rand_script(rng, n):
    style = rng.choice(["small", "collide", "wide", "mixed"])
    if style == "small":
        pool = list(range(1, 25))
    elif style == "collide":
        m = rng.choice([8, 24, 56, 120, 1]); pool = [5 + m * k for k in range(20)]
    elif style == "wide":
        pool = [rng.getrandbits(64) for _ in range(20)] + [0, 2**64 - 1, 2**63]
    else:
        pool = [rng.choice([k, k << 32, (k << 32) | k, 2**64 - 1 - k]) for k in range(1, 24)]
    out = [f"init {rng.choice([1, 2, 3, 8, 8, 30])}"]
    live = True
    for _ in range(n):
        if not live:
            out.append(f"init {rng.choice([1, 4, 8])}"); live = True; continue
        k = rng.choice(pool)
        r = rng.random()
        if r < .45: out.append(f"set {k} {rng.randint(1, 900)}")
        elif r < .6: out.append(f"remove {k}")
        elif r < .72: out.append(f"get {k}")
        elif r < .78: out.append(f"poke {k} {rng.randint(1, 900)}")
        elif r < .82: out.append("map")
        elif r < .85: out.append(f"map_mut {rng.randint(1, 3)}")
        elif r < .88: out.append("grow")
        elif r < .91: out.append(f"rehash {rng.choice([1, 2, 5, 9, 40])}")
        elif r < .94: out.append("rehash_fast")
        elif r < .97: out.append(f"remove_entry {rng.randint(0, 30)}")
        elif r < .985: out.append("clear")
        else: out.append("destroy"); live = False
    return out


def check(c):
    c.model("MCHashTable", "MCHashTable.cfg", what="all histories over three keys that share a bucket")
    gen = c.model("MCHashTable", c.pick("GenHashTable.cfg", "GenHashTable5.cfg"), gen=True, what="generator: all operation sequences")
    scripts = [[" ".join(map(str, o)) for o in h] for h in gen]
    c.rng.shuffle(scripts)
    scripts = scripts[: c.pick(6000, 120000)]
    rnd = [rand_script(c.rng, c.pick(80, 160)) for _ in range(c.pick(80, 1500))]
    exe = c.build("hashtable.cpp")
    c.conform("HashTableTrace", exe, scripts, what="generated histories", drvargs=("int",))
    for ty in ("int", "u64", "wide"):
        c.conform("HashTableTrace", exe, rnd, what=f"random histories ({ty} values)", drvargs=(ty,))
    cl = c.build("hashtable.cpp", defs=("-DVF_CLIKE",))
    c.conform("HashTableTrace", cl, rnd[: len(rnd) // 2], what="random histories (C-like API)", drvargs=("u64",))
    c.assumptions += ["the table's allocator does not refuse (the table's API has no failure result)"]


if __name__ == "__main__":
    vf.main(check, "C06")
