"""C02: the operator table. Spec: OpTable.tla (checked in MCOps, which also generates every row), Upfront.tla; UpfrontTrace (conformance)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from vf import hexs

TYPES = ["int", "bool", "T", "T Ptr"]


def prelude():
    """ids 1..4: the types; 5.. : lists of parameters, made when asked for"""
    out = [f"mk 9 Specifiers {hexs('s')}", f"def 8 specifiers words=Ptr how=1"]
    for k, t in enumerate(TYPES):
        n = t.split()[0]
        out.append(f"def {k + 1} type name={hexs(n)}" + (" specifiers=8" if "Ptr" in t else ""))
    return out


def scripts(rows, rng, variants):
    """rows grouped by parameter list"""
    by = {}
    for r in rows:
        by.setdefault(tuple(r["ps"]), []).append(r)
    res = []
    for ps, rs in sorted(by.items()):
        rng.shuffle(rs)
        for i in range(0, len(rs), 30):
            out = prelude(); nid = 100
            params = 0
            if ps:
                ids = []
                for k, t in enumerate(ps):
                    out.append(f"def {nid} param name={hexs('abc'[k])} type={TYPES.index(t) + 1}"); ids.append(nid); nid += 1
                out.append(f"def {nid} params entries={','.join(map(str, ids))} how={rng.randint(0, 1)}"); params = nid; nid += 1
            out += [f"mk 50 PlatformAttributes {hexs('attr')}", f"mk 51 Function_Body {hexs('')}", f"mk 52 Untyped {hexs('code')}", "def 53 specifiers words=Const how=2"]
            for r in rs[i:i + 30]:
                ln = f"def {nid} operator which={r['op']} ret={TYPES.index(r['ret']) + 1}"
                nid += 1
                if params: ln += f" params={params}"
                if variants:
                    if rng.random() < .3: ln += f" body={rng.choice([51, 52])}"
                    if rng.random() < .2: ln += " attributes=50"
                    if rng.random() < .2: ln += " specifiers=53"
                    if rng.random() < .2: ln += f" mflags={rng.choice([1, 2])}"
                    if rng.random() < .2: ln += f" nspace={hexs('N::')}"
                out.append(ln)
            res.append(out)
    return res


def wrong(rng, ops, n):
    """arguments that are not there or not what an operator takes; conversion operators"""
    kinds = ["Untyped", "Typename", "Parameters", "Parameters_Define", "Specifiers", "PlatformAttributes", "Function_Body", "Class_Body", "Class", "Execution", "Function", "NewLine"]
    res = []
    for i in range(n):
        out = prelude(); nid = 100; k = []
        for t in kinds:
            out.append(f"mk {nid} {t} {hexs('z' + str(nid))}"); k.append(nid); nid += 1
        out += [f"def {nid} param name={hexs('a')} type={rng.randint(1, 4)}", f"def {nid + 1} param name={hexs('b')} type={rng.randint(1, 4)}",
                f"def {nid + 2} params entries={nid},{nid + 1} how=1"]
        ps = [0, 0, 0, nid, nid + 2]; nid += 3
        for j in range(25):
            any_ = lambda good: rng.choice(k + [0]) if rng.random() < .3 else good
            if rng.random() < .2:
                ln = f"def {nid} opcast type={any_(rng.randint(1, 4))}"
                if rng.random() < .4: ln += f" body={any_(k[6])}"
                if rng.random() < .4: ln += f" specifiers={any_(k[4])}"
            else:
                ln = f"def {nid} operator which={rng.choice(ops)} ret={any_(rng.randint(1, 4))} params={any_(rng.choice(ps))}"
                if rng.random() < .4: ln += f" body={any_(rng.choice([k[6], k[0], k[9]]))}"
                if rng.random() < .3: ln += f" specifiers={any_(k[4])}"
                if rng.random() < .3: ln += f" attributes={any_(k[5])}"
            out.append(ln); nid += 1
        res.append(out)
    return res


def check(c):
    rows = c.model("MCOps", "MCOps.cfg", gen=True, what="every operator with up to three parameters and every return type")
    ops = sorted({r["op"] for r in rows})
    exe = c.build("upfront.cpp")
    # rows with up to two parameters always; those with three are mostly refusals
    main = [r for r in rows if len(r["ps"]) < 3]
    rest = [r for r in rows if len(r["ps"]) == 3]
    if not c.thorough:
        rest = c.rng.sample(rest, 1500)
    c.conform("UpfrontTrace", exe, scripts(main + rest, c.rng, False), what="rows of the operator table")
    c.conform("UpfrontTrace", exe, scripts(main, c.rng, True), what="rows of the operator table with bodies, attributes and specifiers")
    c.conform("UpfrontTrace", exe, wrong(c.rng, ops, c.pick(150, 1500)), what="arguments an operator does not take")


if __name__ == "__main__":
    vf.main(check, "C02")
