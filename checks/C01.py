"""C01: the upfront constructors. Spec: Upfront.tla (checked in MCUpfront, which also generates the calls); UpfrontTrace (conformance)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from vf import hexs

TYPES = ("Untyped NewLine Comment Access_Private Access_Protected Access_Public PlatformAttributes Class Class_Fwd Class_Body Constructor Constructor_Fwd Destructor Destructor_Fwd Enum Enum_Fwd "
         "Enum_Body Enum_Class Enum_Class_Fwd Execution Export_Body Extern_Linkage Extern_Linkage_Body Friend Function Function_Fwd Function_Body Global_Body Module Namespace Namespace_Body Operator "
         "Operator_Fwd Operator_Member Operator_Member_Fwd Operator_Cast Operator_Cast_Fwd Parameters Parameters_Define Preprocess_Define Preprocess_Include Preprocess_If Preprocess_IfDef "
         "Preprocess_IfNotDef Preprocess_ElIf Preprocess_Else Preprocess_EndIf Preprocess_Pragma Specifiers Struct Struct_Fwd Struct_Body Template Typedef Typename Union Union_Fwd Union_Body "
         "Using Using_Namespace Variable").split()
BODIES = "Enum_Body Class_Body Union_Body Export_Body Global_Body Struct_Body Function_Body Namespace_Body Extern_Linkage_Body".split()
SPECS = ("Consteval Constexpr Constinit Explicit External_Linkage ForceInline Global Inline Internal_Linkage Local_Persist Mutable NeverInline Ptr Ref Register Restrict RValue Static Thread_Local "
         "Virtual Const Final NoExceptions Override Pure Delete Volatile").split()
CONSTS = "t_int t_bool t_void t_auto t_char access_public access_private fmt_newline preprocess_else preprocess_endif pragma_once attrib_api_export spec_const spec_inline".split()
CONST_TYPE = dict(t_int="Typename", t_bool="Typename", t_void="Typename", t_auto="Typename", t_char="Typename", access_public="Access_Public", access_private="Access_Private", fmt_newline="NewLine",
                  preprocess_else="Preprocess_Else", preprocess_endif="Preprocess_EndIf", pragma_once="Preprocess_Pragma", attrib_api_export="PlatformAttributes", spec_const="Specifiers", spec_inline="Specifiers")


def line(nid, f, a):
    out = f"def {nid} {f}"
    for k, v in a.items():
        if k == "lines": continue
        if k in ("name", "text", "nspace"): out += f" {k}={hexs(v)}"
        elif isinstance(v, list): out += f" {k}={','.join(map(str, v))}"
        else: out += f" {k}={v}"
    return out


def table(rows, rng, per=10):
    rng.shuffle(rows)
    res = []
    for i in range(0, len(rows), per):
        out, have = [], set()
        for j, r in enumerate(rows[i:i + per]):
            a = r["a"]
            if r["f"] in ("define", "pragma", "cond", "include", "execution", "comment", "attributes", "untyped", "module", "using_namespace", "enum", "extern"): pass
            ids = set()
            for k, v in a.items():
                if k in ("name", "text", "lines", "kind", "foreign", "which", "nspace"): continue
                ids |= set(v) if isinstance(v, list) else {v}
            for x in sorted(ids - have - {0}):
                out.append(f"mk {x} {TYPES[x - 1]} {hexs('x' + str(x))}")
            have |= ids
            a = dict(a)
            if "entries" in a: a["how"] = rng.randint(0, 1)
            if r["f"] == "define" or (r["f"] == "enum" and False): a["text"] = "q"
            out.append(line(1000 + j, r["f"], a))
        res.append(out)
    return res


class H:
    """a history of constructor calls, mostly acceptable ones, on what earlier calls made"""
    def __init__(self, rng):
        self.rng, self.out, self.ty, self.size, self.nid, self.spent = rng, [], {}, {}, 0, set()

    def new(self, t, size):
        self.nid += 1; self.ty[self.nid] = t; self.size[self.nid] = size
        return self.nid

    def mk(self, t):
        i = self.new(t, 2)
        self.out.append(f"mk {i} {t} {hexs(self.word())}")
        return i

    def word(self):
        return self.rng.choice(["a", "T", "Foo", "some_name", "i32", "x y", "N::M", "a longer name with several words in it", "f", "_"])

    def pick(self, types, absent=0.0, wrong=0.06):
        """an id of one of the types (made when there is none), nothing, or anything"""
        r = self.rng
        if r.random() < absent: return 0
        if r.random() < wrong:
            c = [i for i in self.ty if self.size[i] < 25]
            return r.choice(c) if c and r.random() < .8 else self.mk(r.choice(TYPES))
        c = [i for i, t in self.ty.items() if t in types and self.size[i] < 25]
        if c and r.random() < .7: return r.choice(c)
        return self.make(r.choice(types))

    def make(self, t):
        r = self.rng
        if t == "Typename" and r.random() < .7:
            if r.random() < .4:
                n = r.choice([k for k in CONSTS if CONST_TYPE[k] == "Typename"]); i = self.new("Typename", 2); self.out.append(f"const {i} {n}"); return i
            return self.call("type")
        if t == "Specifiers" and r.random() < .8: return self.call("specifiers")
        if t == "Parameters" and r.random() < .9: return self.call(r.choice(["param", "params"]))
        if t == "PlatformAttributes" and r.random() < .5: return self.call("attributes")
        if t == "Untyped" and r.random() < .5: return self.call("untyped")
        if t in BODIES and r.random() < .7 and t not in ("Enum_Body", "Union_Body"):
            return self.call({"Class_Body": "class_body", "Struct_Body": "struct_body", "Export_Body": "export_body", "Global_Body": "global_body", "Function_Body": "function_body",
                              "Namespace_Body": "namespace_body", "Extern_Linkage_Body": "extern_body"}[t])
        for n in CONSTS:
            if CONST_TYPE[n] == t and r.random() < .3:
                i = self.new(t, 2); self.out.append(f"const {i} {n}"); return i
        return self.mk(t)

    def call(self, f):
        r = self.rng; P = self.pick; a = {}
        opt = .5
        name = lambda: "" if r.random() < .04 else self.word()
        def put(k, types, absent=opt):
            v = P(types, absent)
            if v: a[k] = v
        req = lambda k, types: put(k, types, .04)
        def mf():
            if r.random() < .3: a["mflags"] = r.randint(0, 3)
        PA, SP, TN, PM = ["PlatformAttributes"], ["Specifiers"], ["Typename"], ["Parameters"]
        t = "?"
        fwd = lambda x: x + ("" if a.get("body") else "_Fwd")
        if f in ("class", "struct"):
            a["name"] = name(); mf(); put("attributes", PA, .7); put("specifiers", SP, .7)
            put("body", ["Class_Body", "Untyped"] if f == "class" else ["Struct_Body"])
            if r.random() < .5: a["access"] = r.choice(["private", "protected", "public", "default"])
            n = r.choice([0, 0, 0, 1, 2, 3])
            if n: a["interfaces"] = [P(TN, .03, wrong=.03) for _ in range(n)]
            put("parent", TN if f == "struct" or r.random() < .8 else ["Class", "Struct", "Untyped"])
            t = fwd(f.capitalize())
        elif f in ("attributes", "comment", "execution", "pragma", "cond", "include", "untyped"):
            a["text"] = "" if r.random() < .06 else self.word()
            if f == "comment" and a["text"]: a["text"] = r.choice([a["text"], "two\nlines", "\n", "ends\n", "\nstarts", "a\n\nb", "a\r", "x" * r.randint(1, 90)])
            if f == "cond": a["kind"] = r.randint(0, 3)
            if f == "include": a["foreign"] = r.randint(0, 1)
            t = dict(attributes="PlatformAttributes", comment="Comment", execution="Execution", pragma="Preprocess_Pragma", cond="?", include="Preprocess_Include", untyped="Untyped")[f]
            if f == "cond": t = ["Preprocess_If", "Preprocess_IfDef", "Preprocess_IfNotDef", "Preprocess_ElIf"][a["kind"]]
        elif f == "module": a["name"] = name(); mf(); t = "Module"
        elif f == "using_namespace": a["name"] = name(); t = "Using_Namespace"
        elif f == "constructor":
            put("params", PM); put("body", ["Function_Body", "Untyped"]); t = fwd("Constructor")
            if r.random() < .4: a["init"] = self.mk("Untyped")
        elif f == "destructor": put("specifiers", SP); put("body", ["Function_Body", "Untyped"]); t = fwd("Destructor")
        elif f == "define":
            a["name"] = name(); put("params", ["Parameters_Define"]); t = "Preprocess_Define"
            if r.random() < .8: a["text"] = self.word()
            if r.random() < .3: a["register"] = 1
        elif f == "enum":
            a["name"] = name(); mf(); put("type", TN); put("attributes", PA, .8); put("body", ["Enum_Body", "Untyped"], .3); a["isclass"] = r.randint(0, 1)
            if r.random() < .2: a["macro"] = self.mk("Untyped")
            t = fwd("Enum_Class" if a["isclass"] else "Enum")
        elif f == "extern": a["name"] = name(); req("body", ["Extern_Linkage_Body", "Untyped"]); t = "Extern_Linkage"
        elif f == "namespace": a["name"] = name(); mf(); req("body", ["Namespace_Body", "Untyped"]); t = "Namespace"
        elif f == "friend": req("decl", ["Class", "Class_Fwd", "Struct", "Struct_Fwd", "Function", "Function_Fwd", "Operator", "Operator_Fwd"]); t = "Friend"
        elif f == "function":
            a["name"] = name(); mf(); put("params", PM); put("ret", TN); put("specifiers", SP); put("attributes", PA, .8); put("body", ["Function_Body", "Execution", "Untyped"]); t = fwd("Function")
        elif f == "operator":
            a["which"] = r.choice(["New", "Add", "Assign", "LEqual", "FunctionCall", "Unary_Minus", "Subscript", "Assign_Add", "UnaryNot", "DeleteArray"]); a["nspace"] = r.choice(["", "N::"])
            mf(); req("ret", TN); put("params", PM, .2); put("specifiers", SP); put("attributes", PA, .8); put("body", ["Function_Body", "Execution", "Untyped"]); t = "?"
        elif f == "opcast": req("type", TN); put("specifiers", SP); put("body", ["Function_Body", "Execution"]); t = fwd("Operator_Cast")
        elif f == "param": a["name"] = name(); req("type", TN); put("value", ["Untyped"]); t = "Parameters"
        elif f == "template": mf(); put("params", PM); req("decl", ["Class", "Function", "Struct", "Variable", "Using"]); t = "Template"
        elif f == "type":
            a["name"] = name(); put("attributes", PA, .8); put("specifiers", SP); put("array", ["Untyped"], .8); t = "Typename"
            if r.random() < .3: a["tag"] = r.choice(["class", "enum", "struct", "union"])
        elif f == "typedef":
            a["name"] = name(); mf(); put("attributes", PA, .8); t = "Typedef"
            req("type", ["Class", "Class_Fwd", "Enum", "Enum_Fwd", "Enum_Class", "Enum_Class_Fwd", "Function_Fwd", "Struct", "Struct_Fwd", "Union", "Typename"])
        elif f == "union": a["name"] = name(); mf(); put("attributes", PA, .8); req("body", ["Union_Body"]); t = "Union"
        elif f == "using": a["name"] = name(); mf(); put("attributes", PA, .8); req("type", TN); t = "Using"
        elif f == "variable": a["name"] = name(); mf(); put("attributes", PA, .8); put("specifiers", SP); put("value", ["Untyped"]); req("type", TN); t = "Variable"
        elif f == "specifiers":
            n = r.choice([1, 1, 2, 3, 5, 8, 13, 14, 15, 16, 20]) if r.random() < .5 else r.choice([1, 2])
            a["words"] = [r.choice(SPECS) for _ in range(n)]; a["how"] = r.choice([0, 1, 2]); t = "Specifiers" if n <= 14 else "?"
        elif f == "body": a["kind"] = r.choice(BODIES) if r.random() < .8 else r.choice(TYPES); t = a["kind"] if a["kind"] in BODIES else "?"
        elif f in ("params", "define_params"):
            single = [i for i, q in self.ty.items() if q == ("Parameters" if f == "params" else "Parameters_Define") and i in self.spent]
            n = r.choice([1, 2, 3, 4, 7]) if r.random() < .96 else 0
            e = []
            for _ in range(n):
                i = self.call("param") if f == "params" else self.mk("Parameters_Define")
                e.append(i)
            if e and r.random() < .08: e[r.randrange(len(e))] = self.mk(r.choice(["Untyped", "Typename", "Parameters_Define" if f == "params" else "Parameters"]))
            a["entries"] = e; a["how"] = r.randint(0, 1); t = "Parameters" if f == "params" else "Parameters_Define"
        elif f.endswith("_body"):
            n = r.choice([1, 1, 2, 3, 5, 7]) if r.random() < .96 else 0
            if f in ("enum_body", "union_body"): ok = ["Untyped", "Comment"]
            elif f in ("class_body", "struct_body"): ok = ["Variable", "Function", "Comment", "Constructor", "Destructor_Fwd", "Access_Public", "Friend", "Operator_Member", "NewLine", "Class", "Enum", "Preprocess_Define", "Using", "Struct_Fwd", "Untyped"]
            elif f == "function_body": ok = ["Variable", "Untyped", "Execution", "Comment", "NewLine", "Using", "Struct", "Preprocess_If", "Preprocess_EndIf", "Preprocess_Pragma"]
            else: ok = ["Variable", "Function", "Function", "Class", "Struct", "Namespace", "Preprocess_Include", "Preprocess_If", "Preprocess_EndIf", "Comment", "NewLine", "Operator_Fwd", "Template", "Typedef", "Using_Namespace", "Global_Body", "Export_Body"]
            a["entries"] = [P(ok, wrong=.03) for _ in range(n)]; a["how"] = r.randint(0, 1)
            t = dict(class_body="Class_Body", struct_body="Struct_Body", enum_body="Enum_Body", export_body="Export_Body", extern_body="Extern_Linkage_Body", function_body="Function_Body",
                     global_body="Global_Body", namespace_body="Namespace_Body", union_body="Union_Body")[f]
        i = self.new(t, 1 + sum(self.size.get(x, 1) for v in a.values() if not isinstance(v, str) for x in (v if isinstance(v, list) else [v]) if x in self.size))
        self.out.append(line(i, f, a))
        return i


CTORS = ("class struct constructor destructor define enum extern namespace friend function operator opcast param template type typedef union using variable params define_params specifiers body "
         "class_body struct_body enum_body export_body extern_body function_body global_body namespace_body union_body attributes comment execution pragma cond include untyped module using_namespace").split()


def history(rng, n):
    h = H(rng)
    while len(h.out) < n:
        h.call(rng.choice(CTORS))
    return h.out


def filled(rng, most):
    """bodies filled entry by entry, with what they may and may not have"""
    res = []
    for k in BODIES:
        for part in range(0, len(TYPES), 12):
            out, n = [], 0
            for t in TYPES[part:part + 12]:
                if t in BODIES: continue
                n += 2; out += [f"def {n} body kind={k}", f"valid {n}", f"mk {n + 1} {t} {hexs('e' + str(n))}", f"append {n} {n + 1}", f"valid {n}"]
            res.append(out)
        for _ in range(most):
            out = [f"def 1 body kind={k}"]
            ts = ["Untyped", "Comment"] if k in ("Enum_Body", "Union_Body") else ["Variable", "Untyped", "Comment", "Preprocess_If", "Using", "Struct"]
            for i in range(rng.randint(2, 6)): out += [f"mk {i + 2} {rng.choice([rng.choice(TYPES), *ts, *ts, *ts])} {hexs('e' + str(i))}", f"append 1 {i + 2}"] + ["valid 1"] * rng.randint(0, 1)
            res.append([x for x in out if x.split()[2:3] != ["Invalid"] and not any(b in x.split() for b in BODIES if x.startswith("mk"))] + ["valid 1"])
    return res


def check(c):
    rows = c.model("MCUpfront", "MCUpfront.cfg", gen=True, what="every constructor, every argument of every node type")
    exe = c.build("upfront.cpp")
    c.conform("UpfrontTrace", exe, table(rows, c.rng), what="every constructor with every argument of every node type")
    c.conform("UpfrontTrace", exe, filled(c.rng, c.pick(12, 200)), what="bodies filled entry by entry")
    c.conform("UpfrontTrace", exe, [history(c.rng, 45) for _ in range(c.pick(500, 9000))], what="random histories of constructors")
    cl = c.build("upfront.cpp", defs=("-DVF_CLIKE",))
    c.conform("UpfrontTrace", cl, [history(c.rng, 45) for _ in range(c.pick(60, 1000))], what="random histories of constructors (C-like API)")
    c.assumptions += ["an initializer list and an enum's underlying type macro are untyped code; the entries of a parameter list are single parameters"]


if __name__ == "__main__":
    vf.main(check, "C01")
