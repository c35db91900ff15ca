"""seed.py ID PROPERTY: packs the changes now in /repo's working tree and the demo in /tmp/demo.cpp as /verif/seeded/ID, then
confirms it: builds, stable tests pass, the demo fails with the change and passes without. Reads needs / what from stdin (2 lines)."""
import json, os, shutil, subprocess, sys
ident, prop = sys.argv[1:3]
needs, what = [x.strip() for x in sys.stdin.read().strip().split("\n")[:2]]
D = f"/verif/seeded/{ident}"; KIT = "/verif/lib/seedkit"; H = "/verif/harness"
diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout.decode()
if not diff.strip(): sys.exit("no change in /repo")
subprocess.run(["rm", "-rf", D]); os.makedirs(D)
open(f"{D}/patch.diff", "w").write(diff)
shutil.copytree(f"{H}/winshim", f"{D}/winshim"); shutil.copy(f"{H}/prelude.hpp", D)
if os.path.exists("/tmp/demo.sh"): shutil.copy("/tmp/demo.sh", f"{D}/demo.sh"); os.remove("/tmp/demo.sh")
else: open(f"{D}/demo.sh", "w").write(open(f"{KIT}/demo.sh").read().replace("@SAN@", os.environ.get("SAN", "")))
shutil.copy(f"{KIT}/demo.hpp", D)
shutil.copy("/tmp/demo.cpp", f"{D}/demo.cpp")
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(f"{D}/meta.json", "w"), indent=1)
run = lambda *a, **k: subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
bad = []
try:
    # changed lines must be original ones
    b = run("bash", "/opt/vp/build.sh"); t = run("bash", "/opt/vp/test.sh", "/tmp/seed.json")
    if b.returncode or len(json.load(open("/tmp/seed.json"))["passed"]) != 3: bad.append("build/test: " + b.stdout.decode()[-500:] + t.stdout.decode()[-300:])
    p = run("bash", f"{D}/demo.sh", cwd="/repo")
    if p.returncode == 0: bad.append("demo passes with the change")
    print("with change:", p.returncode, p.stdout.decode("latin-1")[-300:])
    if "--check" in sys.argv:
        c = run("python3", f"/verif/checks/{prop}.py"); print("check:", c.returncode, c.stdout.decode("latin-1")[-400:])
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    run("bash", "/opt/vp/build.sh")
p = run("bash", f"{D}/demo.sh", cwd="/repo")
if p.returncode: bad.append("demo fails without the change: " + p.stdout.decode("latin-1")[-600:])
old = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l.strip("- \t")]
own = [l[1:].strip() for l in run("git", "-C", "/repo", "diff", "8bf72c5", "HEAD").stdout.decode("latin-1").splitlines() if l.startswith("+")]
mine = [l for l in old if l in own]
if mine: print("note: lines of own commits:", mine)
print("BAD" if bad else "ok", ident, *bad)
