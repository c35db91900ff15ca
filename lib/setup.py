"""Verifies that the tools are there and that every specification parses."""
import glob, os, subprocess, sys, tempfile, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
subprocess.run(["clang++-18", "--version"], check=True, stdout=subprocess.DEVNULL)
def sany(f):
    with tempfile.TemporaryDirectory() as d:
        p = subprocess.run(["java", f"-Djava.io.tmpdir={d}", f"-DTLA-Library={vf.SPEC}", "-cp", vf.CP, "tla2sany.SANY", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return f, p.returncode, p.stdout.decode("utf-8", "replace")
bad = 0
with cf.ThreadPoolExecutor(vf.NCPU) as ex:
    for f, rc, out in ex.map(sany, sorted(glob.glob(f"{vf.SPEC}/*.tla"))):
        if rc or "*** Errors" in out:
            bad = 1; print(f, rc, out[-2000:])
sys.exit(bad)
