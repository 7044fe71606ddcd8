#!/usr/bin/env python3
"""mkseed.py <spec.py>: makes /verif/seeded/<id>/ from a spec file that defines
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new), ...], DEMO (C++ text of demo.cpp) and
optionally FLAGS, LIBS, TIMEOUT. Confirms the demo in scratch copies: exit 0 on the
unchanged tree, nonzero with the patch."""
import sys, os, json, subprocess, shutil, tempfile
ns = {"FLAGS": "", "LIBS": "", "TIMEOUT": 200}
exec(open(sys.argv[1]).read(), ns)
d = "/verif/seeded/" + ns["ID"]
w = tempfile.mkdtemp(prefix="mkseed", dir="/tmp")
try:
    t = w + "/repo"
    subprocess.check_call(["git", "clone", "-q", "/repo", t])
    shutil.copytree("/repo/_build", t + "/_build", symlinks=True)
    for f, old, new in ns["EDITS"]:
        s = open(t + "/" + f).read()
        n = s.count(old)
        if n != 1: sys.exit("%s: %d matches of %r" % (f, n, old))
        open(t + "/" + f, "w").write(s.replace(old, new))
    base = [l.split()[0] for l in subprocess.check_output(["git", "-C", t, "log", "--format=%H %s"], text=True).splitlines() if l.split(None, 1)[1].startswith("fix:")]
    for f in {e[0] for e in ns["EDITS"]}:
        for l in subprocess.check_output(["git", "-C", t, "diff", "-U0", "--", f], text=True).splitlines():
            if l.startswith("@@"):
                a = (l.split()[1][1:] + ",1").split(",")[:2]
                for b in range(int(a[0]), int(a[0]) + int(a[1])):
                    h = subprocess.check_output(["git", "-C", t, "blame", "-l", "-s", "-L%d,%d" % (b, b), "HEAD", "--", f], text=True)
                    if h.split()[0].lstrip("^") in base: print("NOTE: changes a line of a fix commit:", h.strip())
    patch = subprocess.run(["git", "-C", t, "diff"], stdout=subprocess.PIPE).stdout
    subprocess.check_call(["git", "-C", t, "checkout", "-q", "--", "."])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(patch)
    if "DEMO" in ns: open(d + "/demo.cpp", "w").write(ns["DEMO"])
    for f, t2 in ns.get("EXTRA", {}).items(): open(d + "/" + f, "w").write(t2)
    libs = [e for e, _, _ in ns["EDITS"] if e.endswith(".cpp")]
    sh = """#!/bin/bash
# run in the root of the PsimagLite tree, after the build
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
H=/usr/include/hdf5/serial
L=/usr/lib/x86_64-linux-gnu/hdf5/serial
SRC="src/PsimagLite.cpp src/Concurrency.cpp src/Matrix.cpp src/Mpi.cpp src/ProgressIndicator.cpp src/MemResolv.cpp src/MersenneTwister.cpp src/PsiBase64.cpp src/SpecialFunctions.cpp src/TridiagonalMatrix.cpp src/PredicateSimple.cpp src/Io/TypeToH5.cpp %LIBS%"
S=""
for f in $SRC; do [ -f "$f" ] && S="$S $f"; done
g++ -std=c++17 -O1 -w %FLAGS% -DUSE_BOOST -DUSE_PTHREADS -I. -Isrc -Isrc/Io -Isrc/Ainur -Isrc/Geometry -I$H "$D/demo.cpp" $S -o "$W/demo" -L$L -Wl,-rpath,$L -lhdf5_cpp -lhdf5 -llapack -lblas -lpthread || exit 2
cd "$W"
timeout %TIMEOUT% ./demo
""".replace("%LIBS%", ns["LIBS"]).replace("%FLAGS%", ns["FLAGS"]).replace("%TIMEOUT%", str(ns["TIMEOUT"]))
    open(d + "/demo.sh", "w").write(ns.get("SH", sh)); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    def demo():
        p = subprocess.run(["bash", d + "/demo.sh"], cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout.decode(errors="replace")[-1500:]
    r0, o0 = demo()
    subprocess.check_call(["git", "-C", t, "apply", d + "/patch.diff"])
    r1, o1 = demo()
    if "notest" not in sys.argv:
        p = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && bash /opt/vp/build.sh >%s/b.log 2>&1 && bash /opt/vp/test.sh %s/t.json" % (t, w, w)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            a = json.load(open("/opt/vp/BASELINE.json")); b = json.load(open(w + "/t.json"))
            print("tests:", {k: (len(v) if hasattr(v, "__len__") else v) for k, v in b.items()}, "missing:", sorted(set(a["stable"]) - set(b.get("passed", []))))
        except Exception as e:
            print("tests:", p.returncode, repr(e), p.stdout.decode()[-300:])
    print(ns["ID"], "unchanged:", r0, "patched:", r1)
    if r0 != 0 or r1 == 0 or r1 == 2: print("BAD SEED\n", o0, "\n----\n", o1)
    if len(sys.argv) > 2:
        for chk in (sys.argv[2:] if sys.argv[2] != "check" else [ns["PROP"]]):
            p = subprocess.run(["python3", "/verif/run.py", chk, "quick"], env=dict(os.environ, VERIF_REPO=t, VERIF_EVIDENCE=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            print(chk, "exit", p.returncode, "\n".join(l for l in p.stdout.decode(errors="replace").splitlines() if "VIOLATION" in l)[:600])
finally:
    shutil.rmtree(w)
