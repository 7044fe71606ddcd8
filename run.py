#!/usr/bin/env python3
"""run.py <ID> [quick|thorough]   run the check of one property against /repo
   run.py replay <file>           re-run one recorded violation
   run.py setup                   verify that the tools the checks need are there
Builds the harnesses of the property from /repo's working tree, explores their whole
(bounded) case space on all cores, re-runs anything that failed before reporting it,
writes evidence/<ID>.json. See DESIGN.md."""
import sys, os, json, time, subprocess, hashlib, tempfile, shutil, struct, signal, re, resource
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
CACHE = os.path.join(B, "cache")
NPROC = min(8, os.cpu_count() or 8)
sys.path.insert(0, V)
from checks import CHECKS

HDF5_INC = "/usr/include/hdf5/serial"
HDF5_LIB = "/usr/lib/x86_64-linux-gnu/hdf5/serial"
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
BASE_FLAGS = ["-O1", "-g1", "-w", "-I" + REPO, "-I" + REPO + "/src", "-I" + REPO + "/src/Io",
              "-I" + REPO + "/src/Ainur", "-I" + HDF5_INC, "-I" + V + "/common",
              "-DUSE_BOOST"]
LINK = ["-L" + HDF5_LIB, "-Wl,-rpath," + HDF5_LIB, "-lhdf5_cpp", "-lhdf5", "-llapack", "-lblas", "-lpthread"]

class CheckError(Exception):
    pass

T0 = time.time()      # of the whole check
QUICK_CASES = 620     # s after which a quick run starts no further case
QUICK_END = 780       # s after which a quick run stops what still runs
HUNG = []             # hangs confirmed so far (by any shard)

def left(tier):
    return T0 + QUICK_END - time.time() if tier == "quick" else 1e9

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def lib_sources(h):
    txt = open(REPO + "/src/CMakeLists.txt").read()
    m = re.search(r"add_library\(\s*psimaglite(.*?)\)", txt, re.S)
    src = [w for w in m.group(1).split() if w.endswith(".cpp")]
    skip = h.get("skip_lib", [])
    if not h.get("ainur"):
        src = [s for s in src if not s.startswith("Ainur/")]
    src = [s for s in src if os.path.basename(s) not in skip]
    return [REPO + "/src/" + s for s in src] + [REPO + "/src/" + s for s in h.get("extra_lib", [])]

def compile_obj(cxx, src, flags):
    """object file, cached by the hash of the preprocessed text and the flags"""
    os.makedirs(CACHE, exist_ok=True)
    p = subprocess.run([cxx, "-E", "-P"] + flags + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise CheckError("preprocessing %s failed:\n%s" % (src, p.stderr.decode(errors="replace")[-4000:]))
    h = hashlib.sha256(p.stdout + b"\0" + " ".join([cxx] + flags).encode()).hexdigest()[:32]
    obj = os.path.join(CACHE, h + ".o")
    if os.path.exists(obj):
        try: os.utime(obj)
        except OSError: pass
        return obj
    tmp = obj + ".%d.%s" % (os.getpid(), os.path.basename(src))
    p = sh([cxx] + flags + ["-c", src, "-o", tmp])
    if p.returncode:
        o = p.stdout.decode(errors="replace")
        errs = [l for l in o.splitlines() if "error" in l]
        raise CheckError("compiling %s failed:\n%s" % (src, "\n".join(errs[:20]) or o[-6000:]))
    os.rename(tmp, obj)
    return obj

def flags_of(h):
    f = list(BASE_FLAGS)
    if h.get("pthreads", True): f.append("-DUSE_PTHREADS")
    if h.get("inc"): f = ["-I" + os.path.join(V, i) for i in h["inc"]] + f
    san = h.get("san", "address")
    if san == "address": f += SAN
    elif san: f += ["-fsanitize=" + san, "-fno-omit-frame-pointer"]
    f += h.get("flags", [])
    if h.get("opt"): f = [x for x in f if x != "-O1"] + [h["opt"]]
    return f

def build(id, h, pool):
    cxx = h.get("cxx", "g++")
    f = flags_of(h)
    hs = [os.path.join(V, "harness", s) for s in h["src"]]
    jobs = [pool.submit(compile_obj, cxx, s, f + h.get("hflags", [])) for s in hs]
    libs = [] if h.get("nolib") else [pool.submit(compile_obj, cxx, s, f) for s in lib_sources(h)]
    return jobs, libs, cxx, f

def link(id, h, jobs, libs, cxx, f):
    objs = [j.result() for j in jobs]
    lobjs = [j.result() for j in libs]
    d = os.path.join(B, id); os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, h["name"])
    key = " ".join(objs + lobjs + [cxx] + f + h.get("link", []))
    stamp = exe + ".stamp"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    ar = exe + ".a"
    if os.path.exists(ar): os.unlink(ar)
    cmd = [cxx] + [x for x in f if x.startswith("-fsanitize") or x.startswith("-O")] + objs
    if lobjs:
        p = sh(["ar", "rcs", ar] + lobjs)
        if p.returncode: raise CheckError("ar failed: " + p.stdout.decode(errors="replace"))
        cmd.append(ar)
    cmd += h.get("link", []) + LINK + ["-o", exe]
    p = sh(cmd)
    if p.returncode:
        raise CheckError("linking %s failed:\n%s" % (exe, p.stdout.decode(errors="replace")[-4000:]))
    if os.path.exists(ar): os.unlink(ar)
    open(stamp, "w").write(key)
    return exe

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=3500:allocator_may_return_null=0:max_allocation_size_mb=1500:detect_stack_use_after_return=0:print_stacktrace=1:handle_abort=0"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
ENV["OPENBLAS_NUM_THREADS"] = "1"
ENV["OMP_NUM_THREADS"] = "1"
ENV["LC_ALL"] = "C"
ENV["HDF5_USE_FILE_LOCKING"] = "FALSE"

def limits(h):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))
        if not h.get("san", "address"):
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        os.setsid()
    return f

def read_note(path):
    try:
        with open(path, "rb") as f: d = f.read()
        c, n = struct.unpack("<QQ", d[:16])
        return c, d[16:16 + n]
    except Exception:
        return 0, b""

def run_proc(h, exe, args, scratch, hang, total, env):
    """run one harness process; returns (status, note, stderr tail, out json or None)"""
    os.makedirs(scratch, exist_ok=True)
    note = os.path.join(scratch, ".note"); out = os.path.join(scratch, ".out")
    for x in (note, out, out + ".states"):
        if os.path.exists(x): os.unlink(x)
    work = os.path.join(scratch, "w")
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    errp = os.path.join(scratch, ".err")
    with open(errp, "wb") as err:
        p = subprocess.Popen([exe] + args + ["--note", note, "--out", out], cwd=work, stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=err, env=env, preexec_fn=limits(h))
        t0 = time.time(); last = (-1, b""); tl = t0; status = None
        while True:
            try:
                p.wait(timeout=0.1 if time.time() - t0 < 2 else 0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            n = read_note(note)
            if n[0] != last[0]: last = n; tl = time.time()
            try:
                if os.path.getsize(errp) > 64 << 20:
                    os.truncate(errp, 0)
            except OSError: pass
            if time.time() - tl > hang: status = "hang"
            if time.time() - t0 > total: status = "timeout"
            if status:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait(); break
    n = read_note(note)
    with open(errp, "rb") as f:
        f.seek(0, 2); sz = f.tell(); f.seek(max(0, sz - 20000)); tail = f.read().decode(errors="replace")
    res = None
    if status is None:
        if p.returncode == 0 and os.path.exists(out):
            res = json.load(open(out)); status = "ok"
        else:
            status = "crash %d" % p.returncode
    shutil.rmtree(work, ignore_errors=True)
    return status, n[1], tail, res

def summarize_crash(tail):
    for pat in (r"ERROR: AddressSanitizer:? ?([^\n]*)", r"(Assertion [^\n]*failed)", r"runtime error: ([^\n]*)",
                r"terminate called[^\n]*\n[^\n]*", r"(WARNING: ThreadSanitizer: [^\n]*)"):
        m = re.search(pat, tail)
        if m: return m.group(0)[:400]
    return tail[-300:].strip()

def shard(h, exe, i, n, scratch, tier):
    """one shard, restarted past cases that crash or hang"""
    env = dict(ENV); env["VERIF_TIER"] = tier; env.update(h.get("env", {}))
    if tier == "quick": env["VERIF_DEADLINE"] = str(int(T0 + QUICK_CASES))
    hang = h.get("hang", 60); total = h.get("total", 800 if tier == "quick" else 6 * 3600)
    skip = []; crashes = []
    while True:
        args = ["--shard", "%d/%d" % (i, n)]
        if skip:
            sf = os.path.join(scratch, "skip"); os.makedirs(scratch, exist_ok=True)
            open(sf, "wb").write(b"\0".join(skip)); args += ["--skip-file", sf]
        if left(tier) < 5: return None, b"", crashes, "INCOMPLETE shard %d not run" % i
        st, key, tail, res = run_proc(h, exe, args, scratch, hang, min(total, left(tier)), env)
        if st == "ok":
            states = open(os.path.join(scratch, ".out.states"), "rb").read()
            return res, states, crashes, None
        if st == "timeout" and left(tier) < 5:
            return None, b"", crashes, "INCOMPLETE shard %d stopped at %r" % (i, key[:200])
        if st == "timeout" or not key:
            return None, b"", crashes, "%s in shard %d (case %r): %s" % (st, i, key[:200], tail[-1500:])
        if st == "hang":
            # alone, with a longer limit, before it is called a hang (one confirmed hang is enough)
            if HUNG: return None, b"", crashes, None
            if left(tier) < 2 * hang:
                return None, b"", crashes, "INCOMPLETE shard %d slow at %r" % (i, key[:200])
            st2, k2, tail2, res2 = run_only(h, exe, key, os.path.join(scratch, "again"), tier, 2 * hang + 60)
            if st2 == "ok" and not res2["fails"]:
                hang *= 3
                if hang > 600: return None, b"", crashes, "shard %d does not progress at %r" % (i, key[:200])
                continue
            HUNG.append(key)
            what = "no progress for %d s (and again when run alone)" % hang if st2 in ("hang", "timeout") else st2
            crashes.append((key, "hang: " + what))
        else:
            crashes.append((key, st + ": " + summarize_crash(tail)))
        skip.append(key)
        if len(crashes) >= 6 or HUNG or left(tier) < 360:
            return None, b"", crashes, None

def run_only(h, exe, key, scratch, tier, hang):
    env = dict(ENV); env["VERIF_TIER"] = tier; env.update(h.get("env", {}))
    os.makedirs(scratch, exist_ok=True)
    kf = os.path.join(scratch, "key"); open(kf, "wb").write(key)
    return run_proc(h, exe, ["--only-file", kf], scratch, hang, min(h.get("total", 800), max(20, left(tier) + 60)), env)

def known(id):
    r = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            m = re.match(r"known: property=(\S+) harness=(\S+) key=(.*?) \|\| (.*)$", l)
            if m and m.group(1) == id: r.append((m.group(2), m.group(3), m.group(4)))
    return r

def esc(key):
    return "".join(chr(c) if 32 <= c < 127 and c != 92 else "\\x%02x" % c for c in key)

def main(id, tier):
    t0 = time.time()
    spec = CHECKS[id]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    hs = [h for h in spec["harness"] if tier == "thorough" or not h.get("thorough_only")]
    os.makedirs(os.path.join(B, id), exist_ok=True)
    with ThreadPoolExecutor(NPROC) as pool:
        builds = [(h,) + build(id, h, pool) for h in hs]
        exes = []
        for h, jobs, libs, cxx, f in builds:
            exes.append((h, link(id, h, jobs, libs, cxx, f)))
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="scratch.", dir=os.path.join(B, id))
    tot = dict(cases=0, completed=0, transitions=0, schedules=0, faults=0)
    states = set(); samples = []; fails = []; errors = []; extra = {}; capped = False
    per = {}
    try:
        with ThreadPoolExecutor(NPROC) as pool:
            jobs = []
            for h, exe in exes:
                n = h.get("shards", NPROC)
                for i in range(n):
                    jobs.append((h, exe, pool.submit(shard, h, exe, i, n, os.path.join(scratch, h["name"] + str(i)), tier)))
            for h, exe, j in jobs:
                res, st, crashes, err = j.result()
                if err: errors.append(h["name"] + ": " + err)
                for k, what in crashes: fails.append((h, exe, k, what))
                if res:
                    for k in tot: tot[k] += res[k]
                    per[h["name"]] = per.get(h["name"], 0) + res["cases"]
                    hh = hash(h["name"])
                    a = memoryview(st).cast("Q")
                    states.update(a)
                    capped = capped or res["capped"]
                    for k, v in res["extra"].items(): extra[k] = extra.get(k, 0) + v
                    samples += [h["name"] + ": " + s for s in res["samples"][:2]]
                    for k, what in res["fails"]: fails.append((h, exe, k.encode("latin-1"), what))
        kn = known(id)
        nviol = 0; nknown = 0; unrep = []
        seen_known = set()
        rdir = os.path.join(B, "replays"); os.makedirs(rdir, exist_ok=True)
        fails.sort(key=lambda x: (len(x[2]), x[2]))
        for h, exe, k, what in fails:
            ks = esc(k)
            hit = [x for x in kn if x[0] == h["name"] and x[1] == ks]
            if hit:
                if (h["name"], ks) not in seen_known:
                    print("KNOWN-FINDING: property=%s %s [%s]" % (id, hit[0][2], ks))
                    seen_known.add((h["name"], ks)); nknown += 1
                continue
            if nviol >= 10: continue
            ok = False
            if nviol and left(tier) < 0: break
            if what.startswith("hang: ") or (nviol and left(tier) < 60): ok = True
            for _ in range(0 if ok else 1 if h.get("replay") == "none" else 3):
                st, _k, tail, res = run_only(h, exe, k, os.path.join(scratch, "replay"), tier, h.get("hang", 60) * 2)
                if st != "ok" or (res and res["fails"]): ok = True; break
            if not ok and h.get("replay") != "none":
                unrep.append((h, ks, what)); continue
            rp = os.path.join(rdir, "%s-%s-%d.json" % (id, h["name"], nviol))
            json.dump(dict(property=id, harness=h["name"], tier=tier, key=k.decode("latin-1"), what=what,
                           how="python3 /verif/run.py replay " + rp), open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (id, rp))
            print("   case: %s\n   %s" % (ks[:500], what[:1000]))
            nviol += 1
        if unrep and nviol == 0:
            # a failure that needs the cases before it: run the whole shard again
            for h, ks, what in unrep[:1]:
                for i in range(h.get("shards", NPROC)):
                    exe = [e for hh, e in exes if hh is h][0]
                    res, st, crashes, err = shard(h, exe, i, h.get("shards", NPROC), os.path.join(scratch, "re%d" % i), tier)
                    again = [x for x in (res["fails"] if res else [])] + [(c[0].decode("latin-1"), c[1]) for c in crashes]
                    if any(esc(x[0].encode("latin-1")) == ks for x in again):
                        rp = os.path.join(rdir, "%s-%s-shard.json" % (id, h["name"]))
                        json.dump(dict(property=id, harness=h["name"], tier=tier, shard=i, key=ks, what=what), open(rp, "w"), indent=1)
                        print("VIOLATION property=%s replay=%s" % (id, rp))
                        print("   case (after the cases before it in shard %d): %s\n   %s" % (i, ks[:500], what[:1000]))
                        nviol += 1; break
                else:
                    errors.append("%s: failure not reproduced: %s: %s" % (h["name"], ks, what))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    stale = [x for x in kn if (x[0], x[1]) not in seen_known and x[0] in per]
    wall = time.time() - t0
    cov = {}
    lvl = spec["level"]
    if lvl == "model_checking":
        cov = dict(states=len(states), transitions=tot["transitions"], traces_validated_against_impl=tot["completed"])
    elif lvl == "fault_enumeration":
        cov = dict(evaluations=tot["cases"], distinct_nontrivial=len(states), rule=spec["rule"])
    else:
        cov = dict(evaluations=tot["cases"], distinct_nontrivial=len(states), rule=spec["rule"])
    if lvl != "model_checking": cov["comparisons"] = tot["transitions"]
    if tot["schedules"]: cov["schedules"] = tot["schedules"]
    if tot["faults"]: cov["fault_points"] = tot["faults"]
    cov["samples"] = samples[:24]
    cov["cases_per_harness"] = per
    cov["extra"] = extra
    cov["exhaustive"] = bool(not capped and not errors)
    cov["bounds"] = spec.get("bounds", "")
    cov["build_s"] = round(tb, 1)
    if nknown: cov["known_findings_seen"] = nknown
    if stale: cov["known_findings_not_seen"] = [esc(x[1].encode()) for x in stale]
    ev = dict(property=id, tier=tier, seed=seed, level=lvl, coverage=cov, assumptions=spec.get("assumptions", []),
              wall_s=round(wall, 2), violations=nviol)
    evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(V, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    json.dump(ev, open(os.path.join(evdir, id + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d distinct outcomes, %d comparisons%s%s, build %.1f s, total %.1f s%s" % (
        id, tier, tot["cases"], len(states), tot["transitions"],
        ", %d schedules" % tot["schedules"] if tot["schedules"] else "",
        ", %d fault points" % tot["faults"] if tot["faults"] else "", tb, wall, " CAPPED" if capped else ""))
    prune_cache()
    if nviol: return 1
    for e in errors:
        if "INCOMPLETE" in e: print(e + " (out of time; everything explored so far held)")
    errors = [e for e in errors if "INCOMPLETE" not in e]
    if errors:
        for e in errors: print("ERROR " + e)
        return 3
    if tot["cases"] == 0:
        print("ERROR nothing explored"); return 3
    return 0

def prune_cache():
    try:
        fs = sorted(((os.path.getmtime(os.path.join(CACHE, f)), os.path.getsize(os.path.join(CACHE, f)), os.path.join(CACHE, f)) for f in os.listdir(CACHE)), reverse=True)
        s = 0
        for m, z, f in fs:
            s += z
            if s > 3 << 30: os.unlink(f)
    except OSError: pass

def replay(path):
    r = json.load(open(path)); id = r["property"]
    h = [h for h in CHECKS[id]["harness"] if h["name"] == r["harness"]][0]
    with ThreadPoolExecutor(NPROC) as pool: exe = link(id, h, *build(id, h, pool))
    d = tempfile.mkdtemp(prefix="scratch.", dir=os.path.join(B, id))
    try:
        st, k, tail, res = run_only(h, exe, r["key"].encode("latin-1"), d, r["tier"], 120)
        print(st, json.dumps(res["fails"] if res else None, indent=1)); print(tail[-5000:])
    finally: shutil.rmtree(d, ignore_errors=True)
    return 1 if st != "ok" or res["fails"] else 0

if __name__ == "__main__":
    os.makedirs(B, exist_ok=True)
    if sys.argv[1] == "setup":
        p = sh(["g++", "--version"]); print(p.stdout.decode().splitlines()[0])
        assert p.returncode == 0 and os.path.isdir(REPO + "/src") and os.path.exists(HDF5_INC + "/H5Cpp.h")
        sys.exit(0)
    if sys.argv[1] == "replay": sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "list": print(" ".join(sorted(CHECKS))); sys.exit(0)
    try:
        sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    except CheckError as e:
        print("ERROR", e); sys.exit(2)
