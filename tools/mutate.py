#!/usr/bin/env python3
"""mutate.py <worker> <out.jsonl> <n per file> <seed> <file:CHK[,CHK]>...
Makes small changes to files of a scratch clone of /repo, one at a time, and runs the quick
checks given for the file on each; what survives is appended to out.jsonl (to be looked at
by hand: it is either equivalent, or something the check misses)."""
import sys, os, re, json, random, subprocess, time
w, out, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
R = "/tmp/mut/r%s" % w; Bd = "/tmp/mut/b%s" % w; E = "/tmp/mut/e%s" % w
if not os.path.isdir(R): subprocess.check_call(["git", "clone", "-q", os.environ.get("MUT_FROM", "/tmp/wt"), R])
else: subprocess.check_call("git -C %s checkout -q -- . && git -C %s pull -q" % (R, R), shell=True)
SUBS = [(r"<=", "<"), (r"(?<![<>=!-])>=", ">"), (r"(?<![<])<(?![<=])(?= )", "<="), (r"(?<= )(?<![->])>(?![>=])(?= )", ">="),
        (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"),
        (r"(?<= )\*(?= )", "+"), (r"(?<= )/(?= )", "*"), (r"(?<= )%(?= )", "/"), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "="), (r"/=", "*="),
        (r"\+=", "="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"),
        (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "1"), (r"\bcontinue;", "break;"), (r"\bbreak;", ";"), (r"\bif \((?!!)", "if (!("),
        (r"PsimagLite::conj\(", "("), (r"\.clear\(\);", ";"), (r"\brows\(\)", "cols()"), (r"\bcols\(\)", "rows()"), (r"\brow\b", "col"), (r"\bcol\b", "row"),
        (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\(i, j\)", "(j, i)")]
def mutants(f):
    L = open(R + "/" + f).read().split("\n"); r = []; block = False
    for i, l in enumerate(L):
        s = l.strip()
        if s.startswith("/*"): block = True
        if block:
            if "*/" in s: block = False
            continue
        if not s or s.startswith(("//", "#", "*", "template", "typedef", "using", "public", "private", "class", "struct", "namespace", "assert", "std::cerr", "throw", "err(", "msg", "os <<", "case", "friend", "static const")): continue
        if not l.startswith(("\t\t", "        ")) and not re.search(r"\breturn\b", l) and not l.startswith("\t"): continue
        code = l.split("//")[0]
        if '"' in code and not "label" in code: pass
        for a, b in SUBS:
            if b in ("<=", ">=") and ("template" in l or "<" in l and ">" in l and "::Type" in l): continue
            for m in re.finditer(a, code):
                if code[:m.start()].count('"') % 2: continue
                t = code[:m.start()] + b + code[m.end():]
                if b == "if (!(":
                    k = t.find("if (!(") + 5; dep = 0
                    for q in range(k, len(t)):
                        dep += (t[q] == "(") - (t[q] == ")")
                        if dep == 0: t = t[:q] + ")" + t[q:]; break
                    else: continue
                r.append((i, l, t))
        if re.match(r"^\s+[\w\[\]().>*:-]+(\([^;]*\))?( [-+*/|&]?= .*|\+\+|--)?;$", code) and not re.match(r"^\s+(return|break|continue)", code):
            r.append((i, l, "\t;"))
    return r
env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=Bd, VERIF_EVIDENCE=E)
rnd = random.Random(seed)
for spec in sys.argv[5:]:
    f, cs = spec.split(":")
    ms = mutants(f); rnd.shuffle(ms)
    seen = {}; take = []
    for m in ms:
        if seen.get(m[0], 0) >= 2: continue
        seen[m[0]] = seen.get(m[0], 0) + 1; take.append(m)
        if len(take) >= n: break
    st = dict(caught=0, survived=0, nocompile=0)
    for i, l, t in take:
        src = open(R + "/" + f).read(); L = src.split("\n"); L[i] = t
        open(R + "/" + f, "w").write("\n".join(L))
        res = None; t0 = time.time(); rcs = []
        for c in cs.split(","):
            p = subprocess.run(["timeout", "850", "python3", "/verif/run.py", c, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = p.stdout.decode(errors="replace"); rcs.append(p.returncode)
            if p.returncode == 1 and "VIOLATION" in o: res = "caught"; break
            subprocess.run(["pkill", "-9", "-f", Bd + "/"])
            if p.returncode == 2: res = "nocompile"; break
        open(R + "/" + f, "w").write(src)
        if res is None: res = "survived" if all(r == 0 for r in rcs) else "odd"
        st[res] = st.get(res, 0) + 1
        if res in ("survived", "odd"):
            open(out, "a").write(json.dumps(dict(file=f, line=i + 1, old=l.strip(), new=t.strip(), res=res, rcs=rcs, s=round(time.time() - t0))) + "\n")
    open(out + ".sum", "a").write("%s %s\n" % (f, json.dumps(st)))
