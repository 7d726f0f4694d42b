#!/usr/bin/env python3
"""tries.py FILE [names]: hand-written changes (### name Cxx / <<< path / old / === / new / >>>),
tried in scratch copies under /tmp/mut: do the stable tests still pass, and does the check of
the property named (and which others) report them? A development aid: no check uses it."""
import sys, re, json, os, queue, threading, concurrent.futures as cf
F = sys.argv[1]; want = sys.argv[2:]
sys.argv = ["mutants.py", "/dev/null"]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import mutants as M
sys.path.insert(0, V)
CH = {}
src = open(V + "/check.py").read()
exec(re.search(r"CONFIGS = \{.*?\n\}", src, re.S).group(0), {"ALL": M.CFGS}, CH)
tries, cur, blk, side = [], None, None, None
for l in open(F).read().split("\n"):
    if l.startswith("### "):
        cur = dict(name=l.split()[1], prop=l.split()[2], ch=[]); tries.append(cur)
    elif l.startswith("<<< "): blk = dict(path=l[4:].strip(), old=[], new=[]); side = "old"
    elif l == "===" and blk: side = "new"
    elif l == ">>>" and blk: cur["ch"].append(blk); blk = None
    elif blk is not None: blk[side].append(l)
if want: tries = [t for t in tries if t["name"] in want]
ws = queue.Queue()
J = min(7, len(tries))
for k in range(J): ws.put(M.W(k))
def sim(w, t):
    hits = {}
    p0 = t["prop"]
    cf0 = CH["CONFIGS"].get(p0, M.CFGS)
    for c in M.CFGS:
        e = dict(M.ENV, SPDMSIM_CFG=c, SPDM_CONFIG=V + "/cfg/%s.toml" % c, CARGO_TARGET_DIR=w.d + "/t." + c)
        r = M.sh(["cargo", "build", "--offline", "--release"] + ["--features", "fields" if c == "nocrypto" else "crypto,fields"] +
                 (M.NOCHK if c == "wide" else []), cwd=w.d + "/sim", env=e)
        if r.returncode: return "simbuild " + c + r.stdout[-600:]
        for p in M.PROPS:
            if p != p0 and c not in ("std", "tight"): continue
            if p == p0 and c not in cf0: continue
            o = w.d + "/o"
            own = p == p0
            r = M.sh([w.d + "/t.%s/release/spdmsim" % c, "work", "--prop", p, "--seed", "1", "--n", "8000" if own else "400", "--secs", "14" if own else "4",
                    "--out", o, "--known", V + "/known_findings.txt"], t=120)
            if r.returncode: v = ["crash %d" % r.returncode]
            else: v = [l.split("\t")[3] for l in open(o, errors="replace") if l.startswith("viol\t")]
            if v: hits.setdefault(p, []).append(c + ": " + v[0][:150])
    own = hits.pop(p0, None)
    return ("CAUGHT (%s) %s" % (",".join(x.split(":")[0] for x in own), own[0]) if own else "MISSED") + " | others: " + " ".join(hits)
def one(t):
    w = ws.get()
    try:
        saved = {}
        for b in t["ch"]:
            f = w.d + "/repo/" + b["path"]; s = open(f).read(); saved.setdefault(f, s)
            old, new = "\n".join(b["old"]), "\n".join(b["new"])
            if s.count(old) != 1: print(t["name"], "old text found %d times" % s.count(old), flush=True); r = None; break
            open(f, "w").write(s.replace(old, new))
        else:
            r = w.tests() or sim(w, t)
            print(t["name"], t["prop"], r, flush=True)
        for f, s in saved.items(): open(f, "w").write(s)
    except Exception as x: print(t["name"], "EXC", x, flush=True)
    finally: ws.put(w)
with cf.ThreadPoolExecutor(J) as ex: list(ex.map(one, tries))
