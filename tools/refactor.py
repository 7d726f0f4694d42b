#!/usr/bin/env python3
"""refactor.py [NAME...] [--n N] [--seed S]: behaviour-preserving edits (tools/refactors)
in a scratch copy; every property in every configuration has to stay quiet."""
import argparse, concurrent.futures as cf, glob, os, re, sys
A = argparse.ArgumentParser()
A.add_argument("names", nargs="*"); A.add_argument("--n", type=int, default=400); A.add_argument("--seed", default="3")
A = A.parse_args()
sys.argv = ["x", "/dev/null", "--jobs", "0", "--every", "1000000"]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutants as M
H = os.path.dirname(os.path.abspath(__file__))
names = A.names or sorted(os.path.basename(f)[:-4] for f in glob.glob(H + "/refactors/*.txt"))


def run(k, name):
    w = M.W("r%d" % k)
    for p, old, new in re.findall(r"^<<< (\S+)\n(.*?)^===\n(.*?)^>>>$", open(H + "/refactors/%s.txt" % name).read(), re.M | re.S):
        f = w.d + "/repo/" + p
        s = open(f).read()
        if s.count(old) != 1:
            return name, "%s: old text occurs %d times: %s" % (p, s.count(old), old[:80])
        open(f, "w").write(s.replace(old, new))
    r = w.tests()
    if r:
        return name, r
    bad = []
    for c in M.CFGS:
        e = dict(M.ENV, SPDMSIM_CFG=c, SPDM_CONFIG=M.V + "/cfg/%s.toml" % c, CARGO_TARGET_DIR=w.d + "/t." + c)
        # without the public fields where they are no longer what they were
        for f in ("crypto,fields", "crypto"):
            r = M.sh(["cargo", "build", "--offline", "--release", "--no-default-features", "--features", f.replace("crypto,", "").replace("crypto", "") if c == "nocrypto" else f] +
                     (M.NOCHK if c == "wide" else []), cwd=w.d + "/sim", env=e)
            if not r.returncode:
                break
        if r.returncode:
            return name, "simbuild " + r.stdout[-400:]
        for p in M.PROPS:
            o = w.d + "/o"
            r = M.sh([w.d + "/t.%s/release/spdmsim" % c, "work", "--prop", p, "--seed", A.seed, "--n", str(A.n // 5 if c == "max" else A.n),
                      "--secs", "60", "--out", o, "--known", M.V + "/known_findings.txt"], t=200)
            if r.returncode:
                bad.append("%s %s rc %d %s" % (c, p, r.returncode, r.stdout[-200:]))
            bad += ["%s %s" % (c, l[:300]) for l in open(o, errors="replace") if l.startswith("viol\t")][:2]
    return name, "\n".join(bad) or "quiet"


with cf.ThreadPoolExecutor(5) as ex:
    for n, r in ex.map(lambda a: run(*a), enumerate(names)):
        print(n, r, flush=True)
