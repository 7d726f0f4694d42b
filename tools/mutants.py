#!/usr/bin/env python3
"""mutants.py OUT [--every K] [--offset J] [--files RE]: small mechanical changes to
/repo's source, in scratch copies under /tmp/mut. A mutant that compiles and passes the
stable tests is given to the simulator (every property, several configurations).
A development aid: no check uses it."""
import argparse, concurrent.futures as cf, json, os, queue, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = argparse.ArgumentParser()
A.add_argument("out"); A.add_argument("--every", type=int, default=1); A.add_argument("--offset", type=int, default=0)
A.add_argument("--files", default="."); A.add_argument("--jobs", type=int, default=8); A.add_argument("--at", help="FILE:LINE[,FILE:LINE...]"); A.add_argument("--n", type=int, default=250)
A = A.parse_args()
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_PROFILE_DEV_DEBUG="0", CARGO_BUILD_JOBS="2",
           RUST_BACKTRACE="0")
PROPS = ["C%02d" % i for i in range(1, 17)]
CFGS = ["std", "mini", "tight", "certonly", "vca", "nocrypto", "wide", "max"]
NOCHK = ["--config", "profile.release.package.spdm.overflow-checks=false",
         "--config", "profile.release.package.spdm.debug-assertions=false"]
SKIP = re.compile(r"measurements\.rs|no_crypto_defaults")


def muts():
    out = []
    for d, _, fs in sorted(os.walk("/repo/src")):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), "/repo")
            if not f.endswith(".rs") or SKIP.search(p) or not re.search(A.files, p):
                continue
            lines = open(os.path.join("/repo", p)).read().split("\n")
            end = next((i for i, l in enumerate(lines) if l.startswith("#[cfg(test)]")), len(lines))
            for i in range(end):
                l = lines[i]
                s = l.strip()
                if not s or s.startswith(("//", "use ", "#", "pub use", "mod ", "pub mod", "*", "pub struct", "pub enum")):
                    continue
                def add(new, what):
                    if new != l:
                        out.append((p, i, new, what))
                for a, b in [(" == ", " != "), (" != ", " == "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "),
                             (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), (" & ", " | "), (" | ", " & "),
                             ("<<", ">>"), (">>", "<<"), (" += ", " -= "), (" |= ", " &= "), ("true", "false"), ("false", "true"),
                             ("is_some", "is_none"), ("is_none", "is_some"), (".min(", ".max("), ("..=", ".."),
                             ("CERT_CAP", "CHAL_CAP"), ("CHAL_CAP", "CERT_CAP"), ("requester_cap", "responder_cap"),
                             ("responder_cap", "requester_cap")]:
                    for m in re.finditer(re.escape(a), l):
                        add(l[:m.start()] + b + l[m.end():], a.strip() + "->" + b.strip())
                for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d+)(?![\w.])", l):
                    t = m.group(1)
                    v = int(t.replace("_", ""), 0)
                    for w in {v + 1, max(v - 1, 0), v * 2} - {v}:
                        add(l[:m.start()] + str(w) + l[m.end():], "%s->%d" % (t, w))
                if re.match(r"^(if|while) .*\{$", s) and " let " not in s:
                    c = re.match(r"^(\s*)(if|while) (.*) \{$", l)
                    if c:
                        add("%s%s false && (%s) {" % c.groups(), "if false")
                        if c.group(2) == "if":
                            add("%s%s true || (%s) {" % c.groups(), "if true")
                if s.endswith(";") and not re.match(r"^(let|return|pub|const|type|\}|static|break|continue)", s) and "(" in s and s.count("(") == s.count(")"):
                    add("", "delete")
                if re.match(r"^[\w.]+ [-+|&]?= .*;$", s):
                    add("", "delete")
                m = re.match(r"^(\s*)(?!let|return)(\S.*)\?;$", l)
                if m and l.count("(") == l.count(")"):
                    add("%slet _ = %s;" % m.groups(), "ignore error")
                m = re.match(r"^(\s*)return Err\(.*\);$", l)
                if m:
                    add("", "delete return")
                if re.match(r"^\s*!\S", l) or " !" in l or "(!" in l:
                    for m in re.finditer(r"(?<=[ (])!(?=[\w(])", l):
                        add(l[:m.start()] + l[m.end():], "drop !")
    seen, u = set(), []
    for m in out:
        if m[:3] not in seen:
            seen.add(m[:3]); u.append(m)
    return u


def sh(a, t=600, **k):
    try:
        return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace", **k)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(a, 98, "", "")


class W:
    def __init__(self, k):
        self.d = "/tmp/mut/%s" % k
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d + "/repo")
        sh("git -C /repo archive HEAD | tar x -C %s/repo && cp -r /repo/Cargo.lock /repo/src %s/repo" % (self.d, self.d), shell=True)
        shutil.copytree(V + "/sim", self.d + "/sim", ignore=shutil.ignore_patterns("target"))
        c = open(self.d + "/sim/Cargo.toml").read().replace('path = "/repo"', 'path = "%s/repo"' % self.d)
        open(self.d + "/sim/Cargo.toml", "w").write(c)

    def tests(self):
        for args, cfg in ((["--features", "crypto-ring", "--target-dir", self.d + "/tc"], "spdm-config-crypto.toml"),
                          (["--lib", "--bins", "--tests", "--target-dir", self.d + "/tn"], None)):
            e = dict(ENV); e.pop("SPDM_CONFIG", None)
            if cfg: e["SPDM_CONFIG"] = cfg
            r = sh(["cargo", "test", "--workspace", "--offline"] + args, cwd=self.d + "/repo", env=e, t=240)
            if "could not compile" in r.stdout: return "nocompile"
            if r.returncode: return "tests"
        return None

    def sim(self):
        for c in CFGS:
            e = dict(ENV, SPDMSIM_CFG=c, SPDM_CONFIG=V + "/cfg/%s.toml" % c, CARGO_TARGET_DIR=self.d + "/t." + c)
            r = sh(["cargo", "build", "--offline", "--release"] + ["--features", "fields" if c == "nocrypto" else "crypto,fields"] +
                   (NOCHK if c == "wide" else []), cwd=self.d + "/sim", env=e)
            if r.returncode: return "simbuild " + c + r.stdout[-300:]
            hit = {}
            for p in PROPS:
                o = self.d + "/o"
                r = sh([self.d + "/t.%s/release/spdmsim" % c, "work", "--prop", p, "--seed", "7", "--n", str(A.n // 5 if c == "max" else A.n), "--secs", "20",
                        "--out", o, "--known", V + "/known_findings.txt"], t=120)
                if r.returncode: hit[p] = "crash %d" % r.returncode
                else:
                    v = [l.split("\t")[3] for l in open(o, errors="replace") if l.startswith("viol\t")]
                    if v: hit[p] = v[0][:160]
            if hit: return {c: hit}
        return "SURVIVED"


def main():
    ms = muts()
    if A.at:
        at = A.at.split(",")
        ms = [m for m in ms if any(m[0].endswith(a.split(":")[0]) and m[1] + 1 == int(a.split(":")[1]) for a in at)]
    print(len(ms), "mutants")
    ms = ms[A.offset::A.every]
    ws = queue.Queue()
    for k in range(A.jobs): ws.put(W(k))
    lk = threading.Lock()
    out = open(A.out, "a")
    def one(m):
        w = ws.get()
        try:
            p, i, new, what = m
            f = w.d + "/repo/" + p
            s = open(f).read(); l = s.split("\n"); old = l[i]; l[i] = new
            open(f, "w").write("\n".join(l))
            r = w.tests() or w.sim()
            open(f, "w").write(s)
            with lk:
                out.write(json.dumps(dict(file=p, line=i + 1, old=old.strip(), new=new.strip(), what=what, result=r)) + "\n"); out.flush()
        finally:
            ws.put(w)
    with cf.ThreadPoolExecutor(A.jobs) as ex: list(ex.map(one, ms))
if __name__ == "__main__":
    main()
