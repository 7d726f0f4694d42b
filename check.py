#!/usr/bin/env python3
"""Deterministic simulation checks for oxidecomputer/spdm.

    check.py C01 [--tier quick|thorough]   decide one property
    check.py setup                         build every configuration
    check.py replay FILE                   replay a violation file

Exit 0: held on everything explored.  1: VIOLATION printed.  2: no answer.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SPDM_REPO", "/repo")
TARGET = os.path.join(HERE, "target")
OUT = os.path.join(HERE, "out")
KNOWN = os.path.join(HERE, "known_findings.txt")
JOBS = os.cpu_count() or 8

ALL = ["std", "wide", "tight", "certonly", "vca", "nocrypto", "mini", "max"]
CONFIGS = {
    "C01": ["std", "wide", "tight", "mini", "max"],
    "C02": ["std", "wide", "tight", "mini", "max"],
    "C03": ["std", "wide", "tight", "mini", "max"],
    "C09": ["std", "wide", "tight", "certonly", "mini", "max"],
}
# how the batches are shared out
WEIGHT = {"std": 4, "wide": 3, "tight": 2, "certonly": 1, "vca": 1, "nocrypto": 1, "mini": 1, "max": 1}
BATCH = 1000
# runs with 64 KiB certificate buffers take longer
BATCHES = {"max": 200}
QUICK_SECS = 40
THOROUGH_SECS = 600

# A process that dies or hangs in a library call settles these.
FATAL = ("C04", "C07", "C13")

NO_CHECKS = ["--config", "profile.release.package.spdm.overflow-checks=false",
             "--config", "profile.release.package.spdm.debug-assertions=false"]
BUILD = {c: ["crypto"] for c in ALL}
BUILD["nocrypto"] = []
EXTRA = {"wide": NO_CHECKS}

REAL = ["spdm::requester (all states)", "spdm::responder (all states)", "spdm::msgs codecs",
        "spdm::transcript", "spdm::crypto (nonce, slot, pki, digest)", "ring (SHA-2, ECDSA P-256)",
        "webpki path validation", "getrandom crate", "build.rs configuration"]
STUB = ["network between the endpoints (discrete-event queue)", "operating system entropy source",
        "signing device (real ECDSA P-256 keys, injectable failures)", "host driver (timers, retries)",
        "certificate authority (independent DER writer)", "reference peers and impostors",
        "heap (real, counted while library code runs)", "clock (virtual milliseconds)"]


def env():
    e = dict(os.environ)
    e.setdefault("CARGO_NET_OFFLINE", "true")
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e.pop("RUSTFLAGS", None)
    return e


def tree_hash():
    """Content of everything the library is built from."""
    h = hashlib.sha256()
    for top in ["Cargo.toml", "Cargo.lock", "build.rs", "config.rs.template", "src", "test-utils"]:
        p = os.path.join(REPO, top)
        files = []
        if os.path.isfile(p):
            files = [p]
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x != "target")
            files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read() + b"\0")
    return h.hexdigest()


def build(cfg, stamp):
    d = os.path.join(TARGET, cfg)
    os.makedirs(d, exist_ok=True)
    e = env()
    e["SPDMSIM_CFG"] = cfg
    e["SPDM_CONFIG"] = os.path.join(HERE, "cfg", cfg + ".toml")
    e["CARGO_TARGET_DIR"] = d
    sim = os.path.join(HERE, "sim")
    with open(e["SPDM_CONFIG"], "rb") as f:
        stamp += hashlib.sha256(f.read()).hexdigest()
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sf = os.path.join(d, ".stamp")
        old = open(sf).read() if os.path.exists(sf) else ""
        if old != stamp:
            # do not rely on file times to notice a change
            subprocess.run(["cargo", "clean", "--offline", "--release", "-p", "spdm"], cwd=sim, env=e,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        # Should the public state structures have changed shape, do without
        # looking into them.
        for fields in (["fields"], []):
            f = ",".join(BUILD[cfg] + fields)
            r = subprocess.run(["cargo", "build", "--offline", "--release", "--locked", "--features", f] +
                               EXTRA.get(cfg, []), cwd=sim, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                with open(sf, "w") as f:
                    f.write(stamp)
                with open(os.path.join(d, ".fields"), "w") as f:
                    f.write("yes" if fields else "no")
                break
    return cfg, r.returncode, r.stdout


def build_all(cfgs):
    stamp = tree_hash()
    with cf.ThreadPoolExecutor(len(cfgs)) as ex:
        for cfg, rc, out in ex.map(lambda c: build(c, stamp), cfgs):
            if rc != 0:
                print("BUILD FAILED for configuration %s\n%s" % (cfg, out[-6000:]))
                sys.exit(2)


def exe(cfg):
    return os.path.join(TARGET, cfg, "release", "spdmsim")


def run(args, timeout):
    try:
        return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                              errors="replace")
    except subprocess.TimeoutExpired as x:
        return subprocess.CompletedProcess(args, 98, "", "timeout %s" % x)


def read_out(path):
    r = dict(runs=0, secs=0.0, log="", count={}, shape=set(), viol=[], known={}, other={})
    if not os.path.exists(path):
        return r
    for line in open(path, errors="replace"):
        f = line.rstrip("\n").split("\t")
        if f[0] == "runs":
            r["runs"] = int(f[1])
        elif f[0] == "secs":
            r["secs"] = float(f[1])
        elif f[0] == "log":
            r["log"] = f[1]
        elif f[0] == "count":
            r["count"][f[1]] = r["count"].get(f[1], 0) + int(f[2])
        elif f[0] == "shape":
            r["shape"].add(f[1])
        elif f[0] == "viol":
            r["viol"].append((int(f[1]), int(f[2]), f[3]))
        elif f[0] in ("known", "other"):
            r[f[0]][f[2]] = r[f[0]].get(f[2], 0) + int(f[1])
    return r


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.cfgs = CONFIGS.get(prop, ALL)
        self.dir = os.path.join(OUT, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.runs = {}
        self.secs = {}
        self.counts = {}
        self.shapes = set()
        self.known = {}
        self.other = {}
        self.viol = []       # (cfg, first index of batch, index, message, scenario file)
        self.crash = []      # (cfg, index, status)
        self.broken = []

    def batch(self, cfg, b):
        """One process simulating one batch of runs."""
        size = BATCHES.get(cfg, BATCH)
        lo, hi = b * size, (b + 1) * size
        got = []
        while lo < hi:
            out = os.path.join(self.dir, "w.%s.%d.%d" % (cfg, b, lo))
            r = run([exe(cfg), "work", "--prop", self.prop, "--seed", str(self.seed), "--from", str(lo),
                     "--n", str(hi - lo), "--out", out, "--known", KNOWN], 600)
            if r.returncode == 0:
                got.append(("ok", lo, read_out(out), out))
                self.clean(out)
                break
            try:
                at = int(open(out + ".progress").read().split()[0])
            except (OSError, IndexError, ValueError):
                at = lo
            self.clean(out)
            if r.returncode == 3 or r.returncode > 100:
                got.append(("broken", lo, r.stderr[-2000:], out))
                break
            # The process died inside the library (or never returned).
            got.append(("crash", at, r.returncode, out))
            if len(got) > 3:
                break
            # what was done before it
            if at > lo:
                r = run([exe(cfg), "work", "--prop", self.prop, "--seed", str(self.seed), "--from", str(lo),
                         "--n", str(at - lo), "--out", out, "--known", KNOWN], 600)
                if r.returncode == 0:
                    got.append(("ok", lo, read_out(out), out))
                self.clean(out)
            lo = at + 1
        return cfg, got

    def clean(self, out):
        for p in (out, out + ".progress"):
            if os.path.exists(p):
                os.remove(p)

    def take(self, cfg, got):
        for kind, lo, x, out in got:
            if kind == "broken":
                self.broken.append((cfg, lo, x))
            elif kind == "crash":
                self.crash.append((cfg, lo, x))
            else:
                self.runs[cfg] = self.runs.get(cfg, 0) + x["runs"]
                self.secs[cfg] = self.secs.get(cfg, 0) + x["secs"]
                for k, v in x["count"].items():
                    self.counts[k] = self.counts.get(k, 0) + v
                self.shapes |= {cfg + s for s in x["shape"]}
                for k, v in x["known"].items():
                    self.known[k] = self.known.get(k, 0) + v
                for k, v in x["other"].items():
                    self.other[k] = self.other.get(k, 0) + v
                for i, idx, msg in x["viol"]:
                    self.viol.append((cfg, lo, idx, msg, "%s.%d.scn" % (out, i)))

    def search(self, secs):
        order = []
        w = {c: 0 for c in self.cfgs}
        total = sum(WEIGHT[c] for c in self.cfgs)
        t0 = time.time()
        # smooth weighted round robin over the configurations
        cur = {c: 0 for c in self.cfgs}

        def nxt():
            for c in self.cfgs:
                cur[c] += WEIGHT[c]
            c = max(self.cfgs, key=lambda c: cur[c])
            cur[c] -= total
            b = w[c]
            w[c] += 1
            return c, b

        with cf.ThreadPoolExecutor(JOBS) as ex:
            todo = set()
            while True:
                stop = time.time() - t0 > secs or self.viol or self.broken or (self.crash and self.prop in FATAL)
                stop = stop or len(self.crash) > 8
                while not stop and len(todo) < JOBS:
                    todo.add(ex.submit(self.batch, *nxt()))
                if not todo:
                    break
                done, todo = cf.wait(todo, return_when=cf.FIRST_COMPLETED)
                for d in done:
                    self.take(*d.result())
        del order
        return time.time() - t0

    def probes(self):
        """Directed scenarios for the findings on record."""
        p = os.path.join(HERE, "probes")
        for f in sorted(os.listdir(p)):
            if not f.startswith(self.prop + "-"):
                continue
            cfg = f.split(".")[1]
            r = run([exe(cfg), "replay", "--prop", self.prop, "--file", os.path.join(p, f), "--known", KNOWN], 120)
            for line in r.stdout.splitlines():
                if line.startswith("known\t"):
                    m = line.split("\t", 1)[1]
                    self.known[m] = self.known.get(m, 0) + 1
            if r.returncode == 1:
                m = [x.split("\t")[2] for x in r.stdout.splitlines()
                     if x.startswith("violation\t") and self.prop in x.split("\t")[1]]
                g = os.path.join(self.dir, "probe-" + f)
                shutil.copy(os.path.join(p, f), g)
                self.viol.append((cfg, None, None, (m or ["?"])[-1], g))

    def report(self):
        """Minimise, confirm in a fresh process, print. Returns the number."""
        n = 0
        seen = set()
        for cfg, lo, idx, msg, scn in self.viol[:3]:
            out = os.path.join(self.dir, "violation-%s-%d.scn" % (cfg, n))
            r = run([exe(cfg), "replay", "--prop", self.prop, "--file", scn, "--known", KNOWN], 120)
            if r.returncode == 1:
                m = run([exe(cfg), "minimise", "--prop", self.prop, "--file", scn, "--out", out, "--known", KNOWN,
                         "--budget", "1500"], 180)
                if m.returncode != 0 or not os.path.exists(out):
                    shutil.copy(scn, out)
                    with open(out, "a") as f:
                        f.write("# configuration %s\n" % cfg)
                a = run([exe(cfg), "replay", "--prop", self.prop, "--file", out, "--known", KNOWN], 120)
                b = run([exe(cfg), "replay", "--prop", self.prop, "--file", out, "--known", KNOWN], 120)
                same = a.returncode == 1 and a.stdout == b.stdout
                if a.returncode == 1:
                    msg = [x.split("\t")[2] for x in a.stdout.splitlines()
                           if x.startswith("violation\t") and self.prop in x.split("\t")[1]][0]
                if msg in seen:
                    continue
                seen.add(msg)
                print("%s [%s run %s]: %s%s" % (self.prop, cfg, idx, msg[:600],
                                                "" if same else " (replay not identical)"))
            elif lo is not None:
                # State carried from one run to the next inside the library:
                # the whole batch is the schedule.
                with open(out, "w") as f:
                    f.write("# property %s\n# %s\n# configuration %s\n# batch seed=%d from=%d n=%d\n" %
                            (self.prop, msg, cfg, self.seed, lo, idx - lo + 1))
                a = run([exe(cfg), "work", "--prop", self.prop, "--seed", str(self.seed), "--from", str(lo),
                         "--n", str(idx - lo + 1), "--out", out + ".w", "--known", KNOWN], 600)
                x = read_out(out + ".w")
                self.clean(out + ".w")
                ok = a.returncode == 0 and any(v[1] == idx for v in x["viol"])
                print("%s [%s runs %d..%d in one process%s]: %s" % (self.prop, cfg, lo, idx, "" if ok else
                                                                    ", not reproduced", msg[:600]))
                if not ok:
                    self.broken.append((cfg, lo, "a violation that did not reproduce"))
                    continue
            print("VIOLATION property=%s replay=%s" % (self.prop, out))
            n += 1
        if self.prop in FATAL and n == 0:
            for cfg, idx, rc in self.crash[:2]:
                out = os.path.join(self.dir, "violation-%s-%d.scn" % (cfg, n))
                s = run([exe(cfg), "show", "--prop", self.prop, "--seed", str(self.seed), "--i", str(idx)], 60)
                with open(out, "w") as f:
                    f.write("# property %s\n# the process ended with status %d\n# configuration %s\n" %
                            (self.prop, rc, cfg))
                    f.write(s.stdout)
                r = run([exe(cfg), "replay", "--prop", self.prop, "--file", out, "--known", KNOWN], 120)
                if r.returncode in (0, 1):
                    self.broken.append((cfg, idx, "a crash that did not reproduce"))
                    continue
                print("%s [%s run %d]: %s" % (self.prop, cfg, idx, "a call does not return" if rc == 97 else
                                               "the process died with status %d" % rc))
                print("VIOLATION property=%s replay=%s" % (self.prop, out))
                n += 1
        return n

    def repeat(self):
        """Re-execute the first runs of every configuration in a new process:
        the event logs must be identical."""
        same = {}
        for c in self.cfgs:
            logs = []
            for k in range(2):
                out = os.path.join(self.dir, "rep.%s.%d" % (c, k))
                r = run([exe(c), "work", "--prop", self.prop, "--seed", str(self.seed), "--n", "60", "--out", out,
                         "--known", KNOWN], 120)
                logs.append(read_out(out)["log"] if r.returncode == 0 else "status %d" % r.returncode)
                self.clean(out)
            same[c] = logs[0] == logs[1] and not logs[0].startswith("status")
        return same

    def samples(self):
        v = []
        for c in self.cfgs[:2]:
            for i in range(2):
                s = run([exe(c), "show", "--prop", self.prop, "--seed", str(self.seed), "--i", str(i)], 60)
                f = os.path.join(self.dir, "s.scn")
                with open(f, "w") as fh:
                    fh.write(s.stdout)
                r = run([exe(c), "replay", "--prop", self.prop, "--file", f, "--known", KNOWN, "-v"], 60)
                keep = ("violation", "known", "count", "log", "shape")
                v.append(dict(configuration=c, run=i, scenario=s.stdout.splitlines(),
                              trace=[x[:200] for x in r.stdout.splitlines() if x.split("\t")[0] not in keep][:40]))
                os.remove(f)
        return v

    def main(self):
        t0 = time.time()
        build_all(self.cfgs)
        tb = time.time() - t0
        ts = self.search(THOROUGH_SECS if self.tier == "thorough" else QUICK_SECS)
        self.probes()
        n = self.report()
        findings = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                if line.startswith("finding: property=%s match=" % self.prop):
                    m = line.split(" match=", 1)[1].split(" :: ")
                    findings.append((m[0].strip(), m[1].strip() if len(m) > 1 else ""))
        for m, d in findings:
            hits = sum(v for k, v in self.known.items() if m in k)
            if hits:
                print("KNOWN-FINDING: property=%s %s %s (%d runs)" % (self.prop, m, d, hits))
        same = self.repeat()
        runs = sum(self.runs.values())
        cov = dict(
            evaluations=runs,
            distinct_nontrivial=len(self.shapes),
            rule="One evaluation is one simulated run: a scenario (world or call script, fault list) drawn from the "
                 "seed by profile, executed against the real library with every call judged by the reference model. "
                 "Two runs are the same if they have the same sequence of (endpoint, phase, message kind, outcome, "
                 "fault) events; distinct_nontrivial counts the distinct sequences, per configuration.",
            samples=self.samples(),
            runs_per_configuration=self.runs,
            seed=self.seed,
            runs_per_hour=int(runs / ts * 3600) if ts else 0,
            seeds_per_hour=int(runs / ts * 3600) if ts else 0,
            simulated_hours=round(self.counts.get("simulated ms", 0) / 3.6e6, 3),
            faults={k[6:]: v for k, v in sorted(self.counts.items()) if k.startswith("fault ")},
            profiles={k[8:]: v for k, v in sorted(self.counts.items()) if k.startswith("profile ")},
            events={k: v for k, v in sorted(self.counts.items())
                    if not k.startswith(("fault ", "profile ")) and k != "simulated ms"},
            real_components=REAL, stub_components=STUB,
            repeated_runs_identical=same,
            state_fields_inspected={c: open(os.path.join(TARGET, c, ".fields")).read() for c in self.cfgs},
            build_s=round(tb, 1), search_s=round(ts, 1),
            known_findings={m: sum(v for k, v in self.known.items() if m in k) for m, _ in findings},
            crashed_runs=[dict(configuration=c, run=i, status=s) for c, i, s in self.crash],
            violations_of_other_properties=dict(sorted(self.other.items())[:20]),
        )
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                  assumptions=["ECDSA P-256, SHA-2 and the ring implementation are not attacked",
                               "a run explores the seeded schedules and faults listed, not all of them"],
                  wall_s=round(time.time() - t0, 1), violations=n)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d runs, %d distinct, %.1f s build, %.1f s search, %d violations" %
              (self.prop, self.tier, runs, len(self.shapes), tb, ts, n))
        if n:
            return 1
        if self.broken:
            for b in self.broken[:3]:
                print("NO ANSWER: %s run %s: %s" % b)
            return 2
        for c, i, s in self.crash[:3]:
            print("note: %s run %d ended with status %d (see C07)" % (c, i, s))
        if not all(same.values()):
            print("note: repeated runs differ: %s" % same)
        return 0


def replay(path):
    head = [x[2:].strip() for x in open(path) if x.startswith("# ")]
    prop = next(x.split()[1] for x in head if x.startswith("property "))
    cfg = next(x.split()[1] for x in head if x.startswith("configuration "))
    build_all([cfg])
    b = [x for x in head if x.startswith("batch ")]
    if b:
        a = dict(x.split("=") for x in b[0].split()[1:])
        out = os.path.join(OUT, "replay.w")
        r = run([exe(cfg), "work", "--prop", prop, "--seed", a["seed"], "--from", a["from"], "--n", a["n"],
                 "--out", out, "--known", KNOWN], 900)
        v = read_out(out)["viol"]
        for x in v:
            print("violation\trun %d\t%s" % (x[1], x[2]))
        return 1 if v else r.returncode
    r = run([exe(cfg), "replay", "--prop", prop, "--file", path, "--known", KNOWN, "-v"], 300)
    sys.stdout.write(r.stdout)
    sys.stderr.write(r.stderr)
    return r.returncode


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        build_all(ALL)
        return 0
    if a[:1] == ["replay"]:
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return Check(a[0], "thorough" if tier == "thorough" else "quick").main()


if __name__ == "__main__":
    sys.exit(main())
