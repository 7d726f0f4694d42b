#!/usr/bin/env python3
"""mkseed.py NAME...: make /verif/seeded/NAME from tools/seeds/NAME.txt and confirm it
in a scratch worktree: builds, tests pass, demo passes without and fails with it.

NAME.txt: header lines 'key: value' (property, needs, breaks), then blocks
  <<< path
  old text
  ===
  new text
  >>>
and after a line '--- main.rs' the demonstration."""
import json, os, re, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/sw"
E = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
         CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUST_BACKTRACE="0")


def sh(a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests():
    bad, n = [], 0
    for args, cfg in ((["--features", "crypto-ring", "--target-dir", "/tmp/swt/crypto"], "spdm-config-crypto.toml"),
                      (["--lib", "--bins", "--tests", "--target-dir", "/tmp/swt/nocrypto"], None)):
        e = dict(E)
        e.pop("SPDM_CONFIG", None)
        if cfg:
            e["SPDM_CONFIG"] = cfg
        r = sh(["cargo", "test", "--workspace", "--offline", "--no-fail-fast"] + args, cwd=W, env=e)
        if "error: could not compile" in r.stdout or "error[E" in r.stdout:
            return ["does not compile:\n" + r.stdout[-3000:]], 0
        n += len(re.findall(r"^test .* ok$", r.stdout, re.M))
        bad += re.findall(r"^test (.*) \.\.\. FAILED$", r.stdout, re.M)
    return bad, n


def make(name):
    t = open(os.path.join(H, "tools/seeds", name + ".txt")).read()
    spec, demo = t.split("--- main.rs\n", 1)
    head = dict(re.findall(r"^(property|needs|breaks): (.*)$", spec, re.M))
    d = os.path.join(H, "seeded", name)
    os.makedirs(d, exist_ok=True)
    for f in ("demo.sh", "harness.rs", "Cargo.lock"):
        shutil.copy(os.path.join(H, "tools/demo", f), d)
    extra = re.findall(r"^demo: (.*)$", spec, re.M)
    if extra:
        s = open(os.path.join(d, "demo.sh")).read()
        open(os.path.join(d, "demo.sh"), "w").write(s.replace("export SPDM_CONFIG", extra[0] + "\nexport SPDM_CONFIG", 1))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "main.rs"), "w").write("mod harness;\nuse harness::*;\n" + demo)
    json.dump(dict(property=head["property"], needs=head["needs"], what_it_breaks=head["breaks"]),
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    if not os.path.exists(W):
        sh(["git", "-C", "/repo", "worktree", "add", "--detach", W, "HEAD"])
        shutil.copy("/repo/Cargo.lock", W)
    sh(["git", "-C", W, "checkout", "-q", "--detach", sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()])
    sh(["git", "-C", W, "checkout", "--", "."])
    de = dict(E, DEMO_TARGET="/tmp/demotarget")
    for f in ("src/lib.rs", "build.rs"):
        os.utime(os.path.join(W, f))
    r = sh(["bash", os.path.join(d, "demo.sh")], cwd=W, env=de)
    if r.returncode != 0:
        return "demo fails on the unchanged tree (%d):\n%s" % (r.returncode, r.stdout[-3000:])
    for f, old, new in re.findall(r"^<<< (\S+)\n(.*?)^===\n(.*?)^>>>$", spec, re.M | re.S):
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "%s: old text occurs %d times" % (f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh(["git", "-C", W, "diff"]).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    bad, n = tests()
    if bad:
        return "tests: %s" % bad
    if n < 93:
        return "only %d tests passed" % n
    r = sh(["bash", os.path.join(d, "demo.sh")], cwd=W, env=de)
    sh(["git", "-C", W, "checkout", "--", "."])
    if r.returncode in (0, 3):
        return "demo rc=%d with the change\n%s" % (r.returncode, r.stdout[-2000:])
    # do the removed lines belong to the original repository?
    own = []
    base = sh(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()[:8]
    for f, old, new in re.findall(r"^<<< (\S+)\n(.*?)^===\n(.*?)^>>>$", spec, re.M | re.S):
        b = sh(["git", "-C", "/repo", "show", base + ":" + f]).stdout
        own.append(all(l in b for l in old.splitlines() if l.strip() and l not in new.splitlines()))
    return "ok (%d tests; demo: %s)%s" % (n, r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else r.returncode,
                                          "" if all(own) else " [touches lines of a fix]")


for n in sys.argv[1:]:
    print(n, make(n), flush=True)
