#!/usr/bin/env python3
"""Runs the static check of one property against /repo's current working tree.

usage: run.py <property id> | setup
exit 0: every obligation of the rule is discharged
exit 1: VIOLATION property=<id> replay=<file>
exit 2: the check itself could not run (tree does not build, analysis budget exceeded)
"""
import hashlib
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

CONFIGS = {
    "default": [],
    "tls": ["--features", "tls"],
    "async_std": ["--no-default-features", "--features", "async_std"],
}


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    r = sh(["rustc", "+nightly", "--print", "sysroot"])
    if r.returncode:
        raise CheckError("nightly toolchain not available: " + r.stdout)
    return r.stdout.strip()


def driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(CACHE, "vdriver-" + h)
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        r = sh(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp])
        if r.returncode:
            raise CheckError("driver does not build:\n" + r.stdout)
        os.replace(tmp, out)
    return out


def gather(cfg):
    """Compile /repo's library with the fact-extracting driver and return the path of the facts."""
    drv = driver()
    out = os.path.join(CACHE, "facts-%s.json" % cfg)
    target = os.path.join(CACHE, "target")
    if os.path.exists(out):
        os.remove(out)
    # cargo would skip the driver for a crate it believes to be fresh (both target layouts)
    shutil.rmtree(os.path.join(target, "debug", "build", "clickhouse-rs"), ignore_errors=True)
    fp = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if re.match(r"clickhouse-rs-[0-9a-f]+$", d):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    env["VFACTS_OUT"] = out
    env["CARGO_INCREMENTAL"] = "0"
    env["CARGO_TARGET_DIR"] = target
    env["RUSTC_WORKSPACE_WRAPPER"] = drv
    env.pop("RUSTFLAGS", None)
    r = sh(["cargo", "+nightly", "check", "--offline", "--lib"] + CONFIGS[cfg], cwd=REPO, env=env)
    if r.returncode or not os.path.exists(out):
        raise CheckError("cannot compile /repo (%s):\n%s" % (cfg, r.stdout[-4000:]))
    return out


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.viol = {}
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.counts = {}
        self.assumptions = []
        self.rule = ""
        self._facts = {}
        self.floors = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def facts(self, cfg="default"):
        if cfg not in self._facts:
            from mir import Facts
            self._facts[cfg] = Facts(gather(cfg))
            f = self._facts[cfg]
            self.count("bodies[%s]" % cfg, len(f.bodies))
            if f.missing:
                raise CheckError("no MIR for %s" % f.missing[:5])
            if len(f.bodies) < 900:
                raise CheckError("only %d bodies analysed" % len(f.bodies))
        return self._facts[cfg]

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def oblige(self, what, good, key=None, where=""):
        """One instance of the rule."""
        self.obligations += 1
        if good:
            self.discharged += 1
            if len(self.samples) < 40:
                self.samples.append({"obligation": what, "where": where})
        else:
            self.violation(key or "not held: " + what, key or "not held: " + what, where)
        return good

    def violation(self, key, msg, where=""):
        key = re.sub(r"\s+", " ", key)
        if key not in self.viol:
            self.viol[key] = (msg, where)

    def floor(self, what, n, least):
        """Fail closed when a rule matches fewer instances than confirmed by hand."""
        self.count(what, n)
        if n < least:
            self.violation("floor:" + what, "only %d instance(s) of %s found, at least %d expected" % (n, what, least))


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(.*?) -- (.*)$", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main():
    t0 = time.time()
    arg = sys.argv[1]
    if arg == "setup":
        driver()
        for cfg in CONFIGS:
            gather(cfg)
        print("setup done in %.1f s" % (time.time() - t0))
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(arg, tier)
    mod = importlib.import_module("rules." + arg.lower())
    from transport import Anchor
    try:
        mod.check(ctx)
    except Anchor as x:
        ctx.violation("anchor:" + str(x), "the construct this rule is about cannot be found: %s" % x)
    known = known_findings(arg)
    left = {}
    for k, (m, w) in ctx.viol.items():
        if k in known:
            print("KNOWN-FINDING: property=%s %s [%s]" % (arg, known[k], k))
        else:
            left[k] = (m, w)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(ctx.counts)
    cov.update({
        "explanation": mod.RULE,
        "obligations": ctx.obligations,
        "discharged": ctx.discharged,
        "checker_cmd": "python3 analysis/run.py %s" % arg,
        "trusted_base": ["rustc nightly MIR (driver/main.rs)", "analysis/engine.py, analysis/models.py library summaries"],
        "samples": ctx.samples[:12],
    })
    ev = {"property": arg, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + ctx.assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(left)}
    with open(os.path.join(VERIF, "evidence", arg + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write("\n")
    if left:
        rp = os.path.join(VERIF, "evidence", arg + ".violations.txt")
        with open(rp, "w") as fh:
            fh.write("rule: %s\n\n" % mod.RULE)
            for k, (m, w) in left.items():
                fh.write("%s\n  where: %s\n  key: %s\n" % (m, w, k))
                print("  %s: %s  [%s]" % (arg, m, w))
        print("VIOLATION property=%s replay=%s" % (arg, rp))
        return 1
    print("%s: %d/%d obligations discharged, %s, %.1f s" % (arg, ctx.discharged, ctx.obligations, ctx.counts, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as x:
        print("CHECK-ERROR: %s" % x)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
