#!/usr/bin/env python3
"""Check driver: compiles kernels from /repo's current tree for every feature
set, runs them under the oracles, matches known findings, writes evidence.

usage: run.py <property> [--tier quick|thorough] [--config a,b] [--only KEY] [--keep]
exit 0 held / 1 violated / 2 error of the check (nothing concluded)
"""
import argparse, concurrent.futures as cf, fnmatch, hashlib, json, os, re, shutil, signal
import subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(HERE, "harness")
REPO = os.environ.get("VH_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CONFIGS, CHECKS, PARTS, TYPES  # noqa: E402

JOBS = int(os.environ.get("VH_JOBS", "8"))
HOST_FLAGS = ["-std=gnu++17", "-O2", "-ffp-contract=off", "-fno-fast-math", "-w"]

class CheckError(Exception):
    pass

def host_cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":", 1)[1].split())
    except OSError:
        pass
    return set()

def sh(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o, e
    return p.returncode, o, e

class Run:
    def __init__(self, prop, tier, configs=None, only=None, keep=False, scratch=None):
        self.prop, self.tier, self.only = prop, tier, only
        self.spec = CHECKS[prop]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        if scratch:
            os.makedirs(scratch)
        self.scratch = scratch or tempfile.mkdtemp(prefix="vh-%s-" % prop, dir=os.environ.get("VH_TMP", "/tmp"))
        self.pool, self.ran = None, set()
        self.keep = keep
        self.fails, self.samples, self.stats = [], [], {}
        self.errors = []
        self.layout = {}
        self.lock = threading.RLock()
        self.want = configs
        self.t_compile = 0.0
        self.units = 0

    # -- one compile ------------------------------------------------------
    def compile(self, cc, flags, src, obj, extra=()):
        cmd = cc + flags + list(extra) + ["-c", src, "-o", obj]
        t = time.time()
        for attempt in (1, 2):
            rc, o, e = sh(cmd, 800)
            if rc == 0:
                break
            # killed by the memory guard or crashed: try once more
            if rc is None:
                raise CheckError("compiler timed out: " + " ".join(cmd))
            if re.search(r"\berror:", e) and "internal compiler error" not in e and "Killed" not in e:
                return e
        with self.lock:
            self.t_compile += time.time() - t
            self.units += 1
        if rc != 0:
            raise CheckError("compiler failed (%s): %s\n%s" % (rc, " ".join(cmd), e[:2000]))
        return None

    def go(self, quiet=False):
        spec = self.spec
        t0 = time.time()
        cpu = host_cpu_flags()
        jobs = []
        skipped = []
        for name in spec["configs"](self.tier):
            if self.want and name not in self.want:
                continue
            c = CONFIGS[name]
            need = set(c.get("needs", "").split())
            if cpu and not need <= cpu:
                skipped.append(name)
                continue
            jobs.append(name)
        shared = self.pool is not None
        pool = self.pool if shared else cf.ThreadPoolExecutor(JOBS)
        try:
            host = {}
            for hf in sorted({CONFIGS[n].get("host", "") for n in jobs}):
                for s in ["vh_main.cpp"] + spec["oracle"]:
                    obj = os.path.join(self.scratch, s.replace(".cpp", hf.replace(" ", "") + ".o"))
                    host.setdefault(hf, []).append((s, obj, pool.submit(
                        self.compile, ["g++"], HOST_FLAGS + spec.get("host_flags", []) + hf.split(), os.path.join(H, s), obj)))
            futs = [pool.submit(self.pch, n) for n in jobs]
            units = {}
            for n, f in zip(jobs, futs):
                inc = f.result()
                units[n] = []
                for u in spec["units"](self.tier, n):
                    if inc is False:
                        break
                    units[n].append((u, pool.submit(self.unit, n, u, inc)))
            hobjs = {}
            for hf, l in host.items():
                for s, obj, f in l:
                    err = f.result()
                    if err:
                        raise CheckError("oracle %s does not compile:\n%s" % (s, err[:3000]))
                    hobjs.setdefault(hf, []).append(obj)
            runs = []
            for n in jobs:
                objs = []
                for u, f in units[n]:
                    r = f.result()
                    if r:
                        objs.append(r)
                if objs:
                    self.ran.add(n)
                    runs.append((n, pool.submit(self.link_run, n, hobjs[CONFIGS[n].get("host", "")], objs)))
            for n, f in runs:
                f.result()
            for key, vals in self.layout.items():
                if len(vals) > 1:
                    self.add_fail("layout|" + key, "+".join(v[0] for v in vals.values()), "sizes/alignments differ between feature sets: %r" % vals)
        finally:
            if not shared:
                pool.shutdown(wait=True, cancel_futures=True)
            if not self.keep:
                shutil.rmtree(self.scratch, ignore_errors=True)
            elif not quiet:
                print("kept", self.scratch)
        self.wall = time.time() - t0
        self.skipped = skipped
        self.jobs = jobs

    def cc(self, name):
        c = CONFIGS[name]
        shim = ["-I" + os.path.join(H, "shim", d) for d in c.get("shim", "").split()]
        return [c.get("cxx", "g++")], (["-std=" + c.get("std", "gnu++17"), "-w"] + shim + ["-I" + REPO, "-I" + H,
                                        "-DVH_CFG=%d" % (list(CONFIGS).index(name) + self.seed)]
                                       + c["flags"].split() + self.spec.get("flags", []))

    def pch(self, name):
        """Precompiled header per feature set; False if the library itself does not compile."""
        cc, flags = self.cc(name)
        hdr = self.spec.get("pch", "vh_kernel.h")
        if hdr is None:
            return None
        d = os.path.join(self.scratch, "pch-" + name)
        os.makedirs(d)
        with open(os.path.join(d, "pch.h"), "w") as f:
            if "pre" in CONFIGS[name]:
                f.write('#include "%s"\n' % os.path.join(H, "shim", CONFIGS[name]["pre"]))
            f.write('#include "%s"\n' % hdr)
        if len(list(self.spec["units"](self.tier, name))) < 2: # not worth it
            return os.path.join(d, "pch.h")
        out = os.path.join(d, "pch.h." + ("pch" if "clang" in cc[0] else "gch"))
        err = self.compile(cc, flags, os.path.join(d, "pch.h"), out, ["-x", "c++-header"])
        if err:
            self.add_fail("compile|header|%s" % name, name, first_error(err))
            return False
        return os.path.join(d, "pch.h")

    def unit(self, name, u, inc):
        cc, flags = self.cc(name)
        src, defs, tag = u
        obj = os.path.join(self.scratch, "%s-%s-%s.o" % (name, src.replace(".cpp", ""), tag))
        extra = list(defs)
        if inc:
            extra += ["-include-pch", inc + ".pch"] if os.path.exists(inc + ".pch") else ["-include", inc]
        err = self.compile(cc, flags, os.path.join(H, src), obj, extra)
        if err:
            self.add_fail("compile|%s|%s|%s" % (src, tag, name), name, first_error(err))
            return None
        return obj

    def link_run(self, name, hobjs, objs):
        cc, flags = self.cc(name)
        exe = os.path.join(self.scratch, "run-" + name)
        lf = [f for f in flags if f.startswith("-fsanitize") or f.startswith("-pthread")]
        rc, o, e = sh(cc + lf + hobjs + objs + ["-o", exe] + self.spec.get("libs", []), 300)
        if rc != 0:
            raise CheckError("link failed for %s: %s" % (name, e[:2000]))
        if not self.keep:
            for f in objs:
                os.unlink(f)
        env = dict(os.environ, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, VH_SCRATCH=self.scratch)
        env.update(self.spec.get("env", {}))
        if self.only:
            env["VH_ONLY"] = self.only
        for attempt in (1, 2):
            rc, o, e = sh([exe, name], self.spec.get("timeout", 700), env=env)
            if rc is not None:
                break
        if rc is None:
            raise CheckError("run of %s did not finish twice (inconclusive)" % name)
        done = fails = 0
        with self.lock:
            for line in o.splitlines():
                if line.startswith("FAIL "):
                    key, _, det = line[5:].partition(" ## ")
                    self.fails.append((key, name, det))
                    fails += 1
                elif line.startswith("SAMPLE "):
                    self.samples.append(line[7:])
                elif line.startswith("STAT "):
                    s = self.stats.setdefault(name, {})
                    for kv in line[5:].split():
                        k, v = kv.split("=")
                        s[k] = s.get(k, 0) + int(v)
                elif line.startswith("LAYOUT "):
                    # facts that have to be equal in all feature sets
                    key, _, val = line[7:].partition(" ")
                    self.layout.setdefault(key, {}).setdefault(val, []).append(name)
                elif line.startswith("DONE"):
                    done += 1
            san = self.spec.get("sanitizer_log")
            if san:
                fails += san(self, name, rc, o, e)
            if not done and not fails:
                raise CheckError("run of %s ended without a result (rc=%s): %s %s" % (name, rc, o[-500:], e[-1500:]))
            if done and not self.only and self.stats.get(name, {}).get("evaluations", 0) <= 0:
                raise CheckError("run of %s observed nothing" % name)

    def add_fail(self, key, cfg, det):
        with self.lock:
            self.fails.append((key, cfg, det))

def composite(run, parts, **extra):
    """Runs the machinery of other checks (source, oracle) under this property: parts = [(check, feature sets, units)]."""
    t0 = time.time()
    only = run.only
    kids = []
    pool = cf.ThreadPoolExecutor(JOBS)
    try:
        for sub, names, units in parts:
            if only and only.startswith("@") and only[1:] != sub:
                continue
            k = Run(run.prop, run.tier, run.want, None if only and only.startswith("@") else only, True, os.path.join(run.scratch, sub))
            k.spec = dict(PARTS.get(sub) or CHECKS[sub], configs=lambda tier, names=names: names, units=units, **extra)
            k.pool = pool
            kids.append((sub, k, names))
        # the parts wait for their own jobs in threads of their own; all jobs share one pool
        with cf.ThreadPoolExecutor(len(kids) or 1) as ex:
            futs = [(sub, k, ex.submit(k.go, True)) for sub, k, names in kids]
            for sub, k, f in futs:
                f.result()
                if not run.keep:
                    shutil.rmtree(k.scratch, ignore_errors=True)
    finally:
        pool.shutdown(wait=True, cancel_futures=True)
        jobs, skipped = set(), set()
        for sub, k, names in kids:
            run.fails += [(sub + "|" + key, c, d) for key, c, d in k.fails]
            run.samples += k.samples[:1]
            for n, s in k.stats.items():
                t = run.stats.setdefault(n, {})
                for x, v in s.items():
                    t[x] = t.get(x, 0) + v
            run.t_compile += k.t_compile
            run.units += k.units
            jobs |= set(getattr(k, "jobs", []))
            skipped |= set(getattr(k, "skipped", []))
        run.wall, run.jobs, run.skipped = time.time() - t0, sorted(jobs), sorted(skipped)
        if not run.keep:
            shutil.rmtree(run.scratch, ignore_errors=True)
    for sub, k, names in kids:
        for n in k.jobs:
            if not k.only and not any(c == n for key, c, d in k.fails) and k.stats.get(n, {}).get("evaluations", 0) <= 0 and n in k.ran:
                raise CheckError("%s: run of %s observed nothing" % (sub, n))

def first_error(err):
    ls = [l for l in err.splitlines() if "error:" in l]
    return " / ".join(ls[:3])[:900]

def known(prop):
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--config")
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    spec = CHECKS[a.prop]
    t0 = time.time()
    r = Run(a.prop, a.tier, a.config.split(",") if a.config else None, a.only, a.keep)
    try:
        if "main" in spec:
            spec["main"](r, composite)
        else:
            r.go()
    except CheckError as x:
        print("ERROR: %s" % x)
        # what was seen before the error still counts if it is a violation
        if not r.fails:
            return 2
        r.wall = time.time() - t0
        r.jobs, r.skipped = sorted(r.stats), []
    finds = known(a.prop)
    hit, viol = {}, {}
    for key, cfg, det in r.fails:
        for pat, what in finds:
            if fnmatch.fnmatchcase(key, pat):
                hit.setdefault((pat, what), []).append(key)
                break
        else:
            viol.setdefault(key, det)
    for (pat, what), keys in hit.items():
        print("KNOWN-FINDING: property=%s %s (%d occurrences, key %s)" % (a.prop, what, len(keys), pat))
    ev = {"evaluations": 0, "distinct": 0, "combos": 0, "kernels": 0}
    extra = {}
    for n, s in r.stats.items():
        for k, v in s.items():
            if k in ev:
                ev[k] += v
            elif k != "failures":
                extra[k] = extra.get(k, 0) + v
    cov = {"evaluations": ev["evaluations"], "distinct_nontrivial": ev["distinct"], "rule": spec["rule"],
           "samples": (r.samples or ["none"])[:12],
           "operation_type_abi_config_combinations": ev["combos"],
           "feature_sets": {n: r.stats.get(n, {}) for n in r.jobs}, "skipped_feature_sets": r.skipped,
           "translation_units_compiled": r.units, "known_findings_seen": len(hit)}
    cov.update(extra)
    out = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": r.seed,
           "level": "exploration", "coverage": cov,
           "assumptions": spec.get("assumptions", ["GCC 13 and the host CPU execute the instructions they claim to",
               "the scalar oracle side (built for baseline x86-64 without std-simd) is right"]),
           "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    if not a.only and not a.config:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
            json.dump(out, f, indent=1)
    print("%s %s: %d evaluations, %d combinations, %d configs, %d TUs, %.0f compile-s, wall %.1fs" % (
        a.prop, a.tier, ev["evaluations"], ev["combos"], len(r.jobs), r.units, r.t_compile, time.time() - t0))
    if viol:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        path = os.path.join(HERE, "replay", "%s.json" % a.prop)
        with open(path, "w") as f:
            json.dump({"property": a.prop, "seed": r.seed, "tier": a.tier,
                       "violations": [{"key": k, "witness": d} for k, d in viol.items()],
                       "rerun": "VERIF_SEED=%d python3 run.py %s --only '<op|type|abi part of key>' --config <config part of key>" % (r.seed, a.prop)},
                      f, indent=1)
        shown = [x for i, x in enumerate(y for y in viol.items() if y[0].startswith("compile|")) if i < 3]
        shown += [x for x in viol.items() if not x[0].startswith("compile|")]
        for k, d in shown[:int(os.environ.get("VH_SHOW", "12"))]:
            print("  %s: %s" % (k, d[:int(os.environ.get("VH_WIDTH", "400"))]))
        print("  %d violated keys" % len(viol))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
