"""X02: install.sh under a file-system monitor, programs built from the installed headers, debug printing.

install.sh runs from a private copy of the repository, as an unprivileged user if possible, with stand-ins for the
commands that change files: they log their arguments and refuse every target outside of the scratch directory.  A model
(directory -> expected files) is compared with a snapshot of everything in the scratch directory after every step."""
import glob, hashlib, os, random, re, shutil, stat, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
NOBODY = 65534
CHANGERS = "install cp mv rm ln mkdir rmdir unlink touch chmod chown dd tee rsync sed".split()

def demote():
    if os.geteuid() == 0:
        try:
            os.setgroups([]); os.setgid(NOBODY); os.setuid(NOBODY)
        except OSError:
            pass

class Box:
    def __init__(self, run, repo):
        self.run = run
        self.root = os.path.join(run.scratch, "box")
        os.makedirs(self.root)
        os.chmod(run.scratch, 0o755)
        self.src = os.path.join(self.root, "src tree")
        shutil.copytree(repo, self.src, ignore=shutil.ignore_patterns(".git", "build*"), symlinks=True)
        self.bin = os.path.join(run.scratch, "bin")
        self.tmp = os.path.join(run.scratch, "tmp")
        self.log = os.path.join(run.scratch, "log")
        for d in (self.bin, self.tmp):
            os.makedirs(d)
        open(self.log, "w").close()
        for c in CHANGERS:
            real = shutil.which(c)
            if not real:
                continue
            self.script(c, 'for a in "$@"; do case "$a" in\n  "%s"/*|"%s"/*) ;;\n  /dev/null) ;;\n  /*|*=/*) case "$a" in *="%s"/*) ;; *) echo "ESCAPE %s $*" >> "%s"; exit 97;; esac;;\nesac; done\necho "%s $*" >> "%s"\nexec %s "$@"\n'
                        % (self.root, self.tmp, self.root, c, self.log, c, self.log, real))
        self.script("g++", 'echo "g++ $*" >> "%s"\ncase " $* " in\n  *" -E "*) cat > /dev/null; printf \'# 0 "<stdin>"\\n# 1 "%s/vector" 1 3\\n\'; exit 0;;\n  *" --version "*) echo g++ stand-in; exit 0;;\nesac\n'
                    'if test -n "$VH_CXX_FAIL"; then cat > /dev/null; exit 1; fi\nif test -n "$VH_CXX_REAL"; then exec %s "$@"; fi\ncat > /dev/null; exit 0\n' % (self.log, self.path("default/c++"), shutil.which("g++")))
        if os.geteuid() == 0:
            for d, ds, fs in os.walk(run.scratch):
                for x in [d] + [os.path.join(d, f) for f in fs]:
                    os.lchown(x, NOBODY, NOBODY)

    def script(self, name, body):
        p = os.path.join(self.bin, name)
        with open(p, "w") as f:
            f.write("#!/bin/sh\n" + body)
        os.chmod(p, 0o755)

    def path(self, p):
        return os.path.join(self.root, p)

    def mkdir(self, p, mode=0o755):
        os.makedirs(self.path(p), exist_ok=True)
        q = self.path(p)
        while q != self.root:
            os.chmod(q, 0o755)
            if os.geteuid() == 0:
                os.chown(q, NOBODY, NOBODY)
            q = os.path.dirname(q)
        os.chmod(self.path(p), mode)

    def put(self, p, text):
        self.mkdir(os.path.dirname(p))
        with open(self.path(p), "w") as f:
            f.write(text)
        if os.geteuid() == 0:
            os.chown(self.path(p), NOBODY, NOBODY)

    def snapshot(self):
        r = {}
        for d, ds, fs in os.walk(self.root):
            for x in ds:
                r[os.path.relpath(os.path.join(d, x), self.root)] = "dir"
            for x in fs:
                p = os.path.join(d, x)
                st = os.lstat(p)
                r[os.path.relpath(p, self.root)] = os.readlink(p) if stat.S_ISLNK(st.st_mode) else hashlib.sha256(open(p, "rb").read()).hexdigest()
        return r

    def call(self, args, cwd, script, env=None):
        e = dict(PATH=self.bin + ":/usr/bin:/bin", HOME=self.path("home"), TMPDIR=self.tmp, LC_ALL="C")
        e.update(env or {})
        p = subprocess.run([script] + args, cwd=self.path(cwd), env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=300, preexec_fn=demote)
        return p.returncode, p.stdout

def needed(src):
    """Headers of the library that some target's <experimental/simd> reaches, by preprocessing the source tree."""
    r = set()
    for flags in ([], ["-march=skylake-avx512"], ["-undef", "-U__SSE__", "-U__SSE2__", "-D__x86_64__=0"]):
        p = subprocess.run(["g++", "-std=c++17", "-I", src, "-MM", "-MG", "-x", "c++", "-"] + flags, input="#include <experimental/simd>\n", text=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        r |= {os.path.relpath(x.replace("\\ ", " "), src) for x in re.findall(r"(?:\\ |\S)+", p.stdout.replace("\\\n", " ")) if x.replace("\\ ", " ").startswith(src)}
    # other targets' headers: every #include "..." reachable textually
    todo = ["experimental/simd"] + sorted(r)
    seen = set()
    while todo:
        f = todo.pop()
        if f in seen or not os.path.exists(os.path.join(src, f)):
            continue
        seen.add(f)
        for inc in re.findall(r'^\s*#\s*include\s*["<]([^">]+)[">]', open(os.path.join(src, f), errors="replace").read(), re.M):
            for c in (os.path.normpath(os.path.join(os.path.dirname(f), inc)), inc):
                if c.startswith("experimental/"):
                    todo.append(c)
    return seen | {x for x in r if x.startswith("experimental/")}

def main(run, composite):
    import time
    import run as R_  # the driver module
    repo = R_.REPO
    t0 = time.time()
    st = {"evaluations": 0, "distinct": 0, "combos": 0, "kernels": 0, "installs": 0, "uninstalls": 0, "rejected_calls": 0, "file_operations_seen": 0}
    run.stats["host"] = st
    seen_states = set()
    def fail(key, what):
        run.add_fail(key, "host", what)
    def fact(ok, key, what):
        st["evaluations"] += 1
        if not ok:
            fail(key, what)
        return ok
    b = Box(run, repo)
    src = b.src
    hdr = {f: hashlib.sha256(open(os.path.join(src, f), "rb").read()).hexdigest() for f in
           ["experimental/simd", "experimental/bits/numeric_traits.h"] + [os.path.relpath(x, src) for x in glob.glob(glob.escape(src) + "/experimental/bits/simd*.h")] if os.path.exists(os.path.join(src, f))}
    need = needed(src)
    fact(need <= set(hdr), "needs-uninstalled", "headers the library includes that the installer's list does not cover: %s" % sorted(need - set(hdr)))
    rng = random.Random(run.seed)
    dirs = ["inc", "inc with space", "deep/a/b", "default/c++", "-dash", "other"]
    for d in dirs:
        b.mkdir(d)
    b.mkdir("home"); b.mkdir("elsewhere"); b.mkdir("readonly", 0o555)
    # files of others, with names close to those of the library
    alien = {"inc/experimental/other": "alien", "inc/experimental/bits/foo.h": "alien", "inc/experimental/bits/simd_notes.txt": "alien", "inc/vector": "alien", "inc/experimental/simd.bak": "alien",
             "inc with space/simd": "alien", "other/experimental/bits/numeric_traits.hpp": "alien", "elsewhere/experimental/simd": "alien", "default/c++/experimental/memory": "alien", "default/experimental/simd": "alien"}
    for p, t in alien.items():
        b.put(p, t)
    # an older version to be replaced
    b.put("other/experimental/simd", "old"); b.put("other/experimental/bits/simd_math.h", "old"); b.put("other/experimental/bits/simd_gone.h", "old")
    state = b.snapshot()
    # the calls
    script_abs = os.path.join(src, "install.sh")
    def step(kind, d, opt, cwd, script, env=None, real=False):
        """One call of install.sh; returns False at the first deviation."""
        nonlocal state
        where = b.path(d) if d else None
        args = []
        if where is not None and opt != "default":
            val = os.path.relpath(where, b.path(cwd)) if opt.startswith("rel") else where
            args += ["--includedir", val] if opt.endswith("2") else ["--includedir=" + val]
        if kind == "uninstall":
            args += ["--uninstall"]
        if rng.random() < .3:
            args = args[::-1] if len(args) > 1 and "--includedir" not in args else args
        if opt.endswith("gxx"):
            args += ["--gxx=" + os.path.join(b.bin, "g++")]
        if kind == "badopt":
            args += ["--frobnicate"]
        if kind == "help":
            args = ["--help"]
        if script == "rel":
            script = os.path.relpath(script_abs, b.path(cwd))
            if "/" not in script:
                script = "./" + script
        e = dict(env or {})
        if kind == "cxxfail":
            e["VH_CXX_FAIL"] = "1"
        if real:
            e["VH_CXX_REAL"] = "1"
        rc, out = b.call(args, cwd, script, e)
        exp = dict(state)
        ok_call = kind == "help" or kind in ("install", "uninstall") and d not in ("readonly", "missing")
        if ok_call and kind == "install":
            for x in ("experimental", "experimental/bits"):
                exp[os.path.join(d, x)] = "dir"
            for f, h in hdr.items():
                exp[os.path.join(d, f)] = h
        if ok_call and kind == "uninstall":
            for f in hdr:
                exp.pop(os.path.join(d, f), None)
        new = b.snapshot()
        what = "install.sh %s (cwd %s, called as %s)" % (" ".join(args), cwd, script)
        key = "%s|%s|%s" % (kind, d, opt)
        good = fact((rc == 0) == ok_call, "status|" + key, "%s: exit status %d; output: %s" % (what, rc, out[-300:].replace("\n", " / ")))
        diff = sorted(k for k in set(new) | set(exp) if new.get(k) != exp.get(k))
        # the directories may go with their last file
        if kind == "uninstall":
            diff = [k for k in diff if not (exp.get(k) == "dir" and k not in new and not any(o.startswith(k + "/") and exp[o] != "dir" for o in exp))]
        good &= fact(not diff, "files|" + key, "%s: %d files differ from the expected state: %s" % (what, len(diff), ", ".join("%s (%s)" % (k, "missing" if k not in new else "unexpected" if k not in exp else "content") for k in diff[:8])))
        lines = open(b.log).read().splitlines()
        esc = [l for l in lines if l.startswith("ESCAPE")]
        good &= fact(not esc, "escape|" + key, "%s: changes files outside the destination: %s" % (what, esc[:3]))
        st["file_operations_seen"] += len([l for l in lines if not l.startswith("g++")])
        open(b.log, "w").close()
        st["installs" if kind == "install" else "uninstalls" if kind == "uninstall" else "rejected_calls"] += 1
        if ok_call and kind == "install":
            for f in hdr:
                p = b.path(os.path.join(d, f))
                good &= fact(os.path.exists(p) and os.stat(p).st_mode & 0o444 == 0o444, "mode|" + key, "%s: %s is not readable for everybody" % (what, f))
        h = hashlib.sha256(repr(sorted(new.items())).encode()).hexdigest()
        if h not in seen_states:
            seen_states.add(h)
            st["distinct"] += 1
        st["kernels"] += 1
        if len(run.samples) < 6:
            run.samples.append("%s: exit status %d, %d files and directories" % (what, rc, len(new)))
        state = new
        return good
    ok = step("install", "inc", "abs", "src tree", script_abs, real=True)
    plan = [("install", "inc", "abs"), ("uninstall", "inc", "abs"), ("uninstall", "inc", "abs2"), ("install", "inc with space", "abs2"), ("install", "deep/a/b", "absgxx"), ("uninstall", "inc with space", "abs"),
            ("install", "default/c++", "default"), ("uninstall", "default/c++", "default"), ("install", "other", "abs"), ("uninstall", "other", "abs"), ("install", "readonly", "abs"), ("install", "missing", "abs"),
            ("badopt", "inc", "abs"), ("cxxfail", "inc", "abs"), ("help", "inc", "abs"), ("uninstall", "missing", "abs"), ("install", "inc", "rel"), ("uninstall", "inc", "rel2"), ("install", "-dash", "abs")]
    dead = set()
    def doit(k, d, o, cwd, script):
        if (k, d, o) not in dead and not step(k, d, o, cwd, script):
            dead.add((k, d, o)) # reported once
    for k, d, o in plan:
        doit(k, d, o, rng.choice(["src tree", "elsewhere", "home"]), rng.choice([script_abs, "rel"]))
    for i in range(60 if run.tier == "quick" else 600):
        k = rng.choice(["install"] * 5 + ["uninstall"] * 5 + ["badopt", "cxxfail", "help"])
        d = rng.choice(dirs + ["missing", "readonly"] * (rng.random() < .3))
        doit(k, d, "default" if d == "default/c++" else rng.choice(["abs", "abs2", "rel", "rel2", "absgxx"]), rng.choice(["src tree", "elsewhere", "home", "inc"]), rng.choice([script_abs, "rel"]))
        if rng.random() < .1: # somebody edits an installed file
            files = [x for x in state if x.startswith(d + "/") and state[x] not in ("dir",) and x.split(d + "/", 1)[1] in hdr]
            if files:
                b.put(rng.choice(files), "edited %d" % i)
                state = b.snapshot()
    # --- programs built from the installed directory alone
    b.mkdir("final")
    state = b.snapshot()
    step("install", "final", "abs", "src tree", script_abs)
    inst = b.path("final")
    st["combos"] = len(plan)
    flagsets = ["-march=x86-64 -O1", "-march=haswell -O1"] if run.tier == "quick" else ["-march=x86-64 -O1", "-march=nehalem -O2", "-march=sandybridge -O2", "-march=haswell -O2", "-march=skylake-avx512 -O2"]
    def build(inc, flags, out, srcf):
        cmd = ["g++", "-std=gnu++17", "-I", inc, "-w", "-MMD", "-MF", out + ".d"] + flags.split() + [os.path.join(HERE, srcf), "-o", out]
        return subprocess.run(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    import concurrent.futures as cf
    def prog(fl):
        outs = []
        for tag, inc in (("inst", inst), ("src", src)):
            o = os.path.join(run.scratch, "prog-%s-%s" % (tag, re.sub(r"\W", "", fl)))
            p = build(inc, fl, o, "x02_prog.cpp")
            if p.returncode:
                outs.append((None, p.stderr[:600], set()))
                continue
            deps = set(x.replace("\\ ", " ") for x in re.findall(r"(?:\\ |\S)+", open(o + ".d").read().replace("\\\n", " ")))
            q = subprocess.run([o], text=True, stdout=subprocess.PIPE, timeout=300)
            outs.append((q.returncode, q.stdout, deps))
        return fl, outs
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(prog, flagsets))
        dbg = list(ex.map(lambda fl: (fl, build(inst, fl, os.path.join(run.scratch, "dbg" + re.sub(r"\W", "", fl)), "x02_debug.cpp")), flagsets[:2] if run.tier == "quick" else flagsets))
    st["programs"] = len(res) * 2 + len(dbg)
    for fl, outs in res:
        if outs[1][0] is None:
            continue # the source tree itself does not compile: other checks
        (rc, o, deps), (rc2, o2, _) = outs
        if not fact(rc is not None, "compile|" + fl, "a program does not compile with the installed headers: %s" % o):
            continue
        fact(rc == rc2 == 0 and o == o2, "program|" + fl, "output with the installed headers differs from the source tree's (status %s, %s)" % (rc, rc2))
        st["evaluations"] += o.count("\n")
        own = {os.path.realpath(x) for x in deps if re.search(r"experimental/(bits/)?(simd|numeric_traits)", x)}
        out = [x for x in own if not x.startswith(os.path.realpath(inst) + "/")]
        fact(not out, "foreign|" + fl, "headers taken from elsewhere: %s" % out)
    for fl, p in dbg:
        if not fact(p.returncode == 0, "debug-compile|" + fl, "the debug header does not compile: %s" % (p.stderr or "")[:500]):
            continue
        q = subprocess.run([os.path.join(run.scratch, "dbg" + re.sub(r"\W", "", fl))], text=True, errors="replace", stdout=subprocess.PIPE, timeout=120)
        n = re.search(r"^DONE (\d+)$", q.stdout, re.M)
        for l in re.findall(r"^FAIL (\S+) (.*)$", q.stdout, re.M):
            fact(False, "debug|%s|%s" % (l[0], fl), l[1])
        fact(n is not None and q.returncode == 0, "debug-run|" + fl, "program ended with status %s after: %s" % (q.returncode, q.stdout[-200:]))
        st["evaluations"] += int(n.group(1)) if n else 0
    run.wall, run.jobs, run.skipped = time.time() - t0, ["host"], []
    run.units = st["programs"]
    for d, ds, fs in os.walk(run.scratch):
        os.chmod(d, 0o755)
    if not run.keep:
        shutil.rmtree(run.scratch, ignore_errors=True)
