#!/usr/bin/env python3
"""Driver of the checks: builds the library from /repo's working tree together with one monitor, runs its cases
in parallel shards, turns what the monitor reports into a verdict, and writes the evidence file.

  run.py P05                     run one check (VERIF_SEED, VERIF_TIER from the environment)
  run.py --replay FILE           run the single case recorded by a VIOLATION line
  run.py --setup                 check the tool chain

exit 0: held on everything explored; 1: violation; 2: the check itself failed (no verdict)
"""
import sys, os, json, subprocess, time, shutil, glob, re, mmap, struct, threading, signal, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS, CONFIGS          # noqa: E402

NPROC = int(os.environ.get("VERIF_JOBS", "8"))
STALL = 90          # seconds without any progress before a case is taken for hung
RETRY_STALL = 150   # the same for the confirming re-run


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


_pkg = {}


def pkg(what, name):
    k = (what, name)
    if k not in _pkg:
        r = sh(["pkg-config", what, name])
        if r.returncode:
            raise CheckError("pkg-config %s %s: %s" % (what, name, r.stdout))
        _pkg[k] = r.stdout.split()
    return _pkg[k]


GENERATED = {"mypaint-brush-settings-gen.h", "brushsettings-gen.h", "config.h"}
CONFIG_H = """#define ENABLE_NLS 1
#define GETTEXT_PACKAGE "libmypaint-2.0"
#define HAVE_GETTEXT 1
#define HAVE_STDINT_H 1
#define MYPAINT_CONFIG_USE_GLIB 1
#define PACKAGE_NAME "libmypaint"
#define PACKAGE_VERSION "2.0.0-beta"
"""


def copy_sources(dst):
    """A private copy of the library sources with freshly generated headers."""
    os.makedirs(dst)
    for f in os.listdir(REPO):
        p = os.path.join(REPO, f)
        if os.path.isfile(p) and f not in GENERATED and f.endswith((".c", ".h", ".json", ".py", ".inc", ".hpp", ".cpp", ".def")):
            shutil.copy2(p, os.path.join(dst, f))
    skip = {"tests", "doc", "examples", "po", "m4macros", "_build", "autom4te.cache", ".git", ".github"}
    for d in os.listdir(REPO):
        p = os.path.join(REPO, d)
        if os.path.isdir(p) and d not in skip and not d.startswith("."):
            shutil.copytree(p, os.path.join(dst, d), ignore=shutil.ignore_patterns("*.o", "*.lo", ".libs", "Makefile*"))
    with open(os.path.join(dst, "config.h"), "w") as f:
        f.write(CONFIG_H)
    r = sh([sys.executable if "python3" in sys.executable else "python3", "generate.py", "mypaint-brush-settings-gen.h", "brushsettings-gen.h"], cwd=dst)
    if r.returncode:
        raise CheckError("generate.py failed:\n" + r.stdout)


def build(prop, bdir, job):
    """-> path of the monitor's binary"""
    cfg = CONFIGS[job["cfg"]]
    src = os.path.join(bdir, "src")
    if not os.path.isdir(src):
        copy_sources(src)
    odir = os.path.join(bdir, "obj-" + job["cfg"])
    os.makedirs(odir, exist_ok=True)
    inc = ["-I" + src, "-I" + os.path.join(VERIF, "harness")]
    pk = pkg("--cflags", "json-c") + pkg("--cflags", "glib-2.0") + pkg("--cflags", "gobject-2.0")
    libs = pkg("--libs", "json-c") + pkg("--libs", "glib-2.0") + pkg("--libs", "gobject-2.0")
    if job.get("gegl"):
        pk += pkg("--cflags", "gegl-0.4")
        libs += pkg("--libs", "gegl-0.4")
        inc += ["-I" + os.path.join(src, "gegl")]
    inc += ["-D" + x for x in job.get("defs", [])]
    units = sorted(glob.glob(os.path.join(src, "*.c")))
    for d in ("gegl", "glib"):
        if job.get(d):
            units += sorted(glob.glob(os.path.join(src, d, "*.c")))
    jobs, objs = [], []
    for u in units:
        o = os.path.join(odir, os.path.basename(u) + "." + os.path.basename(os.path.dirname(u)) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append([cfg["cc"]] + cfg["cflags"] + ["-w"] + inc + pk + ["-c", u, "-o", o])
    hs = [job["src"]] + job.get("extra", []) + cfg.get("extra", [])
    for h in hs:
        o = os.path.join(odir, os.path.basename(h) + ".h.o")
        objs.append(o)
        if not os.path.exists(o):
            hp = os.path.join(VERIF, "harness", h)
            if h.endswith(".c"):
                fl = cfg.get("shimflags", cfg["cflags"])
                jobs.append([cfg["cc"]] + fl + ["-w"] + inc + pk + ["-c", hp, "-o", o])
            else:
                jobs.append([cfg["cxx"]] + cfg["cxxflags"] + ["-std=gnu++17", "-Wall", "-Wno-unused-function", "-Wno-misleading-indentation", "-Wno-array-bounds"] + inc + pk + ["-c", hp, "-o", o])
    with ThreadPoolExecutor(NPROC) as ex:
        for c, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode:
                raise CheckError("compilation failed: %s\n%s" % (" ".join(c), r.stdout[-4000:]))
    exe = os.path.join(bdir, "%s-%s" % (os.path.splitext(job["src"])[0], job["cfg"]))
    cmd = [cfg["cxx"]] + cfg.get("ldflags", []) + job.get("ldflags", []) + objs + ["-o", exe] + libs + ["-lm", "-lpthread"]
    r = sh(cmd)
    if r.returncode:
        raise CheckError("link failed:\n" + r.stdout[-4000:])
    return exe


# ---------------------------------------------------------------- running

def read_progress(path):
    try:
        with open(path, "rb") as f:
            d = f.read()
        cur, beats = struct.unpack("qQ", d[:16])
        return cur, beats, d[16:].split(b"\0")[0].decode("latin1")
    except (OSError, struct.error):
        return -1, 0, ""


FRAME = re.compile(r"#\d+ (?:0x[0-9a-f]+ in )?(\S+) (\S+)")


def crash_key(text, rc):
    """A stable name for the way a run ended: kind + innermost library function."""
    # the library echoes hostile input into its warnings: a 100 kB "word" would
    # make the patterns below quadratic, and could also forge a report
    text = "\n".join(l[:1500] for l in text.splitlines() if not l.startswith(("Warning: ", "libmypaint: ")) or len(l) < 1500)
    def frame(t):
        for m in FRAME.finditer(t):
            if "/src/" in m.group(2) and "/sanitizer" not in m.group(2) and "libsanitizer" not in m.group(2):
                return m.group(1)
        m = FRAME.search(t)
        return m.group(1) if m else "?"
    m = re.search(r"Assertion `(.*?)' failed", text)
    if m:
        f = re.search(r": (\w+): Assertion", text)
        fn = f.group(1) if f else re.search(r":\d+: .*?(\w+)\(.*\): Assertion", text)
        fn = fn if isinstance(fn, str) else (fn.group(1) if fn else "?")
        return "abort:%s:%s" % (fn, re.sub(r"\s+", "", m.group(1)))
    m = re.search(r"([\w.\-/]+):\d+:\d+: runtime error: (.*)", text)
    if m:
        kind = re.sub(r"-?[0-9.]+(e[+-]?\d+)?", "N", m.group(2))
        kind = re.sub(r"0x[0-9a-fN]+", "P", kind)[:60]
        return "ub:%s:%s" % (os.path.basename(m.group(1)), kind.strip())
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", text)
    if m:
        return "asan:%s:%s" % (m.group(1).rstrip(":"), frame(text))
    m = re.search(r"WARNING: ThreadSanitizer: ([\w \-]+)", text)
    if m:
        return "tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), frame(text))
    if "LeakSanitizer: detected memory leaks" in text:
        return "leak:%s" % frame(text.split("Direct leak", 1)[-1])
    if rc < 0:
        return "signal:%d" % -rc
    return "exit:%d" % rc


BASE_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=0:print_legend=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:report_thread_leaks=1:history_size=4",
    "LSAN_OPTIONS": "exitcode=99:print_suppressions=0",
    "MALLOC_ARENA_MAX": "4",
    "LC_ALL": "C", "G_SLICE": "always-malloc", "GEGL_USE_OPENCL": "no", "GEGL_THREADS": "1",
}


class Runner:
    def __init__(self, prop, tier, seed, bdir):
        self.prop, self.tier, self.seed, self.bdir = prop, tier, seed, bdir
        self.viol, self.samples, self.sigs, self.counters = [], [], set(), {}
        self.evals = 0
        self.inconclusive = []
        self.lock = threading.Lock()
        self.ended_ranges = 0
        self.hung = False

    def exec_range(self, job, exe, a, b, tag, stall):
        """one process over cases [a,b); -> (status, case, text) status in ok|crash|hang|error"""
        d = os.path.join(self.bdir, "run")
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, tag + ".jsonl")
        prog = os.path.join(d, tag + ".prog")
        err = os.path.join(d, tag + ".err")
        for p in (out, prog, err):
            if os.path.exists(p):
                os.remove(p)
        env = dict(os.environ)
        env.update(BASE_ENV)
        env["VP_SRC"] = os.path.join(self.bdir, "src")
        env.update(job.get("env", {}))
        cmd = [exe, "--seed", str(self.seed), "--from", str(a), "--to", str(b), "--out", out, "--progress", prog, "--tier", self.tier]
        if job.get("mode"):
            cmd += ["--mode", job["mode"]]
        cmd = job.get("wrap", []) + cmd
        with open(err, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=d, start_new_session=True)
        last, t_last = None, time.time()
        hung = False
        while True:
            try:
                p.wait(0.05 if last is None else 0.4)
                break
            except subprocess.TimeoutExpired:
                pass
            cur = read_progress(prog)[:2]
            if cur != last:
                last, t_last = cur, time.time()
            try:
                big = os.path.getsize(err) > 200 << 20
            except OSError:
                big = False
            if time.time() - t_last > stall or big:
                hung = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
        cur, _, desc = read_progress(prog)
        with open(err, "rb") as f:
            text = f.read(400000).decode("latin1")
            f.seek(0, 2)
            if f.tell() > 400000:
                f.seek(-200000, 2)
                text += "\n...\n" + f.read().decode("latin1")
        got_stat = False
        errmsg = None
        if os.path.exists(out):
            with open(out, errors="replace") as f:
                for line in f:
                    try:
                        o = json.loads(line)
                    except ValueError:
                        continue
                    with self.lock:
                        if o["t"] == "viol":
                            o["job"] = job["name"]
                            self.viol.append(o)
                        elif o["t"] == "sample":
                            if len(self.samples) < 6:
                                self.samples.append({"job": job["name"], "case": o["case"], "what": o["text"]})
                        elif o["t"] == "stat":
                            got_stat = True
                            self.evals += o["evals"]
                            self.sigs.update((job.get("sigspace", "") + h) for h in o["sigs"])
                            for k, v in o["counters"].items():
                                self.counters[k] = self.counters.get(k, 0) + v
                        elif o["t"] == "error":
                            errmsg = o["msg"]
        for p_ in (out, prog):
            if os.path.exists(p_):
                os.remove(p_)
        if errmsg:
            return "error", cur, errmsg, desc
        if hung:
            return "hang", cur, text, desc
        if p.returncode == 0:
            if not got_stat:
                return "error", cur, "no result from the monitor\n" + text[-2000:], desc
            return "ok", cur, text, desc
        if p.returncode == 3:
            return "error", cur, text[-2000:], desc
        if p.returncode == -signal.SIGKILL:
            return "killed", cur, text, desc
        return "crash", cur, "rc=%d\n" % p.returncode + text, desc

    def shard(self, job, exe, a, b, tag):
        """runs [a,b), stepping over cases that end the process"""
        crashes = 0
        killed = 0
        while a < b and not self.hung:
            st, cur, text, desc = self.exec_range(job, exe, a, b, tag, STALL)
            if st == "ok":
                self.extra_reports(job, text, a)
                return
            if st == "error":
                raise CheckError("monitor error in %s case %s: %s" % (job["name"], cur, text))
            if st == "killed":
                killed += 1
                if killed > 2:
                    raise CheckError("monitor killed from outside (memory?) in %s case %s" % (job["name"], cur))
                a = max(a, cur)
                continue
            if st == "hang":
                if self.hung:      # confirmed elsewhere: no need to wait for more of them
                    return
                if cur < 0:
                    raise CheckError("monitor hung outside any case: " + text[-1000:])
                st2, cur2, text2, desc2 = self.exec_range(job, exe, cur, cur + 1, tag + "-retry", RETRY_STALL)
                if st2 == "hang":
                    self.hung = True
                    with self.lock:
                        self.viol.append({"case": cur, "key": "hang", "msg": "no progress for %d s, twice" % RETRY_STALL, "desc": desc2 or desc, "job": job["name"]})
                elif st2 == "crash":
                    self.add_crash(job, cur, text2, desc2)
                elif st2 != "ok":
                    raise CheckError("monitor error on re-run of %s case %d: %s" % (job["name"], cur, text2))
                # an unconfirmed stall is inconclusive and forgotten
                a = cur + 1
                crashes += 1
            else:   # crash
                rc = int(text.split("\n", 1)[0][3:])
                if cur == -2:      # after the last case: exit-time reports (leaks, races)
                    self.add_crash(job, a, text, "at exit of cases %d..%d" % (a, b), span=(a, b))
                    return
                if cur < 0:
                    raise CheckError("monitor died before its first case: " + text[-2000:])
                self.add_crash(job, cur, text, desc)
                a = cur + 1
                crashes += 1
            if crashes >= 4:
                return

    def extra_reports(self, job, text, a):
        pass

    def add_crash(self, job, cur, text, desc, span=None):
        rc = int(text.split("\n", 1)[0][3:])
        # several TSan reports may share one log
        keys = []
        if "ThreadSanitizer" in text:
            for blk in re.split(r"={18,}", text):
                if "WARNING: ThreadSanitizer" in blk:
                    k = crash_key(blk, rc)
                    if k not in [x[0] for x in keys]:
                        keys.append((k, blk))
        if not keys:
            keys = [(crash_key(text, rc), text)]
        with self.lock:
            for k, t in keys[:6]:
                v = {"case": cur, "key": k, "msg": t.strip()[:1500], "desc": desc, "job": job["name"]}
                if span:
                    v["span"] = list(span)
                self.viol.append(v)

    def run_job(self, job, exe):
        n = job["cases"][self.tier]
        if job.get("serial"):
            shards = 1
        else:
            shards = min(n, NPROC * job.get("chunks", 1))
        bounds = [n * i // shards for i in range(shards + 1)]
        with ThreadPoolExecutor(1 if job.get("serial") else job.get("par", NPROC)) as ex:
            fs = [ex.submit(self.shard, job, exe, bounds[i], bounds[i + 1], "%s-%d" % (job["name"], i)) for i in range(shards)]
            for f in fs:
                f.result()


def load_findings():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known.append({"property": m.group(1), "key": m.group(2), "what": m.group(3)})
    return known


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        need = ["gcc", "g++", "pkg-config", "python3"]
        for t in need:
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        for p in ("json-c", "glib-2.0", "gobject-2.0", "gegl-0.4"):
            pkg("--cflags", p)
        shutil.rmtree(os.path.join(VERIF, "build"), ignore_errors=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        print("setup ok")
        return 0
    if a and a[0] == "--replay":
        r = json.load(open(a[1]))
        os.environ["VERIF_TIER"] = r["tier"]
        return replay(r)
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[prop]
    t0 = time.time()
    bdir = os.path.join(VERIF, "build", prop)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    R = Runner(prop, tier, seed, bdir)
    done = {}
    try:
        jobs = [dict(j, name=j.get("name", j["src"].split(".")[0] + "-" + j["cfg"])) for j in chk["jobs"] if j["cases"].get(tier, 0) > 0]
        for j in jobs:
            exe = build(prop, bdir, j)
            e0 = R.evals
            R.run_job(j, exe)
            done[j["name"]] = {"config": j["cfg"], "cases": j["cases"][tier], "evaluations": R.evals - e0}
        if chk.get("post"):
            chk["post"](R)
        minsig = chk.get("min_distinct", 2)
        distinct = len(R.sigs)
        bad_keys = {v["key"] for v in R.viol}
        if not R.viol and distinct < minsig:
            raise CheckError("observed too little: %d distinct non-trivial cases, need %d" % (distinct, minsig))
        for c in chk.get("require", []):
            if not R.viol and R.counters.get(c, 0) == 0:
                raise CheckError("observed nothing of '%s'" % c)
    except CheckError as e:
        if not R.viol:
            print("CHECK-ERROR property=%s %s" % (prop, e))
            return 2
        print("note: check ended early: %s" % str(e)[:500])
        distinct = len(R.sigs)
    known = [k for k in load_findings() if k["property"] == prop]
    kn_keys = {k["key"]: k for k in known}
    new, seen_known = [], {}
    for v in R.viol:
        if v["key"].replace(" ", "_") in kn_keys:
            seen_known[v["key"].replace(" ", "_")] = v
        else:
            new.append(v)
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    groups = {}
    for v in new:
        groups.setdefault(v["key"], []).append(v)
    for k, vs in list(groups.items())[:10]:
        v = vs[0]
        path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha1(k.encode()).hexdigest()[:10]))
        json.dump({"property": prop, "tier": tier, "seed": seed, "job": v["job"], "case": v["case"], "span": v.get("span"), "key": k, "msg": v["msg"], "desc": v.get("desc", ""), "occurrences": len(vs)}, open(path, "w"), indent=1)
        print("  [%s] case %s of %s (%d occurrence(s)): %s" % (k, v["case"], v["job"], len(vs), v["msg"].replace("\n", "\n      ")[:1500]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    for k, v in kn_keys.items():
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, v["what"]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": chk.get("level", "exploration"),
        "coverage": {
            "evaluations": R.evals, "distinct_nontrivial": distinct, "rule": chk["rule"],
            "samples": R.samples or [{"what": "none recorded"}],
            "observed": R.counters, "jobs": done,
        },
        "assumptions": chk.get("assumptions", []) + ["verdict covers the executions produced by this run only"],
        "wall_s": round(time.time() - t0, 2), "violations": len(groups),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(bdir, ignore_errors=True)
    for l in lines:
        print(l)
    print("%s %s: %d evaluations, %d distinct, %.1f s, observed %s" % (prop, "VIOLATED" if lines else "held", R.evals, distinct, time.time() - t0, json.dumps(R.counters)))
    return 1 if lines else 0


def replay(r):
    prop = r["property"]
    chk = CHECKS[prop]
    bdir = os.path.join(VERIF, "build", prop + "-replay")
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    R = Runner(prop, r["tier"], r["seed"], bdir)
    job = [dict(j, name=j.get("name", j["src"].split(".")[0] + "-" + j["cfg"])) for j in chk["jobs"]]
    job = [j for j in job if j["name"] == r["job"]][0]
    exe = build(prop, bdir, job)
    a, b = r["span"] if r.get("span") else (r["case"], r["case"] + 1)
    st = R.exec_range(job, exe, a, b, "replay", RETRY_STALL)
    print("case %s: %s" % (r["case"], st[0]))
    print(st[3][:8000])
    if st[0] != "ok":
        print(st[2][:8000])
        return 1 if st[0] in ("crash", "hang") else 2
    for v in R.viol:
        print("[%s] %s\n%s" % (v["key"], v["msg"], v.get("desc", "")))
    shutil.rmtree(bdir, ignore_errors=True)
    return 1 if R.viol else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR", e)
        sys.exit(2)
