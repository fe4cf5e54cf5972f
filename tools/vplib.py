"""Framework shared by the checks: building harnesses from /repo's current tree, running them in shards with
crash/hang attribution, known-findings matching, replay files and evidence. Standard library only."""
import glob, hashlib, json, mmap, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
NCPU = min(8, os.cpu_count() or 1)

GXX = "/usr/bin/g++"
CLANGXX = "/usr/bin/clang++" if os.path.exists("/usr/bin/clang++") else (shutil.which("clang++") or "clang++")
BASE_LIBS = ["-lboost_timer", "-ltbb", "-lpthread"]


class CheckError(Exception):
    """The check itself could not run (exit 2): neither held nor violated."""


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ configuration header
CONFIGS = {
    "default": ["PARMCB_HAVE_BOOST", "PARMCB_HAVE_TBB", "PARMCB_HAVE_MPI", "PARMCB_INVARIANTS_CHECK"],
    "notbb": ["PARMCB_HAVE_BOOST", "PARMCB_HAVE_MPI", "PARMCB_INVARIANTS_CHECK"],
    "nompi": ["PARMCB_HAVE_BOOST", "PARMCB_HAVE_TBB", "PARMCB_INVARIANTS_CHECK"],
    "plain": ["PARMCB_HAVE_BOOST", "PARMCB_INVARIANTS_CHECK"],
    "bare": ["PARMCB_HAVE_BOOST"],
    "noinv": ["PARMCB_HAVE_BOOST", "PARMCB_HAVE_TBB", "PARMCB_HAVE_MPI"],
    "logging": ["PARMCB_HAVE_BOOST", "PARMCB_HAVE_TBB", "PARMCB_HAVE_MPI", "PARMCB_INVARIANTS_CHECK", "PARMCB_LOGGING"],
}


def config_dir(name, root=None):
    """Generate parmcb/config.hpp from the repository's config.hpp.in, as CMake's configure_file would."""
    on = set(CONFIGS[name])
    src = os.path.join(REPO, "include/parmcb/config.hpp.in")
    out = []
    for line in open(src):
        m = re.match(r"\s*#\s*cmakedefine(01)?\s+(\w+)(.*)", line)
        if m:
            if m.group(1):
                out.append("#define %s %d\n" % (m.group(2), m.group(2) in on))
            elif m.group(2) in on:
                out.append("#define %s%s\n" % (m.group(2), m.group(3).rstrip("\n")))
            else:
                out.append("/* #undef %s */\n" % m.group(2))
        else:
            out.append(line)
    d = os.path.join(root or BUILD, "cfg-" + name)
    os.makedirs(os.path.join(d, "parmcb"), exist_ok=True)
    p = os.path.join(d, "parmcb/config.hpp")
    text = "".join(out)
    if not os.path.exists(p) or open(p).read() != text:
        tmp = p + ".%d.%d" % (os.getpid(), threading.get_ident())
        open(tmp, "w").write(text)
        os.replace(tmp, p)
    return d


MPI_ENV = {"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
           "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none", "OMPI_MCA_orte_abort_print_stack": "0"}


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            h.update(d.encode())
            h.update(open(d, "rb").read())
            continue
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(p.encode())
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()


_mpi_flags = None


def mpi_flags():
    global _mpi_flags
    if _mpi_flags is None:
        def q(k):
            r = subprocess.run(["mpicxx", "--showme:" + k], capture_output=True, text=True)
            return r.stdout.split() if r.returncode == 0 else []
        _mpi_flags = (q("compile"), ["-lboost_mpi", "-lboost_serialization"] + q("link"))
    return _mpi_flags


def compile_cmd(srcs, out, flags=(), libs=(), config="default", std="c++14", cxx=GXX, ndebug=True, mpi=False, incs=()):
    cmd = [cxx, "-std=" + std]
    if ndebug:
        cmd.append("-DNDEBUG")
    cmd += ["-I" + os.path.join(REPO, "include"), "-I" + config_dir(config), "-I" + HARNESS]
    for i in incs:
        cmd.append("-I" + i)
    cmd += ["-w"] + list(flags) + list(srcs) + ["-o", out]
    if mpi:
        c, l = mpi_flags()
        cmd[1:1] = c
        cmd += l
    return cmd + list(libs)


_build_lock = threading.Lock()


def build(name, srcs, flags=(), libs=BASE_LIBS, optional=False, timeout=600, **kw):
    """Compile a harness; cached by content. Returns the program's path, or None when optional and it does not compile."""
    os.makedirs(BUILD, exist_ok=True)
    srcs = [s if os.path.isabs(s) else os.path.join(HARNESS, s) for s in srcs]
    key = hashlib.sha256(json.dumps([name, srcs, list(flags), list(libs), sorted((k, str(v)) for k, v in kw.items()), REPO]).encode())
    key.update(tree_hash(HARNESS, os.path.join(REPO, "include"), os.path.join(REPO, "src")).encode())
    out = os.path.join(BUILD, "%s-%s" % (name, key.hexdigest()[:16]))
    if os.path.exists(out):
        return out
    for f in os.listdir(BUILD):  # drop stale builds of the same program
        if re.fullmatch(re.escape(name) + r"-[0-9a-f]{16}", f):
            try:
                if time.time() - os.path.getmtime(os.path.join(BUILD, f)) > 3 * 3600:
                    os.unlink(os.path.join(BUILD, f))
            except OSError:
                pass
    tmp = out + ".tmp%d" % os.getpid()
    cmd = compile_cmd(srcs, tmp, flags, libs, **kw)
    t = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        if optional:
            return None
        raise CheckError("compiling %s timed out" % name)
    if r.returncode != 0:
        err = "\n".join(l for l in r.stderr.splitlines() if "error" in l or "undefined" in l)[:3000] or r.stderr[-3000:]
        if optional:
            log("note: optional build %s failed: %s" % (name, err[:600]))
            return None
        raise CheckError("cannot build %s from the current tree:\n%s" % (name, err))
    os.replace(tmp, out)
    log("built %s in %.1fs" % (name, time.time() - t))
    return out


def build_many(specs):
    """specs: list of (args, kwargs) for build(); compiled concurrently."""
    with ThreadPoolExecutor(max_workers=NCPU) as ex:
        fs = [ex.submit(build, *a, **k) for a, k in specs]
        return [f.result() for f in fs]


# ------------------------------------------------------------------ running
def read_status(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return None
    if len(b) < 3992:
        return None
    magic, cas, beat, done = struct.unpack_from("<QQQQ", b, 0)
    if magic != 0x56504D43:
        return None
    stage = b[32:192].split(b"\0")[0].decode("latin1")
    note = b[192:192 + 3800].split(b"\0")[0].decode("latin1")
    return dict(case=cas, beat=beat, done=done, stage=stage, note=note)


def san_summary(err):
    """Reduce sanitizer/abort output to a stable (kind, where) pair."""
    m = re.search(r"SUMMARY: (\w+)Sanitizer: (\S+)(.*)", err)
    if m:
        tool, kind, rest = m.group(1), m.group(2), m.group(3)
        if kind.isdigit():
            kind = "leak"
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?|\S+):\d+", err)
        where = ""
        for fn, f in fr:
            if "/parmcb/" in f:
                where = os.path.basename(f)
                break
        if tool == "UndefinedBehavior":
            m2 = re.search(r"([^\s:]+):\d+:\d+: runtime error: ([^\n]*)", err)
            if m2:
                kind = re.sub(r"[-\d.xa-f]{2,}", "N", m2.group(2))[:80]
                where = where or os.path.basename(m2.group(1))
        return "%sSan:%s%s" % (tool, kind, ":" + where if where else "")
    m = re.search(r"==\d+== (Conditional jump or move depends on uninitialised|Use of uninitialised value|Invalid read|Invalid write|Syscall param \S+|Invalid free|Mismatched free|Jump to the invalid|Source and destination overlap)", err)
    if m:
        fr = re.search(r"\((\w+\.hpp):\d+\)", err[m.end():])
        return "memcheck:" + m.group(1).replace(" ", "-") + (":" + fr.group(1) if fr else "")
    m = re.search(r"==\d+== .*?(definitely lost|indirectly lost) in loss record", err)
    if m:
        return "memcheck:leak"
    m = re.search(r"Error: (attempt to [^\n]*|[^\n]*elements in iterator range[^\n]*|[^\n]*comparison[^\n]*)", err)
    if m:
        return "libstdc++-debug:" + m.group(1)[:80]
    m = re.search(r"Assertion [`'](.*?)' failed", err) or re.search(r"Assertion '(.*?)' failed", err)
    if m:
        return "assertion:" + m.group(1)[:80]
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        return "UBSan:" + m.group(1)[:80]
    m = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
    if m:
        return "uncaught:" + m.group(1)
    return None


def kill_session(sid):
    """End every process of a session we created (MPI ranks have process groups of their own)."""
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                f = open("/proc/%s/stat" % d).read().rsplit(")", 1)[1].split()
                if int(f[3]) == sid:
                    os.kill(int(d), signal.SIGKILL)
            except (OSError, IndexError, ValueError):
                pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.violations = []  # dict(key,msg,detail,replay-info)
        self.counters = {}
        self.evaluations = 0
        self.hashes = set()
        self.samples = []
        self.inconclusive = []
        self.assumptions = []
        self.extra = {}
        self.rule = ""
        self.nrun = 0
        self.hang = False   # a hang has been confirmed: every further run would only wait for the watchdog again
        self.stalls = {}    # (program, stage) -> cases in which the watchdog fired but which did not stall when run again
        self.timeup = False
        self.lock = threading.Lock()
        base = os.path.join(BUILD, "run")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + "-", dir=base)

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def count(self, k, n=1):
        with self.lock:
            self.counters[k] = self.counters.get(k, 0) + n

    def count_eval(self, n=1):
        with self.lock:
            self.evaluations += n

    def distinct(self, s):
        with self.lock:
            self.hashes.add(hashlib.md5(s.encode() if isinstance(s, str) else s).digest()[:8])

    def sample(self, s, limit=6):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(s if len(s) < 1500 else s[:1500] + "...")

    def fail(self, key, msg, detail="", replay=None):
        with self.lock:
            self.violations.append(dict(key=key, msg=msg, detail=detail, replay=replay or {}))

    def stopping(self):
        """True when the run has to come to an end: the verdict is there and what is left takes long, or (quick tier) time is up."""
        t = time.time() - self.t0
        if self.hang or (self.violations and t > (240 if self.quick else 7200)):
            return True
        if self.quick and t > 700:
            with self.lock:
                if not self.timeup:
                    self.inconclusive.append("stopped after %d s, not everything planned was run" % t)
                self.timeup = True
            return True
        return False

    # ---- sharded harness runs
    def run_sharded(self, program, ncases, label=None, shards=NCPU, args=(), env=None, stall=120, maxrestart=4, start=0,
                    prefix=(), as_limit=None, prop=None):
        label = label or os.path.basename(program).rsplit("-", 1)[0]
        prop = prop or self.prop
        if self.stopping():
            return
        shards = max(1, min(shards, ncases))
        self.nrun += 1
        with ThreadPoolExecutor(max_workers=shards) as ex:
            fs = [ex.submit(self._shard, program, label, prop, s, shards, start, ncases, list(args), env, stall, maxrestart, list(prefix), as_limit)
                  for s in range(shards)]
            for f in fs:
                f.result()

    def _argv(self, program, prop, prefix, args):
        return list(prefix) + [program, "--prop", prop, "--tier", self.tier, "--seed", str(self.seed)] + list(args)

    def _shard(self, program, label, prop, s, shards, start, ncases, args, env, stall, maxrestart, prefix, as_limit):
        first = start + s
        restarts = 0
        tag = os.path.join(self.work, "%s-%d-%d" % (label, self.nrun, s))
        hashes = tag + ".hash"
        envv = dict(os.environ)
        envv.update(env or {})
        replay = dict(program=label, prop=prop, args=args, prefix=prefix, env=env or {})
        if prefix and "mpiexec" in prefix[0]:  # concurrent mpiexecs must not race for one session directory
            os.makedirs(tag + ".tmp", exist_ok=True)
            envv["OMPI_MCA_orte_tmpdir_base"] = envv["TMPDIR"] = tag + ".tmp"
        nostart = 0
        nstop = start + ncases
        while first < nstop and not self.stopping():
            out, status, errf = tag + ".out.%d" % restarts, tag + ".status.%d" % restarts, tag + ".err.%d" % restarts
            argv = self._argv(program, prop, prefix, args) + ["--start", str(first), "--step", str(shards), "--end", str(nstop),
                                                               "--out", out, "--status", status, "--hashes", hashes]
            rc, st, hung = self._watch(argv, envv, errf, status, stall, as_limit)
            err = open(errf, errors="replace").read()[-20000:]
            self._collect(out, replay)
            if hung is False and rc in (0, 1) and st and st["done"]:
                break
            if hung is False and rc == 3:
                raise CheckError("%s: harness error: %s" % (label, err[-2000:]))
            case = st["case"] if st else first
            stage = (st or {}).get("stage", "?")
            note = (st or {}).get("note", "")
            if hung == "stopped":
                self._collect(out, replay)
                with self.lock:
                    self.evaluations += max(0, (case - first) // shards)
                break
            if hung:
                hung2 = False
                # re-run the one case alone, with more patience, before calling it a hang; a few times, as it may depend on the timing
                for again in range(3):
                    if self.quick and time.time() - self.t0 > 800:
                        break
                    o2 = "%sr%d" % (out, again)
                    rc2, st2, hung2 = self._watch(self._argv(program, prop, prefix, args) + ["--only", str(case), "--out", o2, "--status", o2 + "s"],
                                                  envv, errf + "r", o2 + "s", stall * 2, as_limit, final=True)
                    self._collect(o2, replay)
                    if hung2 is True:
                        break
                hung2 = hung2 is True
                k = (label, stage)
                with self.lock:
                    self.stalls.setdefault(k, set()).add(case)
                    often = len(self.stalls[k]) >= 2  # cases take milliseconds: two unrelated stalls of this length are no accident
                if hung2 or often:
                    self.fail("%s:hang" % stage, "no progress for %ds, %s" % (stall, "again when run alone" if hung2 else "in more than one case"), note, dict(replay, case=case))
                    self.hang = True
                    break
                with self.lock:
                    self.inconclusive.append("%s case %d: watchdog fired, did not repeat" % (label, case))
            elif st is None and prefix and nostart < 2:
                nostart += 1
                time.sleep(1)
                continue
            elif st is None:
                raise CheckError("%s did not start (rc=%s): %s" % (label, rc, err[-2000:]))
            elif st["done"]:
                # failed after the loop: leaks reported at exit and the like
                k = san_summary(err) or "exit-status-%s" % rc
                self.fail("%s" % k, "at process exit (rc=%s): %s" % (rc, err[-1500:]), note, dict(replay, case=case))
                break
            else:
                k = san_summary(err)
                if rc == -9 and k is None:
                    raise CheckError("%s was killed (memory?) at case %d" % (label, case))
                self.fail("%s:%s" % (stage, k or ("crash-signal-%s" % -rc if rc < 0 else "exit-status-%s" % rc)),
                          "the process died (rc=%s): %s" % (rc, err[-2500:]), note, dict(replay, case=case))
            restarts += 1
            if restarts > maxrestart:
                with self.lock:
                    self.inconclusive.append("%s shard %d: gave up after %d crashes" % (label, s, restarts))
                break
            with self.lock:
                self.evaluations += max(0, (case - first) // shards + 1)
            first = case + shards
        try:
            b = open(hashes, "rb").read()
            with self.lock:
                for i in range(0, len(b) - 7, 8):
                    self.hashes.add(b[i:i + 8])
        except OSError:
            pass

    def _watch(self, argv, env, errf, status, stall, as_limit, final=False):
        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if as_limit:
                resource.setrlimit(resource.RLIMIT_AS, (as_limit, as_limit))
        with open(errf, "wb") as ef:
            p = subprocess.Popen(argv, stdout=ef, stderr=ef, env=env, preexec_fn=pre, cwd=self.work)
        last, t_last = None, time.time()
        while True:
            try:
                p.wait(timeout=0.2 if time.time() - t_last < 2 else 1.0)
                return p.returncode, read_status(status), False
            except subprocess.TimeoutExpired:
                pass
            st = read_status(status)
            b = (st["case"], st["beat"]) if st else None
            if b != last:
                last, t_last = b, time.time()
            stop = self.stopping() if not final else self.quick and time.time() - self.t0 > 840
            if stop or time.time() - t_last > stall:
                try:
                    os.killpg(p.pid, signal.SIGTERM if "mpiexec" in argv[0] else signal.SIGKILL)
                    p.wait(timeout=5)
                except (OSError, subprocess.TimeoutExpired):
                    pass
                kill_session(p.pid)
                p.wait()
                return p.returncode, read_status(status), "stopped" if stop else True

    def _collect(self, out, replay):
        lines = []
        for f in [out] + sorted(glob.glob(glob.escape(out) + ".r[0-9]*")):
            try:
                lines += open(f, errors="replace").read().splitlines()
            except OSError:
                pass
        for l in lines:
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d["t"] == "v":
                self.fail(d["key"], d["msg"], d["detail"], dict(replay, case=d["case"]))
            elif d["t"] == "end":
                with self.lock:
                    self.evaluations += d["evaluations"]
                    for k, v in d["counters"].items():
                        self.counters[k] = self.counters.get(k, 0) + v
                    for s in d["samples"]:
                        if len(self.samples) < 6:
                            self.samples.append(s[:1500])

    # ---- verdict
    def finish(self):
        findings = load_findings()
        new, known = [], {}
        for v in self.violations:
            f = next((f for f in findings if f["property"] == self.prop and re.fullmatch(f["key"], v["key"])
                      and (not f.get("detail") or re.search(f["detail"], v["detail"] + " " + v["msg"]))), None)
            if f:
                known[f["what"]] = known.get(f["what"], 0) + 1
            else:
                new.append(v)
        for what in sorted(known):
            log("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        if new:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            bykey = {}
            for v in new:
                bykey.setdefault(v["key"], []).append(v)
            for n, (k, vs) in enumerate(sorted(bykey.items())):
                vs.sort(key=lambda v: (len(v["detail"]), v["detail"]))
                v = vs[0]
                path = os.path.join(VERIF, "replays", "%s-%d.json" % (self.prop, n))
                json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, key=k, occurrences=len(vs), message=v["msg"], input=v["detail"],
                               replay=v["replay"], how="python3 tools/check.py --replay " + path), open(path, "w"), indent=1)
                log("VIOLATION property=%s replay=%s" % (self.prop, path))
                log("   %s (x%d): %s" % (k, len(vs), v["msg"][:600]))
                if v["detail"]:
                    log("   input: %s" % v["detail"][:400])
        self.write_evidence(len(new), sorted(known))
        if new:
            return 1
        if self.evaluations == 0:
            log("nothing was observed: inconclusive")
            return 2
        return 0

    def write_evidence(self, nviol, known):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.hashes), rule=self.rule, samples=self.samples[:6],
                   observed=dict(sorted(self.counters.items())))
        cov.update(self.extra)
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:20]
        if known:
            cov["known_findings_seen"] = known
        ev = dict(property=self.prop, tier="thorough" if self.tier == "thorough" else "quick", seed=self.seed, level="exploration", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=nviol)
        tmp = os.path.join(d, ".%s.%d" % (self.prop, os.getpid()))
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(d, self.prop + ".json"))


def load_findings():
    """known-findings.txt: 'finding: property=ID key=REGEX [detail=REGEX] what=TEXT' and 'fixed: ...' lines (which suppress nothing)."""
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+)(?: detail=(\S+))? what=(.*)", l.strip())
            if m:
                r.append(dict(property=m.group(1), key=m.group(2), detail=m.group(3), what=m.group(4)))
    return r
