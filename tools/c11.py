"""C11: the command-line programs, observed from outside (exit status, output, wall clock) and inside (entered functions)."""
import glob, itertools
from demos import *

ALGO = re.compile(r"parmcb::(?:detail::|mpi::)*(mcb_sva_\w+|approx_mcb_sva_\w+|\w*CyclesBuilder)")
DIAG = re.compile(r"loop|multiple|parallel|weight|edge|graph|invalid|abort", re.I)
T_SEQ, T_MPI = 30, 45


def corrupt(r, g):
    """Break one or several preconditions; returns (edge list of (u, v, weight text), description)."""
    E = [(u, v, g.wtext(w)) for u, v, w in g.e]
    what = []
    kinds = r.choice([["loop"], ["parallel"], ["weight"], ["loop"], ["parallel"], ["weight"], ["loop", "parallel"], ["weight", "loop"], ["parallel", "weight"], ["loop", "parallel", "weight"]])
    for k in kinds:
        if k == "loop":
            v = r.choice([1, g.n, r.randint(1, g.n)])
            e = (v, v, r.choice(["1", "7", "0.5"]))
            at = r.choice([0, len(E), r.randint(0, len(E))])
            E.insert(at, e)
            what.append("loop at %d (line %d)" % (v, at))
        elif k == "parallel" and len(g.e):
            i = r.randrange(len(E))
            while E[i][0] == E[i][1]:
                i = r.randrange(len(E))
            u, v, w = E[i]
            for _ in range(r.choice([1, 1, 1, 2])):
                e = (v, u, w) if r.random() < .5 else (u, v, w)
                if r.random() < .5:
                    e = (e[0], e[1], str(r.randint(1, 9)))
                at = r.choice([0, len(E), i, i + 1, r.randint(0, len(E))])
                E.insert(at, e)
            what.append("parallel edges %d-%d" % (u, v))
        elif k == "weight" and len(g.e):
            i = r.choice([0, len(E) - 1, r.randrange(len(E))])
            w = r.choice(["0", "0.0", "-1", "-0.5", "-1e-9", "-1000000", "-0", "0e5"])
            E[i] = (E[i][0], E[i][1], w)
            what.append("weight %s at line %d" % (w, i))
    if not what:
        E.append((1, 1, "1"))
        what.append("loop at 1")
    return E, ", ".join(what)


def text_of(r, n, E):
    out = ["p edge %d %d\n" % (n, len(E))]
    for u, v, w in E:
        out.append("%s %d %d %s\n" % (r.choice("eea"), u, v, w))
    t = "".join(out)
    return t.rstrip("\n") if r.random() < .2 else t


def big_graph(r):
    n, m = 500, 4000
    E = set()
    while len(E) < m:
        u, v = r.randint(1, n), r.randint(1, n)
        if u != v:
            E.add((min(u, v), max(u, v)))
    E = list(E)
    r.shuffle(E)
    return G(n, [(u, v, r.randint(1, 1000)) for u, v in E], 1, "big")


def b(r, name, v):
    return ["--%s=%s" % (name, r.choice(["1", "true", "on", "yes"] if v else ["0", "false", "off", "no"]))]


def options(r, prog, combo=None):
    """One option combination; combo fixes (signed, fvstrees, isotrees, parallel), None = leave at its default."""
    o = []
    names = [] if prog == "collection-stats-dimacs" else ["signed", "fvstrees", "isotrees"] + ([] if prog == MPI else ["parallel"])
    for i, n in enumerate(names):
        v = r.choice([None, True, False]) if combo is None else combo[i]
        if v is not None:
            o.append(b(r, n, v))
    if prog not in (MPI, "collection-stats-dimacs") and r.random() < .6:
        o.append(["--cores=%d" % r.choice([0, 1, 2, 3, 4, 8, 13, 64])])
    if prog == "approx-mcb-dimacs":
        k = r.choice([None, 2, 2, 3, 4, 5, 9])
        if k:
            o.append(["--k=%d" % k] if r.random() < .5 else ["--k", str(k)])
    if prog != "collection-stats-dimacs" and r.random() < .4:
        o.append(r.choice([["--printcycles=1"], ["--printcycles=true"], ["--printcycles=0"]]))
    if r.random() < .4:
        o.append(r.choice([["--verbose=1"], ["--verbose=0"], ["--verbose=true"]]))
    r.shuffle(o)
    return [x for y in o for x in y]


def argv(r, opts, path):
    w = r.randrange(4)
    if w == 0:
        return opts + [path]
    if w == 1:
        return opts + ["--input-file=" + path]
    if w == 2:
        return opts + ["-I", path]
    return [path] + opts


def run_check(ctx):
    q = ctx.quick
    bins = build_demos(SEQ + [MPI], ["opt", "trace"])
    spy = build_spy()
    ctx.rule = ("case = one generated DIMACS file (13 graph families x 6 weight patterns, valid or with a loop, parallel edges, a non-positive weight or several of them at drawn places) "
                "given to one program with one option combination (MPI: and one number of processes); distinct = different (file, program, options, processes)")
    ctx.assumptions += ["approximate demo: k >= 2 (it rejects k <= 1 by design); numbers are printed with six significant digits and judged as such",
                        "Open MPI's launcher on one machine"]
    seed = ctx.seed

    def save(i, t):
        p = os.path.join(ctx.work, "in-%s.gr" % i)
        with open(p, "w") as f:
            f.write(t)
        return p

    def note(r, text, extra=""):
        return " ".join(os.path.basename(x) if x.startswith("/") else x for x in r.cmd) + extra + " :: " + text.replace("\n", " | ")[:1500]

    def retry(f):
        """A timeout counts only when it happens twice."""
        r = f()
        if r.timeout:
            ctx.count("timeouts_retried")
            r = f()
        return r

    # ---------------- sequential programs, rejected input
    def rejected(i):
        r = random.Random("rej-%d-%d" % (seed, i))
        g = big_graph(r) if i % 25 == 24 else random_graph(r)
        if g.n == 0:
            g = G(2, [])
        E, what = corrupt(r, g)
        text = text_of(r, g.n, E)
        path = save("r%d" % i, text)
        for prog in SEQ:
            fl = "trace" if (i + len(prog)) % 2 and g.name != "big" else "opt"
            opts = options(r, prog)
            tr = os.path.join(ctx.work, "tr-%d-%s" % (i, prog))
            sp = tr + ".spy"
            args = argv(r, opts, path)
            res = retry(lambda: run([bins[prog, fl]] + args, timeout=T_SEQ, trace=tr if fl == "trace" else None, spy=sp, preload=spy))
            key = "%s:rejected" % prog
            d = note(res, text, " [%s]" % what)
            ctx.count("rejected.%s" % prog)
            for k in ("loop", "parallel", "weight"):
                if k in what:
                    ctx.count("rejected_files_with.%s" % k)
            ctx.distinct("%s|%s|%s" % (prog, text, args))
            if res.timeout:
                ctx.fail(key + ":not-prompt", "still running after %d s, twice, on a file with %s" % (T_SEQ, what), d)
                continue
            if res.rc == 0:
                ctx.fail(key + ":exit-status-0", "exit status 0 on a file with %s" % what, d)
            elif res.rc < 0:
                ctx.fail(key + ":died", "died of signal %d on a file with %s: %s" % (-res.rc, what, res.err[-300:]), d)
            if not DIAG.search(res.err):
                ctx.fail(key + ":no-diagnostic", "no diagnostic on a file with %s (stderr: %r)" % (what, res.err[:200]), d)
            ran = []
            if weight(res.out) or "MCB weight" in res.out or "total cycles" in res.out:
                ran.append("printed a result")
            try:
                calls = open(sp).read()
                if not calls.startswith("calls 0"):
                    ran.append("handed work to the TBB runtime")
            except OSError:
                pass
            if fl == "trace":
                fs = glob.glob(tr + ".[0-9]*")
                t = "".join(open(f).read() for f in fs)
                if "main" not in t.split():
                    raise CheckError("the function trace of %s is empty" % prog)
                ctx.count("functions_entered_observed", len(t.splitlines()))
                m = ALGO.search(demangle(t))
                if m:
                    ran.append("entered " + m.group(0))
            if ran:
                ctx.fail(key + ":algorithm-ran", "on a file with %s: %s" % (what, ", ".join(ran)), d)

    # ---------------- sequential programs, valid input
    combos = list(itertools.product([True, False], [True, False], [None, True, False], [True, False])) + [(None, None, None, None)]

    def close(text, lo, hi):
        try:
            v = float(text)
        except (TypeError, ValueError):
            return False
        return v >= lo * (1 - 6e-6) and v <= hi * (1 + 6e-6)

    def valid(i):
        r = random.Random("val-%d-%d" % (seed, i))
        g = random_graph(r)
        text = g.text(r, r.randrange(32))
        path = save("v%d" % i, text)
        opt = g.optimum() / g.scale
        ctx.count("valid_files")
        ctx.count("valid_files.dimension_0" if g.dim() == 0 else "valid_files.with_cycles")
        if i < 4:
            ctx.sample(text.replace("\n", " | "))
        for prog in SEQ:
            seen = {}
            cs = [None] if prog == "collection-stats-dimacs" else r.sample(combos, 8 if q else 25)
            for c in cs:
                fl = "trace" if r.random() < .15 else "opt"
                opts = options(r, prog, c)
                k = 2
                for a, x in enumerate(opts):
                    if x.startswith("--k"):
                        k = int(x.split("=")[1]) if "=" in x else int(opts[a + 1])
                args = argv(r, opts, path)
                res = retry(lambda: run([bins[prog, fl]] + args, timeout=120))
                ctx.count("valid.%s" % prog)
                ctx.distinct("%s|%s|%s" % (prog, text, args))
                key = "%s:valid" % prog
                d = note(res, text)
                if res.timeout or res.rc != 0:
                    ctx.fail(key + ":exit-status", "%s on a valid file: %s" % ("does not end" if res.timeout else "exit status %d" % res.rc, res.err[-300:]), d)
                    continue
                if prog == "collection-stats-dimacs":
                    continue
                w = weight(res.out)
                hi = opt if prog == "mcb-dimacs" else (2 * k - 1) * opt
                if not close(w, opt, hi):
                    ctx.fail(key + ":weight", "printed weight %s, the minimum is %.12g%s" % (w, opt, "" if prog == "mcb-dimacs" else ", k=%d" % k), d)
                group = k if prog != "mcb-dimacs" else 0
                if group in seen and seen[group][0] != w:
                    ctx.fail(key + ":differs", "printed weight %s, but %s with %s" % (w, seen[group][0], " ".join(seen[group][1])), d)
                seen.setdefault(group, (w, opts))

    # ---------------- the MPI program
    env = dict(MPI_ENV)

    def mpi(i, n, args, raw):
        tmp = os.path.join(ctx.work, "m%d" % i)
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        e = dict(env, OMPI_MCA_orte_tmpdir_base=tmp, TMPDIR=tmp)
        prog = bins[MPI, "trace" if not raw and i % 2 else "opt"]
        cmd = ["mpiexec", "--oversubscribe", "-np", str(n)]
        if raw:
            cmd += [prog] + args
        else:
            w = "trap '' TERM; r=$OMPI_COMM_WORLD_RANK; d=$1; shift; \"$@\" >$d/out.$r 2>$d/err.$r; echo $? >$d/rc.$r; exit 0"
            cmd += ["sh", "-c", w, "sh", tmp, prog] + args
        res = run(cmd, env=e, timeout=T_MPI, trace=os.path.join(tmp, "tr"), cwd=ctx.work)
        res.rcs, res.errs, res.outs = {}, "", ""
        for k in range(n):
            try:
                res.rcs[k] = int(open(os.path.join(tmp, "rc.%d" % k)).read())
            except (OSError, ValueError):
                pass
            for nm, at in (("err", "errs"), ("out", "outs")):
                try:
                    setattr(res, at, getattr(res, at) + open(os.path.join(tmp, "%s.%d" % (nm, k)), errors="replace").read())
                except OSError:
                    pass
        res.trace = "".join(open(f).read() for f in glob.glob(os.path.join(tmp, "tr.*")))
        shutil.rmtree(tmp, ignore_errors=True)
        return res

    def mpi_rejected(i):
        r = random.Random("mrej-%d-%d" % (seed, i))
        g = big_graph(r) if i % 12 == 11 else random_graph(r)
        if g.n == 0:
            g = G(2, [])
        E, what = corrupt(r, g)
        text = text_of(r, g.n, E)
        path = save("mr%d" % i, text)
        n = [1, 2, 3, 4, 5, 2, 7][i % 7] if q else [1, 2, 3, 4, 5, 6, 8, 12][i % 8]
        args = argv(r, options(r, MPI), path)
        raw = i % 3 == 0
        res = retry(lambda: mpi(10000 + i, n, args, raw))
        ctx.count("mpi_rejected.np%d" % n)
        ctx.distinct("mpi%d|%s|%s" % (n, text, args))
        key = "mcb-dimacs-mpi:rejected"
        d = note(res, text, " [np %d, %s]" % (n, what))
        if res.timeout:
            ctx.fail(key + ":not-prompt", "%d processes: still running after %d s, twice, on a file with %s; exit statuses so far: %s" % (n, T_MPI, what, res.rcs), d)
            return
        if raw:
            if res.rc == 0:
                ctx.fail(key + ":exit-status-0", "the launcher reports success on a file with %s (%d processes)" % (what, n), d)
            out, err = res.out, res.err
        else:
            ctx.count("mpi_rank_exit_statuses_observed", len(res.rcs))
            for k in range(n):
                rc = res.rcs.get(k)
                if rc is None and res.rc == 0:
                    raise CheckError("no exit status from rank %d: %s" % (k, res.err[-500:]))
                if rc == 0:
                    ctx.fail(key + ":exit-status-0", "rank %d of %d exits with status 0 on a file with %s" % (k, n, what), d)
                elif rc in (134, 136, 139):
                    ctx.fail(key + ":died", "rank %d of %d died of signal %d on a file with %s: %s" % (k, n, rc - 128, what, res.errs[-300:]), d)
            out, err = res.outs, res.errs
            m = ALGO.search(demangle(res.trace))
            if m:
                ctx.fail(key + ":algorithm-ran", "a rank entered %s on a file with %s" % (m.group(0), what), d)
        err = "\n".join(l for l in err.splitlines() if not re.search(r"mpiexec|primary job|\bjob\b|OMPI|ompi|orte|PMIX|^-+$", l))
        if not DIAG.search(err):
            ctx.fail(key + ":no-diagnostic", "no diagnostic on a file with %s" % what, d)
        if "MCB weight" in out:
            ctx.fail(key + ":algorithm-ran", "printed a result on a file with %s" % what, d)

    def mpi_valid(i):
        r = random.Random("mval-%d-%d" % (seed, i))
        g = random_graph(r)
        text = g.text(r, r.randrange(32))
        path = save("mv%d" % i, text)
        opt = g.optimum() / g.scale
        seen = {}
        for j, c in enumerate([(True, None, None), (False, True, None), (False, False, True), (None, None, None)]):
            n = r.choice([1, 2, 3, 4, 5, 7])
            raw = r.random() < .4
            args = argv(r, options(r, MPI, c), path)
            res = retry(lambda: mpi(20000 + 10 * i + j, n, args, raw))
            ctx.count("mpi_valid.np%d" % n)
            ctx.distinct("mpi%d|%s|%s" % (n, text, args))
            key = "mcb-dimacs-mpi:valid"
            d = note(res, text, " [np %d]" % n)
            bad = {k: x for k, x in res.rcs.items() if x}
            if res.timeout or res.rc != 0 or bad:
                ctx.fail(key + ":exit-status", "%s on a valid file, %d processes: %s" % ("does not end" if res.timeout else "exit status %s %s" % (res.rc, bad), n, (res.errs or res.err)[-300:]), d)
                continue
            w = weight(res.out if raw else res.outs)
            if not close(w, opt, opt):
                ctx.fail(key + ":weight", "printed weight %s, the minimum is %.12g (%d processes)" % (w, opt, n), d)
            if seen and seen["w"] != w:
                ctx.fail(key + ":differs", "printed weight %s, but %s with %s" % (w, seen["w"], seen["a"]), d)
            seen.setdefault("w", w)
            seen.setdefault("a", " ".join(args))

    def guarded(f):
        def h(i):
            if len(ctx.violations) > 30 or any("not-prompt" in v["key"] or "does not end" in v["msg"] for v in ctx.violations):
                return
            f(i)
            ctx.count_eval()
        return h

    for f, n, par in [(rejected, 600 if q else 8000, NCPU), (valid, 300 if q else 6000, NCPU), (mpi_rejected, 84 if q else 900, 3), (mpi_valid, 20 if q else 300, 3)]:
        t = time.time()
        with ThreadPoolExecutor(max_workers=par) as ex:
            list(ex.map(guarded(f), range(n)))
        log("%s: %.1fs" % (f.__name__, time.time() - t))
