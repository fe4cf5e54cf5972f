"""C20: histories of set_global_tbb_concurrency calls in one process (h_conc), and the demos' --cores option as seen by a
library preloaded into them that asks the TBB runtime, at every hand-over of work, how much parallelism it allows."""
from demos import *
import props


def run_check(ctx):
    q = ctx.quick
    (p,) = props.prog("h_conc")
    bins = build_demos(["mcb-dimacs", "approx-mcb-dimacs"], ["opt"])
    spy = build_spy()
    ctx.rule = ("case = one history of calls (from the main thread, other threads, another translation unit, inside arenas and tasks) with library calls in between, "
                "or one demo run with one option combination and n; distinct = different history, or different (program, options, n, file)")
    ctx.run_sharded(p, 2400 if q else 60000, shards=4)

    import itertools
    T = ["1", "true", "on", "yes"]

    def some(r, name, v):
        if v is None:
            return []
        return [["--%s=%s" % (name, r.choice(T if v else ["0", "false", "off", "no"]))]]

    combos = list(itertools.product([None, True, False], [None, True, False], [None, True, False], [None, True], [None, True, False, "flag"], [None, True, False]))

    def one(i):
        if sum(":cores" in v["key"] for v in ctx.violations) > 30:
            return
        r = random.Random("cores-%d-%d" % (ctx.seed, i))
        prog = ["mcb-dimacs", "approx-mcb-dimacs"][i % 2]
        signed, fvs, iso, par, verbose, cycles = combos[(i // 2) % len(combos)] if i // 2 < len(combos) else r.choice(combos)
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 9, 11, 16, 33, 64])
        while True:
            g = random_graph(r)
            if g.dim() >= 2:
                break
        path = os.path.join(ctx.work, "c%d.gr" % i)
        text = g.text(r)
        open(path, "w").write(text)
        o = some(r, "signed", signed) + some(r, "fvstrees", fvs) + some(r, "isotrees", iso) + (some(r, "parallel", par) if r.random() < .8 or not par else [["-p", "1"]])
        if verbose != "flag":
            o += some(r, "verbose", verbose)
        o += some(r, "printcycles", cycles)
        o.append(["--cores=%d" % n] if r.random() < .5 else ["--cores", str(n)])
        if prog == "approx-mcb-dimacs" and r.random() < .5:
            o.append(["--k=%d" % r.randint(2, 6)])
        r.shuffle(o)
        args = [x for y in o for x in y] + [path] + (["-v"] if verbose == "flag" else [])
        sp = path + ".spy"
        res = run([bins[prog, "opt"]] + args, timeout=120, spy=sp, preload=spy)
        ctx.count_eval()
        ctx.count("demo_runs.%s" % prog)
        d = "%s %s :: %s" % (prog, " ".join(args).replace(path, "FILE"), text.replace("\n", " | "))
        ctx.distinct(d)
        if res.timeout or res.rc != 0:
            ctx.count("demo_runs_that_failed")  # judged by C11
            return
        try:
            rec = [l.split() for l in open(sp)]
        except OSError:
            raise CheckError("%s left no record" % prog)
        calls = sum(int(x[1]) for x in rec if x[0] == "calls")
        ctx.count("hand_overs_observed", calls)
        if calls == 0:
            ctx.count("demo_runs_without_hand_over")
            return
        for x in rec:
            if x[0] == "allowed":
                ctx.count("hand_overs_under_limit_%s" % x[1], int(x[2]))
                if int(x[1]) != n:
                    ctx.fail("%s:cores" % prog, "--cores %d, but %s of %d hand-overs of work to the TBB runtime happened while it allowed %s" % (n, x[2], calls, x[1]), d)
        os.unlink(path)
        os.unlink(sp)

    N = 2 * len(combos) if q else 40 * len(combos)
    with ThreadPoolExecutor(max_workers=NCPU) as ex:
        list(ex.map(one, range(N)))
    if not ctx.counters.get("hand_overs_observed"):
        raise CheckError("no hand-over of work to the TBB runtime was observed in any demo run")
    ctx.sample("demo option combinations: %d, every one with each of the two programs" % len(combos))
