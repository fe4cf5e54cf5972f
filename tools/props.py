"""The checks, one function per property."""
import json, os, re, shutil, subprocess, time
from vplib import *
from technique import TECHNIQUE

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


PROGRAMS = {
    "h_exact": dict(srcs=["h_exact.cpp"], flags=["-O1"]),
    "h_struct": dict(srcs=["h_struct.cpp"], flags=["-O1"]),
    # the arithmetic harness keeps the library's own assertions and traps signed overflow
    "h_alg": dict(srcs=["h_alg.cpp"], flags=["-O1", "-fsanitize=undefined", "-fno-sanitize-recover=undefined"], ndebug=False, libs=["-lboost_serialization"]),
    "h_io": dict(srcs=["h_io.cpp"], flags=["-O1"]),
    "h_approx": dict(srcs=["h_approx.cpp"], flags=["-O1"]),
}
SAN = ["-O1", "-g1", "-DVP_ASAN", "-DVP_NO_ALLOC", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]
PROGRAMS.update({
    "h_san": dict(srcs=["h_san.cpp"], flags=SAN, ndebug=False),
    "h_san_vg": dict(srcs=["h_san.cpp"], flags=["-O1", "-g1", "-DVP_NO_ALLOC"]),
    "h_san_dbg": dict(srcs=["h_san.cpp"], flags=["-O1", "-DVP_NO_ALLOC", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_DEBUG_PEDANTIC"], ndebug=False),
    "h_io_san": dict(srcs=["h_io.cpp"], flags=SAN, ndebug=False),
    "h_struct_san": dict(srcs=["h_struct.cpp"], flags=SAN, ndebug=False),
    "h_alg_san": dict(srcs=["h_alg.cpp"], flags=SAN, ndebug=False, libs=["-lboost_serialization"]),
    "h_exact_san": dict(srcs=["h_exact.cpp"], flags=SAN, ndebug=False),
    "h_mpi_san": dict(srcs=["h_mpi.cpp"], flags=SAN, ndebug=False, mpi=True),
    "h_approx_san": dict(srcs=["h_approx.cpp"], flags=SAN, ndebug=False),
    "h_race": dict(srcs=["h_race.cpp"], flags=["-O1", "-g1", "-fsanitize=thread"]),
})
# rebuilt harnesses of other properties are run for their inputs only: their oracles belong to those properties
SAN_ENV = {"ASAN_OPTIONS": "detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:detect_leaks=%d:exitcode=66:allocator_may_return_null=1:max_allocation_size_mb=4000",
           "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}


def prog(*names):
    """Build the named harness programs concurrently."""
    return build_many([((n,), PROGRAMS[n]) for n in names])


GRAPH_RULE = ("case i is a pure function of (seed, property, i): all labelled graphs on up to %s vertices, then graphs of 30 families with "
              "14 weight patterns, renumbered and edge-permuted; distinct = different (n, ordered edge list, weights); non-trivial = %s")


@check("C01")
def c01(ctx):
    (p,) = prog("h_exact")
    ctx.rule = GRAPH_RULE % ("5 (thorough: 6)", "cycle space dimension >= 2 or more than 8 edges")
    ctx.run_sharded(p, 40000 if ctx.quick else 600000)


@check("C02")
def c02(ctx):
    (p,) = prog("h_exact")
    ctx.rule = GRAPH_RULE % ("5 (thorough: 6)", "cycle space dimension >= 2 or more than 8 edges")
    ctx.run_sharded(p, 40000 if ctx.quick else 600000)


@check("C08")
def c08(ctx):
    (p,) = prog("h_exact")
    ctx.rule = GRAPH_RULE % ("4", "cycle space dimension >= 2")
    m = build("h_mpi", optional=True, **PROGRAMS["h_mpi"])
    ctx.run_sharded(p, 4000 if ctx.quick else 60000)
    if m:
        ctx.run_sharded(m, 1500 if ctx.quick else 20000, shards=2, prefix=mpiexec(4), env=MPI_ENV, stall=60)


def simple(pid, program, quick, thorough, rule, **kw):
    """A check that is one sharded run of one harness program."""
    @check(pid)
    def f(ctx):
        (p,) = prog(program)
        ctx.rule = rule
        ctx.run_sharded(p, quick if ctx.quick else thorough, **kw)


CSD2 = GRAPH_RULE % ("5", "cycle space dimension >= 2")
simple("C05", "h_approx", 16000, 300000, CSD2 + "; each case runs every approximate entry point with drawn k, graph type, weight map and output iterator")
simple("C06", "h_approx", 16000, 300000, CSD2 + "; each case runs every approximate entry point with drawn k, graph type and weight map, and with k = 0")
simple("C15", "h_approx", 60000, 1500000, CSD2 + "; each case builds spanners for four values of k")
simple("C12", "h_struct", 40000, 800000, CSD2 + "; each case builds the shortest-path trees of all sources")
simple("C13", "h_struct", 150000, 3000000, CSD2)
simple("C14", "h_struct", 16000, 300000, CSD2 + "; each case builds the Horton, FVS and isometric collections")
simple("C16", "h_struct", 150000, 3000000, CSD2)
simple("C17", "h_alg", 80000, 2000000, "case i is one random operation history on sparse GF(2) vectors (short exhaustive histories first), compared step by step with dense vectors; distinct = different history")
simple("C18", "h_alg", 40000, 1000000, "case i is one argument block (exhaustive small ranges, all 16-bit boundary and random wide values) or one operation history on F_p vectors; distinct = different block")
simple("C10", "h_io", 100000, 2000000, "case i is one generated DIMACS text (valid, valid with unusual layout, or naming an undeclared vertex) or one multigraph for the validators; distinct = different text")


MPI_LIBS = ["-lboost_timer", "-ltbb", "-lpthread"]
PROGRAMS["h_mpi"] = dict(srcs=["h_mpi.cpp"], flags=["-O1"], libs=MPI_LIBS, mpi=True)



def mpiexec(n):
    return ["mpiexec", "--oversubscribe", "-np", str(n)]


@check("C04")
def c04(ctx):
    (p,) = prog("h_mpi")
    ctx.rule = (GRAPH_RULE % ("4", "has a cycle") + "; each case runs mcb_sva_signed_mpi and a drawn subset of the other four on a communicator of s ranks and, at the same time, on one "
                "of the remaining ranks, ranks possibly reversed, every rank with its own allocator layout and random delays at the MPI calls")
    env, q = MPI_ENV, ctx.quick
    big = 7 if q else 8
    # every size from 1 up, as sub-communicators; then real worlds of every size
    ctx.run_sharded(p, 8000 if q else 150000, shards=2, prefix=mpiexec(big), env=env, label="h_mpi", stall=60)
    for n in ([1, 2, 3, 5] if q else [1, 2, 3, 4, 5, 6, 7, 8, 11, 16]):
        ctx.run_sharded(p, 150 if q else 3000, shards=1, prefix=mpiexec(n), env=env, args=["--extra", "world"], start=1000000 * n, stall=60, label="h_mpi")
    ctx.assumptions += ["Open MPI's shared-memory transport on one machine; messages between a pair of ranks are delivered in order"]


PROGRAMS["h_tbb"] = dict(srcs=["h_tbb.cpp"], flags=["-O1", "-DVP_SHIM"])
PROGRAMS["h_tbb_plain"] = dict(srcs=["h_tbb.cpp"], flags=["-O1"])
PROGRAMS["h_tbb_tsan"] = dict(srcs=["h_tbb.cpp"], flags=["-O1", "-g1", "-fsanitize=thread", "-DVP_SHIM", "-DVP_TSAN"])
# the TBB library itself is not instrumented: what it does inside (and hands to memcmp, free, ...) is not judged
TSAN_SUPP = os.path.join(HARNESS, "tsan.supp")
TSAN_ENV = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:suppressions=" + TSAN_SUPP}


@check("C03")
def c03(ctx):
    p, t = build_many([(("h_tbb",), dict(PROGRAMS["h_tbb"], optional=True)), (("h_tbb_tsan",), dict(PROGRAMS["h_tbb_tsan"], optional=True))])
    ctx.rule = (GRAPH_RULE % ("4", "cycle space dimension >= 2") + "; each case runs the six TBB entry points under drawn schedules; distinct = different (graph, sequence of scheduling "
                "decisions: mode, partition of every range, order of tasks, accumulators, context switches, thread of every task)")
    q = ctx.quick
    if p:
        ctx.run_sharded(p, 16000 if q else 500000)
    else:  # a call the scheduler does not know: the genuine runtime only
        ctx.assumptions.append("the library did not build against the controlled scheduler: schedules of the genuine TBB runtime only")
        ctx.run_sharded(prog("h_tbb_plain")[0], 24000 if q else 500000)
    if t:
        ctx.run_sharded(t, 3600 if q else 80000, env=TSAN_ENV, start=0)
    ctx.assumptions += ["the controlled schedules are sampled", "ThreadSanitizer observes executed accesses; tasks are bound to threads beforehand so that the scheduler itself orders nothing between them"]


PROGRAMS["h_float"] = dict(srcs=["h_float.cpp"], flags=["-O1"])


@check("C09")
def c09(ctx):
    p, m = build_many([(("h_float",), PROGRAMS["h_float"]), (("h_mpi",), dict(PROGRAMS["h_mpi"], optional=True))])
    ctx.rule = (GRAPH_RULE % ("5", "cycle space dimension >= 2") + ", except that the weights are of 14 kinds of doubles in [1e-3, 1e3] whose sums are inexact "
                "(decimal fractions, thirds, values some ulps apart, metrics with equal real lengths, uniform, log-uniform, ...)")
    q = ctx.quick
    ctx.run_sharded(p, 40000 if q else 700000)
    if m:
        ctx.run_sharded(m, 1000 if q else 20000, shards=2, prefix=mpiexec(4), env=MPI_ENV, stall=60)


def lsan_works(ctx):
    """LeakSanitizer needs to stop the process's own threads, which some sandboxes forbid: ask it."""
    src, out = os.path.join(ctx.work, "lsan.cpp"), os.path.join(ctx.work, "lsan")
    open(src, "w").write("#include <cstdlib>\nvoid* volatile p; int main() { p = std::malloc(77); p = nullptr; return 0; }\n")
    r = subprocess.run([GXX, "-fsanitize=address", src, "-o", out], capture_output=True)
    if r.returncode:
        return False
    r = subprocess.run([out], capture_output=True, text=True, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=1"))
    return "77 byte" in r.stderr


@check("C07")
def c07(ctx):
    names = ["h_san", "h_san_vg", "h_san_dbg", "h_struct_san", "h_io_san", "h_alg_san", "h_race"] + ([] if ctx.quick else ["h_exact_san", "h_approx_san"])
    opt = ["h_mpi_san", "h_tbb_tsan"]
    ps = dict(zip(names + opt, build_many([((n,), PROGRAMS[n]) for n in names] + [((n,), dict(PROGRAMS[n], optional=True)) for n in opt])))
    ctx.rule = (GRAPH_RULE % ("4", "has a cycle, or at most two vertices") + "; each case runs every sequential and TBB entry point (graph with a stateful index map, plain, "
                "integer weights) with a lifetime-checked weight map, dereferences everything emitted, and runs the component builders")
    lsan = lsan_works(ctx)
    env = {k: (v % lsan if "%d" in v else v) for k, v in SAN_ENV.items()}
    ctx.extra["leak_sanitizer"] = "active" if lsan else "cannot run in this sandbox: leak accounting by live bytes only"
    q = ctx.quick
    ctx.run_sharded(ps["h_san"], 4000 if q else 60000, env=env, args=["--extra", "lsan"] if lsan else [])
    ctx.run_sharded(ps["h_san_dbg"], 4000 if q else 60000)
    if shutil.which("valgrind"):
        ctx.run_sharded(ps["h_san_vg"], 500 if q else 8000, prefix=["valgrind", "-q", "--vgdb=no", "--error-exitcode=9", "--exit-on-first-error=yes", "--leak-check=no"], args=["--extra", "light"])
        ctx.extra["valgrind_memcheck_cases"] = 500 if q else 8000
    no = ["--no-oracle"]
    for p, n, t in [("C10", 6000, 200000), ]:
        ctx.run_sharded(ps["h_io_san"], n if q else t, env=env, args=no, prop=p)
    for p, n, t in [("C12", 2000, 40000), ("C13", 6000, 200000), ("C14", 800, 16000), ("C16", 6000, 200000)]:
        ctx.run_sharded(ps["h_struct_san"], n if q else t, env=env, args=no, prop=p)
    for p, n, t in [("C17", 4000, 100000), ("C18", 2000, 50000)]:
        ctx.run_sharded(ps["h_alg_san"], n if q else t, env=env, args=no, prop=p)
    # schedules: the TBB entry points, and several callers at once
    ctx.run_sharded(ps["h_race"], 2400 if q else 60000, env=TSAN_ENV)
    if ps["h_tbb_tsan"]:
        ctx.run_sharded(ps["h_tbb_tsan"], 1200 if q else 30000, env=TSAN_ENV, args=no, prop="C03")
    if ps["h_mpi_san"]:  # leaks of Open MPI itself are not judged
        ctx.run_sharded(ps["h_mpi_san"], 1200 if q else 30000, shards=2, prefix=mpiexec(3), env=dict(MPI_ENV, **{k: (v % 0 if "%d" in v else v) for k, v in SAN_ENV.items()}), args=no, prop="C04")
    if not q:
        ctx.run_sharded(ps["h_exact_san"], 20000, env=env, args=no, prop="C01")
        ctx.run_sharded(ps["h_exact_san"], 1500, env=env, args=no, prop="C08")
        ctx.run_sharded(ps["h_approx_san"], 8000, env=env, args=no, prop="C05")
        ctx.run_sharded(ps["h_approx_san"], 8000, env=env, args=no, prop="C15")
    ctx.assumptions += ["sanitizers observe executed paths only", "uninitialised reads are observed by valgrind memcheck on the lighter part of the workload"]


@check("C19")
def c19(ctx):
    import c19 as m
    m.run(ctx)


@check("C11")
def c11(ctx):
    import c11 as m
    m.run_check(ctx)


PROGRAMS["h_conc"] = dict(srcs=["h_conc.cpp", "h_conc_b.cpp"], flags=["-O1"])


@check("C20")
def c20(ctx):
    import c20 as m
    m.run_check(ctx)


def replay(ctx, d):
    r = d["replay"]
    if "program" not in r:  # the driver is deterministic: run it again
        CHECKS[d["property"]](ctx)
        return ctx.finish()
    name = r["program"]
    (p,) = prog(name)
    cmd = list(r.get("prefix", [])) + [p, "--prop", r["prop"], "--tier", d["tier"], "--seed", str(d["seed"])] + r.get("args", []) + ["--only", str(r["case"]), "--verbose"]
    env = dict(os.environ)
    env.update(r.get("env", {}))
    log(" ".join(cmd))
    rc = subprocess.run(cmd, env=env).returncode
    log("exit status %s" % rc)
    return 1 if rc else 0


def prebuild():
    prog("h_exact", "h_io", "h_struct")  # the rest is built by the checks that use it
    return 0
