"""C19: observed compiler and linker outcomes of generated one-header and multi-unit programs."""
import os, random, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import vplib
from vplib import log

GRAPH = "#include <boost/graph/adjacency_list.hpp>\n#include <list>\n#include <vector>\n#include <set>\n#include <map>\n#include <iterator>\n" \
        "typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double> > G;\n" \
        "typedef boost::graph_traits<G>::edge_descriptor E;\n" \
        "static inline void square(G &g) { for (int i = 0; i < 4; i++) boost::add_edge(i, (i + 1) % 4, 1.0, g); }\n"
EXACT = "  { G g; square(g); std::list<std::list<E> > out; double w = parmcb::%s(g, boost::get(boost::edge_weight, g), std::back_inserter(out)); if (w != 4 || out.size() != 1) return 1; }\n"
APPROX = "  { G g; square(g); std::list<std::list<E> > out; double w = parmcb::%s(g, boost::get(boost::edge_weight, g), 2, std::back_inserter(out)); if (w != 4 || out.size() != 1) return 1; }\n"
# what a program that includes only this header would do with it: the public operations the properties name
SNIPPETS = {
    "arithmetic.hpp": "  { parmcb::ptype a = 1, b = 2; if (parmcb::compare(a, b) >= 0) return 1; }\n",
    "fp.hpp": "  { int a = 6, b = 4, x, y; if (parmcb::fp<int>::ext_gcd(a, b, x, y) != 2) return 1; int c = 3, p = 7; if (parmcb::fp<int>::get_mult_inverse(c, p) %% 7 != 5 && (parmcb::fp<int>::get_mult_inverse(c = 3, p = 7) + 7) %% 7 != 5) return 1; if (!parmcb::primes<int>::is_prime(7)) return 1; }\n".replace("%%", "%"),
    "spvecgf2.hpp": "  { parmcb::SpVecGF2<std::size_t> u(1), v(2); u += v; parmcb::SpVecGF2<std::size_t> w = u + v; std::set<std::size_t> s; s.insert(1); if (w * u != 1 || w * s != 1 || w.size() != 1) return 1; }\n",
    "spvecfp.hpp": "  { int p = 7; parmcb::SpVecFP<int> u(p), v(p); u = 1; v = 2; parmcb::SpVecFP<int> w = u + v; w *= 3; if (w * u != 3) return 1; }\n",
    "forestindex.hpp": "  { G g; square(g); parmcb::ForestIndex<G> f(g); if (f.cycle_space_dimension() != 1 || f.weak_connected_components() != 1 || f(f(0)) != 0 || f.is_on_forest(f(0))) return 1; }\n",
    "detail/fvs.hpp": "  { G g; square(g); std::list<boost::graph_traits<G>::vertex_descriptor> out; parmcb::greedy_fvs(g, std::back_inserter(out)); if (out.size() != 1) return 1; }\n",
    "util.hpp": "  { G g; square(g); if (parmcb::has_loops(g) || parmcb::has_multiple_edges(g) || parmcb::has_non_positive_weights(g, boost::get(boost::edge_weight, g))) return 1; G h; FILE *f = tmpfile(); if (f) { fputs(\"p edge 2 1\\ne 1 2 3\\n\", f); rewind(f); parmcb::read_dimacs_from_file(f, h); fclose(f); if (boost::num_edges(h) != 1) return 1; } }\n",
    "parmcb_sva_signed.hpp": EXACT % "mcb_sva_signed",
    "parmcb_sva_trees.hpp": EXACT % "mcb_sva_fvs_trees" + EXACT % "mcb_sva_iso_trees",
    "parmcb_approx_sva_signed.hpp": APPROX % "approx_mcb_sva_signed",
    "parmcb_approx_sva_trees.hpp": APPROX % "approx_mcb_sva_fvs_trees" + APPROX % "approx_mcb_sva_iso_trees",
}
TBB_SNIPPETS = {
    "util.hpp": "  parmcb::set_global_tbb_concurrency(2);\n",
    "parmcb_sva_signed_tbb.hpp": EXACT % "mcb_sva_signed_tbb",
    "parmcb_sva_trees.hpp": EXACT % "mcb_sva_fvs_trees_tbb" + EXACT % "mcb_sva_iso_trees_tbb",
    "parmcb_approx_sva_signed_tbb.hpp": APPROX % "approx_mcb_sva_signed_tbb",
    "parmcb_approx_sva_trees_tbb.hpp": APPROX % "approx_mcb_sva_fvs_trees_tbb" + APPROX % "approx_mcb_sva_iso_trees_tbb",
}
MPICALL = "  if (mpi_on) { boost::mpi::communicator world; G g; square(g); std::list<std::list<E> > out; double w = parmcb::%s(g, boost::get(boost::edge_weight, g), std::back_inserter(out), world); if (w != 4 || out.size() != 1) return 1; }\n"
MPI_SNIPPETS = {
    "mpi/parmcb_sva_trees.hpp": MPICALL % "mcb_sva_fvs_trees_mpi" + MPICALL % "mcb_sva_iso_trees_mpi",
    "mpi/parmcb.hpp": MPICALL % "mcb_sva_fvs_trees_mpi",
}
MPI_TBB_SNIPPETS = {
    "mpi/parmcb_sva_signed.hpp": MPICALL % "mcb_sva_signed_mpi",
    "mpi/parmcb.hpp": MPICALL % "mcb_sva_signed_mpi" + MPICALL % "mcb_sva_fvs_trees_tbb_mpi" + MPICALL % "mcb_sva_iso_trees_tbb_mpi",
}


def headers():
    root = os.path.join(vplib.REPO, "include/parmcb")
    r = []
    for d, _, fs in os.walk(root):
        r += [os.path.relpath(os.path.join(d, f), root) for f in fs if f.endswith((".hpp", ".h", ".hh"))]
    return sorted(r)


def snippet(h, config):
    on = vplib.CONFIGS[config]
    tbb, mpi = "PARMCB_HAVE_TBB" in on, "PARMCB_HAVE_MPI" in on
    s = SNIPPETS.get(h, "")
    if h == "parmcb.hpp":
        s = "".join(SNIPPETS[x] for x in SNIPPETS if x.startswith("parmcb_"))
        if tbb:
            s += "".join(TBB_SNIPPETS[x] for x in TBB_SNIPPETS if x.startswith("parmcb_"))
    if tbb:
        s += TBB_SNIPPETS.get(h, "")
    if mpi:
        s += MPI_SNIPPETS.get(h, "")
    if mpi and tbb:
        s += MPI_TBB_SNIPPETS.get(h, "")
    return s


class Compiler:
    def __init__(self, ctx, cxx, std, config):
        self.ctx, self.cxx, self.std, self.config = ctx, cxx, std, config
        on = vplib.CONFIGS[config]
        self.dir = os.path.join(ctx.work, "%s-%s-%s" % (os.path.basename(cxx).replace("+", "x"), std.replace("+", "x"), config))
        os.makedirs(self.dir, exist_ok=True)
        self.mpi = "PARMCB_HAVE_MPI" in on
        self.inc = ["-I" + os.path.join(vplib.REPO, "include"), "-I" + vplib.config_dir(config, ctx.work)]
        # a configuration without TBB or MPI must not need their headers: they are made unavailable
        blocked = ([] if "PARMCB_HAVE_TBB" in on else ["tbb", "oneapi"]) + ([] if self.mpi else ["mpi.h", "boost/mpi.hpp", "boost/mpi"])
        self.blocked = blocked
        self.libs = ["-lboost_timer", "-lboost_serialization"] + ([] if "tbb" in blocked else ["-ltbb"]) + ["-lpthread"]
        if self.mpi:
            c, l = vplib.mpi_flags()
            self.inc += c
            self.libs = l + self.libs
        self.block = []
        for b in blocked:
            d = os.path.join(self.dir, "blocked")
            self.block = ["-I" + d]
            for name in BLOCKED_FILES.get(b, [b]):
                p = os.path.join(d, name)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f:
                    f.write('#error "%s is not available in this configuration"\n' % name)

    def name(self):
        return "%s -std=%s, configuration %s" % (os.path.basename(self.cxx), self.std, self.config)

    def compile(self, tag, text, syntax=False):
        src = os.path.join(self.dir, tag + ".cpp")
        open(src, "w").write(text)
        obj = os.path.join(self.dir, tag + ".o")
        cmd = [self.cxx, "-std=" + self.std, "-w", "-O0"] + self.block + self.inc + (["-fsyntax-only"] if syntax else ["-c", "-o", obj]) + [src]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            raise vplib.CheckError("compiler timed out on " + tag)
        if r.returncode != 0 and re.search(r"Killed|internal compiler error|cannot allocate|No space left", r.stderr):
            raise vplib.CheckError("compiler failure on %s: %s" % (tag, r.stderr[-500:]))
        self.ctx.count("compiled")
        with self.ctx.lock:
            self.ctx.evaluations += 1
        self.ctx.distinct(text + self.name())
        return r.returncode == 0, errors(r.stderr), obj

    def link(self, tag, objs):
        exe = os.path.join(self.dir, tag)
        r = subprocess.run([self.cxx] + objs + ["-o", exe] + self.libs, capture_output=True, text=True, timeout=300)
        self.ctx.count("linked")
        with self.ctx.lock:
            self.ctx.evaluations += 1
        return r.returncode == 0, r.stderr, exe


BLOCKED_FILES = {
    "tbb": ["tbb/" + f for f in os.listdir("/usr/include/tbb")] if os.path.isdir("/usr/include/tbb") else ["tbb/tbb.h"],
    "oneapi": ["oneapi/tbb.h"] + (["oneapi/tbb/" + f for f in os.listdir("/usr/include/oneapi/tbb") if f.endswith(".h")] if os.path.isdir("/usr/include/oneapi/tbb") else []),
    "boost/mpi": ["boost/mpi/" + f for f in os.listdir("/usr/include/boost/mpi") if f.endswith(".hpp")] if os.path.isdir("/usr/include/boost/mpi") else [],
}


def errors(text):
    return "\n".join(l for l in text.splitlines() if re.search(r"error", l))[:900] or text[:900]


def ident(h):
    return re.sub(r"\W", "_", h)


def unit(h, config, copy, prelude="", use=True):
    s = snippet(h, config) if use else ""
    return prelude + "#include <parmcb/%s>\n" % h + (GRAPH if s else "") + "int use_%s_%d(int mpi_on) {\n  (void) mpi_on;\n%s  return 0;\n}\n" % (ident(h), copy, s)


WIDE = '#include "vp_std.hpp"\n#include <boost/config.hpp>\n#include <boost/graph/graph_traits.hpp>\n#include <boost/graph/adjacency_list.hpp>\n#include <boost/property_map/property_map.hpp>\n#include <boost/timer/timer.hpp>\n#include <boost/tuple/tuple.hpp>\n'


def run(ctx):
    hs = headers()
    if not hs:
        raise vplib.CheckError("no headers under include/parmcb")
    ctx.extra["headers"] = hs
    ctx.rule = "every header below include/parmcb is compiled alone and first, with each compiler and configuration listed; distinct = different program text, compiler or configuration"
    clang = vplib.CLANGXX
    full = [(vplib.GXX, "c++14", "default"), (vplib.GXX, "c++14", "plain")]
    syntax = [(clang, "c++14", "default"), (vplib.GXX, "c++14", "notbb"), (vplib.GXX, "c++14", "nompi")]
    if not ctx.quick:
        full += [(clang, "c++14", "default"), (clang, "c++14", "plain"), (vplib.GXX, "c++17", "default"), (vplib.GXX, "c++20", "plain"),
                 (vplib.GXX, "c++14", "notbb"), (vplib.GXX, "c++14", "nompi"), (vplib.GXX, "c++14", "logging"), (vplib.GXX, "c++14", "noinv")]
        syntax += [(clang, "c++17", "notbb"), (clang, "c++20", "nompi"), (clang, "c++14", "logging"), (vplib.GXX, "c++14", "bare"), (clang, "c++14", "bare"), (vplib.GXX, "c++23", "default")]
    ctx.extra["compilers"] = {"compiled, instantiated, linked and run": ["%s %s %s" % x for x in full], "compiled": ["%s %s %s" % x for x in syntax]}
    comp = {x: Compiler(ctx, *x) for x in full + syntax}
    rng = random.Random(ctx.seed)

    def one(c, h, copy, mode):
        """Compile header h alone; mode 'full' (with use, to an object) or 'syntax'."""
        where = "%s: <parmcb/%s>" % (c.name(), h)
        if mode == "syntax":
            twice = "#include <parmcb/%s>\n#include <parmcb/%s>\nint main() { return 0; }\n" % (h, h)
            ok, err, _ = c.compile("syn_%s" % ident(h), twice, True)
            if not ok:
                ok1, err1, _ = c.compile("syn1_%s" % ident(h), "#include <parmcb/%s>\nint main() { return 0; }\n" % h, True)
                if ok1:
                    ctx.fail("twice:%s" % h, where + " does not compile when it is included twice", err)
                else:
                    ctx.fail("alone:%s" % h, where + " does not compile when it is the only header included", err1)
            return None
        ok, err, obj = c.compile("u_%s_%d" % (ident(h), copy), unit(h, c.config, copy, use=mode == "full"))
        if ok:
            return obj
        ok0, err0, obj0 = c.compile("u0_%s_%d" % (ident(h), copy), unit(h, c.config, copy, use=False))
        if not ok0:
            ctx.fail("alone:%s" % h, where + " does not compile when it is the only parmcb header included", err0)
            return None
        # the header compiles, its use does not: is that a missing include, or did the interface change?
        wide = WIDE + ("#include <tbb/tbb.h>\n" if "tbb" not in c.blocked else "") + ("#include <boost/mpi.hpp>\n" if c.mpi else "")
        cc = c.inc
        c.inc = cc + ["-I" + vplib.HARNESS]
        ok2, err2, _ = c.compile("w_%s_%d" % (ident(h), copy), unit(h, c.config, copy, wide))
        c.inc = cc
        if ok2:
            ctx.fail("use:%s" % h, where + " compiles alone but cannot be used without other headers being included first", err)
        else:
            with ctx.lock:
                ctx.inconclusive.append("%s: the sample use does not compile: %s" % (where, err2[:300]))
        return obj0

    with ThreadPoolExecutor(max_workers=vplib.NCPU) as ex:
        jobs = []
        for x in full:
            for h in hs:
                for copy in (0, 1):
                    jobs.append((x, h, copy, ex.submit(one, comp[x], h, copy, "full" if copy == 0 or not ctx.quick else "nouse")))
        for x in syntax:
            for h in hs:
                jobs.append((x, h, 0, ex.submit(one, comp[x], h, 0, "syntax")))
        # all headers in one unit, in several orders
        orders = [hs, hs[::-1]] + [rng.sample(hs, len(hs)) for _ in range(2 if ctx.quick else 12)]
        together = [(o, ex.submit(comp[full[i % 2]].compile, "order%d" % i, "".join("#include <parmcb/%s>\n" % h for h in o) + "int main() { return 0; }\n", True)) for i, o in enumerate(orders)]
        objs = {}
        for x, h, copy, f in jobs:
            o = f.result()
            if o:
                objs.setdefault(x, {})[(h, copy)] = o
        for o, f in together:
            ok, err, _ = f.result()
            if not ok:
                bad = set(v["key"].split(":", 1)[1] for v in ctx.violations if v["key"].startswith(("alone:", "twice:")))
                if not bad:
                    ctx.fail("together", "the headers cannot all be included in one translation unit, order: " + " ".join(o), err)
        # programs of several translation units
        def program(x):
            c = comp[x]
            mine = objs.get(x, {})
            calls = sorted(mine)
            mpiinit = c.mpi
            main = ("#include <boost/mpi/environment.hpp>\n" if mpiinit else "") + "#include <cstdio>\n" + "".join("int use_%s_%d(int);\n" % (ident(h), k) for h, k in calls) + \
                "int main(int argc, char **argv) {\n" + ("  int on = argc > 1;\n  if (on) { static boost::mpi::environment env(argc, argv); }\n" if mpiinit else "  int on = 0;\n") + \
                "".join('  if (use_%s_%d(on)) { std::printf("wrong result in the unit of %s\\n"); return 1; }\n' % (ident(h), k, h) for h, k in calls) + "  return 0;\n}\n"
            ok, err, mo = c.compile("main", main)
            if not ok:
                raise vplib.CheckError("main unit: " + err)
            ok, err, exe = c.link("program", [mo] + [mine[k] for k in calls])
            ctx.count("translation_units_linked_together", len(calls))
            if not ok:
                dup = re.findall(r"multiple definition of [`']([^']*)'", err)
                owners = sorted(set(ident(m) for m in re.findall(r"u0?_(\w+?)_[01]\.o", err)))
                if dup:
                    for d in sorted(set(dup)):
                        ctx.fail("link:multiple-definition:%s" % re.sub(r"\(.*", "", d), "%s: a program of several translation units does not link: multiple definition of %s" % (c.name(), d),
                                 "units of " + ", ".join(owners[:40]))
                else:
                    und = re.findall(r"undefined reference to [`']([^']*)'", err)
                    ctx.fail("link:undefined:%s" % (re.sub(r"\(.*", "", und[0]) if und else "?"), "%s: a program of several translation units does not link: %s" % (c.name(), err[-600:]), "")
                return
            r = subprocess.run([exe], capture_output=True, text=True, timeout=300)
            ctx.count("programs_run")
            if r.returncode != 0:
                with ctx.lock:
                    ctx.inconclusive.append("%s: the linked program failed: %s" % (c.name(), (r.stdout + r.stderr)[-300:]))
        for f in [ex.submit(program, x) for x in full]:
            f.result()
        # every pair of units (quick: the pairs that involve an umbrella header), as programs of their own
        pairs = []
        for x in full[:1] if ctx.quick else full:
            mine = objs.get(x, {})
            for a in hs:
                for b in hs:
                    if a <= b and (a, 0) in mine and (b, 1) in mine and (not ctx.quick or a.endswith("parmcb.hpp") or b.endswith("parmcb.hpp")):
                        pairs.append((x, a, b))

        def pair(x, a, b):
            c = comp[x]
            tag = "pair_%s_%s" % (ident(a), ident(b))
            ok, err, mo = True, "", os.path.join(c.dir, "pairmain.o")
            ok, err, exe = c.link(tag, [mo, objs[x][(a, 0)], objs[x][(b, 1)]])
            try:
                os.unlink(exe)
            except OSError:
                pass
            if not ok:
                ctx.fail("pair:%s" % ("+".join(sorted({a, b}))), "%s: a program of two translation units including <parmcb/%s> and <parmcb/%s> does not link" % (c.name(), a, b), errors(err))
        for x in full:
            comp[x].compile("pairmain", "int main() { return 0; }\n")
        if not any(v["key"].startswith("link:") for v in ctx.violations):
            for f in [ex.submit(pair, *p) for p in pairs]:
                f.result()
            ctx.count("pairs_linked", len(pairs))
    for h in hs[:6]:
        ctx.sample("#include <parmcb/%s> alone" % h)
