"""Building and running the command-line programs of /repo/src: files, option combinations, observation."""
import os, random, re, shutil, signal, subprocess, time
from vplib import *

LIBS = ["-lboost_program_options", "-lboost_timer", "-lboost_thread", "-ltbb", "-lpthread"]
SEQ = ["mcb-dimacs", "approx-mcb-dimacs", "collection-stats-dimacs"]
MPI = "mcb-dimacs-mpi"


def spec(name, flavour):
    """flavour: 'opt' (as CMake's Release build), 'trace' (assertions on, every entered function is recorded)."""
    mpi = name == MPI
    kw = dict(srcs=[os.path.join(REPO, "src", name + ".cpp")], mpi=mpi)
    if flavour == "opt":
        kw.update(flags=["-O1"], libs=LIBS, ndebug=True)
    else:
        kw["srcs"].append(os.path.join(HARNESS, "vp_trace.cpp"))
        kw.update(flags=["-O0", "-rdynamic", "-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/include,/usr/lib"], libs=LIBS + ["-ldl"], ndebug=False)
    return (("demo-%s-%s" % (name, flavour),), kw)


def build_demos(names, flavours):
    keys = [(n, f) for n in names for f in flavours]
    return dict(zip(keys, build_many([spec(n, f) for n, f in keys])))


def build_spy():
    return build("tbbspy.so", srcs=["vp_tbbspy.cpp"], flags=["-O1", "-fPIC", "-shared"], libs=["-ltbb", "-ldl"])


# ------------------------------------------------------------------ graphs and an exact reference
class G:
    """Simple graph on vertices 1..n with weights that are integers in units of 1/scale."""

    def __init__(self, n, edges, scale=1, name=""):
        self.n, self.e, self.scale, self.name = n, edges, scale, name

    def dim(self):
        p = list(range(self.n + 1))

        def f(x):
            while p[x] != x:
                p[x] = p[p[x]]
                x = p[x]
            return x
        c = self.n
        for u, v, w in self.e:
            a, b = f(u), f(v)
            if a != b:
                p[a] = b
                c -= 1
        return len(self.e) - self.n + c

    def optimum(self):
        """Weight of a minimum cycle basis: Horton's candidates and matroid greedy, in exact integers."""
        import heapq
        n, E = self.n, self.e
        adj = [[] for _ in range(n + 1)]
        for i, (u, v, w) in enumerate(E):
            adj[u].append((v, i))
            adj[v].append((u, i))
        cand = {}
        for s in range(1, n + 1):
            if not adj[s]:
                continue
            dist, par = {s: 0}, {s: 0}  # par: edge set (bitmask) of the tree path
            q, done = [(0, s)], set()
            while q:
                d, x = heapq.heappop(q)
                if x in done:
                    continue
                done.add(x)
                for y, i in adj[x]:
                    nd = d + E[i][2]
                    if y not in dist or nd < dist[y]:
                        dist[y] = nd
                        par[y] = par[x] | (1 << i)
                        heapq.heappush(q, (nd, y))
            for i, (u, v, w) in enumerate(E):
                if u in dist:
                    c = par[u] ^ par[v] ^ (1 << i)
                    if c and not (par[u] & par[v]) and not ((par[u] | par[v]) >> i & 1):
                        cand[c] = dist[u] + dist[v] + w
        rows, total, dim = {}, 0, self.dim()
        for w, c in sorted((w, c) for c, w in cand.items()):
            x = c
            while x:
                h = x.bit_length() - 1
                if h in rows:
                    x ^= rows[h]
                else:
                    rows[h] = x
                    total += w
                    break
            if len(rows) == dim:
                break
        # Horton's cycles through non-disjoint paths are sums of lighter ones: the candidates always span
        assert len(rows) == dim, "reference did not find a basis"
        return total

    def wtext(self, w):
        if self.scale == 1:
            return str(w)
        return repr(w / self.scale)

    def text(self, rng=None, style=0):
        """DIMACS; styles vary the line letters, comments, the last newline and omitted unit weights."""
        r = rng or random.Random(0)
        out = []
        if style & 1:
            out.append("c generated\n")
        out.append("p %s %d %d\n" % (r.choice(["edge", "sp", "col"]), self.n, len(self.e)))
        for u, v, w in self.e:
            if style & 2 and r.random() < .1:
                out.append(r.choice(["c a comment\n", "# another\n", "c e 1 1 -1\n"]))
            l = "a" if style & 4 and r.random() < .5 else "e"
            if self.scale == 1 and w == 1 and style & 8:
                out.append("%s %d %d\n" % (l, u, v))
            else:
                out.append("%s %d %d %s\n" % (l, u, v, self.wtext(w)))
        t = "".join(out)
        if style & 16:
            t = t.rstrip("\n")
        return t


def random_graph(r, big=False):
    kind = r.choice(["gnm", "gnm", "grid", "complete", "cycle", "tree", "theta", "petersen", "two", "wheel", "empty", "bipartite", "cactus"])
    E = set()

    def add(u, v):
        if u != v:
            E.add((min(u, v), max(u, v)))
    n = r.randint(4, 16)
    if kind == "gnm":
        n = r.randint(3, 24 if not big else 40)
        m = r.randint(n - 1, min(n * (n - 1) // 2, 3 * n))
        while len(E) < m:
            add(r.randint(1, n), r.randint(1, n))
    elif kind == "grid":
        a, b = r.randint(2, 5), r.randint(2, 5)
        n = a * b
        for i in range(a):
            for j in range(b):
                if j + 1 < b: add(i * b + j + 1, i * b + j + 2)
                if i + 1 < a: add(i * b + j + 1, (i + 1) * b + j + 1)
    elif kind == "complete":
        n = r.randint(3, 9)
        for u in range(1, n + 1):
            for v in range(u + 1, n + 1): add(u, v)
    elif kind == "cycle":
        for u in range(1, n + 1): add(u, u % n + 1)
    elif kind == "tree":
        for u in range(2, n + 1): add(u, r.randint(1, u - 1))
    elif kind == "theta":
        n = 2
        for _ in range(r.randint(2, 5)):
            prev = 1
            for _ in range(r.randint(1, 4)):
                n += 1
                add(prev, n)
                prev = n
            add(prev, 2)
    elif kind == "petersen":
        n = 10
        for i in range(5):
            add(i + 1, (i + 1) % 5 + 1); add(i + 1, i + 6); add(i + 6, (i + 2) % 5 + 6)
    elif kind == "two":
        h = n // 2
        for lo, hi in ((1, h), (h + 1, n)):
            for u in range(lo, hi + 1):
                for v in range(u + 1, hi + 1):
                    if r.random() < .6: add(u, v)
    elif kind == "wheel":
        for u in range(2, n + 1):
            add(1, u); add(u, u + 1 if u < n else 2)
    elif kind == "bipartite":
        a, b = r.randint(2, 5), r.randint(2, 5)
        n = a + b
        for u in range(1, a + 1):
            for v in range(a + 1, n + 1): add(u, v)
    elif kind == "cactus":
        n = 1
        for _ in range(r.randint(1, 5)):
            at, k = r.randint(1, n), r.randint(3, 5)
            vs = [at] + list(range(n + 1, n + k))
            n += k - 1
            for i in range(k): add(vs[i], vs[(i + 1) % k])
    elif kind == "empty":
        n = r.randint(0, 3)
    n += r.choice([0, 0, 0, 1, 3])  # isolated vertices
    perm = list(range(1, n + 1))
    r.shuffle(perm)
    edges = [(perm[u - 1], perm[v - 1]) for u, v in sorted(E)]
    r.shuffle(edges)
    edges = [(u, v) if r.random() < .5 else (v, u) for u, v in edges]
    wk = r.choice(["unit", "small", "ties", "big", "quarters", "small"])
    scale = 4 if wk == "quarters" else 1
    w = {"unit": lambda: 1, "small": lambda: r.randint(1, 20), "ties": lambda: r.randint(1, 3), "big": lambda: r.randint(1, 4000), "quarters": lambda: r.randint(1, 80)}[wk]
    return G(n, [(u, v, w()) for u, v in edges], scale, kind + "/" + wk)


# ------------------------------------------------------------------ running
class Run:
    pass


def run(cmd, env=None, timeout=30, cwd=None, preload=None, trace=None, spy=None):
    """Start a program in a session of its own; on timeout the whole session is ended."""
    e = dict(os.environ)
    e.update(env or {})
    if preload:
        e["LD_PRELOAD"] = preload
    if trace:
        e["VP_TRACE"] = trace
    if spy:
        e["VP_TBBSPY"] = spy
    r = Run()
    t = time.time()
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, preexec_fn=lambda: (os.setsid(), resource.setrlimit(resource.RLIMIT_CORE, (0, 0))))
    try:
        o, s = p.communicate(timeout=timeout)
        r.timeout = False
    except subprocess.TimeoutExpired:
        kill_session(p.pid)
        o, s = p.communicate()
        r.timeout = True
    r.rc, r.out, r.err, r.wall = p.returncode, o.decode("latin1"), s.decode("latin1"), time.time() - t
    r.cmd = cmd
    return r


def demangle(t):
    return subprocess.run(["c++filt"], input=t, capture_output=True, text=True).stdout


def weight(out):
    """The printed weight; None when none or different ones are printed."""
    m = set(re.findall(r"^MCB weight = (\S+)\s*$", out, re.M))
    return m.pop() if len(m) == 1 else None
