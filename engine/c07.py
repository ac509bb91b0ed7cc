"""C07: the adjacency decomposition driver (initialization, workers, joining)."""
import re
from concurrent.futures import ProcessPoolExecutor
import vp
from absint import Program, State, Unknown, I, P, const, where
from rows import RowsInterp, text_of, NULL

H = r'''
#include <tuple>
#include "job_manager.h"
#include "job_manager_proxy.h"
#include "method_adjacency_decomposition_implementation.h"
#include "tags.h"
#include <new>
using namespace panda;
using Data = std::tuple<Matrix<int>, Names, Maps, Matrix<int>>;
extern "C" {
unsigned long vp_size() { return sizeof(Data); }
void* vp_m0(Data* d) { return &std::get<0>(*d); }
void* vp_m1(Data* d) { return &std::get<1>(*d); }
void* vp_m2(Data* d) { return &std::get<2>(*d); }
void* vp_m3(Data* d) { return &std::get<3>(*d); }
void vp_facet(int argc, char** argv, const Data* d) { implementation::adjacencyDecomposition<JobManager>(argc, argv, *d, tag::facet{}); }
void vp_vertex(int argc, char** argv, const Data* d) { implementation::adjacencyDecomposition<JobManager>(argc, argv, *d, tag::vertex{}); }
}
'''
MAXJOBS = 2
INPUT = ("I0", "I1")
FME = ("F0", "F1")
_prog = None


class Driver(RowsInterp):
    def __init__(self, prog, cfg, early):
        self.cfg = cfg
        al = "panda::algorithm::"
        super().__init__(prog, {
            r"^panda::mpi::getSession\(": lambda i, s, ins, a, d: [(s, ("p", s.alloc(8, name="session"), P(0)))],
            r"^panda::mpi::Session::getNumberOfNodes": lambda i, s, ins, a, d: [(s, I(32, P(1)))],
            r"^panda::mpi::Session::isMaster": lambda i, s, ins, a, d: [(s, I(1, P(1)))],
            r"^panda::concurrency::numberOfThreads": self.h_threads,
            r"^panda::JobManager<.*>::JobManager\(": self.h_pool,
            r"^panda::JobManager<.*>::~JobManager\(": self.h_unpool,
            r"^panda::JobManager<.*>::put\(std::vector<std::vector<": self.h_putm,
            r"^panda::JobManager<.*>::put\(std::vector<int": self.h_putr,
            r"^panda::JobManager<.*>::get\(": self.h_get,
            al + r"rotation<": self.h_rotation,
            al + r"normalize<": self.h_normalize,
            al + r"classRepresentative<": self.h_rep,
            al + r"fourierMotzkinElimination(Heuristic)?<": self.h_fme,
            al + r"extractEquations<": self.h_eq,
            al + r"prettyPrint(ln)?<": self.h_pretty,
        }, early=early, max_states=3000, max_steps=60000, check_ub=True)

    def bad(self, st, what):
        st.notes["bad"] = st.notes.get("bad", ()) + (what,)

    def h_threads(self, i, st, ins, a, d):
        out = []
        for n in (1, 2):
            s = st.copy()
            s.notes["n"] = n
            out.append((s, I(32, P(n))))
        return out

    def h_pool(self, i, st, ins, a, d):
        n = st.notes.get("n")
        self.event(st, "pool", self.names(st, a[1]), const(a[2][2]) if a[2][0] == "i" else None, const(a[3][2]) if a[3][0] == "i" else None)
        st.notes["pool"] = a[0][1]
        return [(st, None)]

    def names(self, st, p):
        v = self.ptrcell(st, st.mem[p[1]], const(p[2]))
        return v[1] if v else None

    def h_unpool(self, i, st, ins, a, d):
        self.event(st, "unpool")
        st.notes["pool"] = None
        return [(st, None)]

    def alive(self, st, a):
        if a[0] != "p" or a[1] != st.notes.get("pool"):
            self.bad(st, "the job pool is used before it is constructed or after it is destroyed")

    def h_putm(self, i, st, ins, a, d):
        self.alive(st, a[0])
        self.event(st, "putm", self.rowskey(st, a[1]))
        return [(st, None)]

    def h_putr(self, i, st, ins, a, d):
        self.alive(st, a[0])
        self.event(st, "putr", self.rowkey(st, a[1]))
        return [(st, None)]

    def h_get(self, i, st, ins, a, d):
        self.alive(st, a[1])
        n = len([e for e in st.notes["events"] if e[0] == st.notes["who"] and e[1] == "get" and e[2]])
        out = []
        for key in ([""] if n >= MAXJOBS else ["", "J%d of %s" % (n, st.notes["who"])]):
            s = st.copy()
            self.event(s, "get", key)
            if not key and not self.early and not any(e[1] == "putm" and not e[0].startswith("worker") for e in s.notes["events"]):
                self.bad(s, "the driver waits for a worker although the pool is not initialized yet (deadlock)")
            self.mk_row(s, key, a[0])
            out.append((s, None))
        return out

    def h_rotation(self, i, st, ins, a, d):
        self.event(st, "rotation", self.rowskey(st, a[1]), self.rowkey(st, a[2]), self.mapskey(st, a[3]), "facet" if "facet" in d.split("rotation<")[1].split(">")[0] else "vertex")
        out = []
        for k in (2, 0):
            s = st.copy()
            self.mk_matrix(s, ["%s.neighbor%d" % (self.rowkey(s, a[2]), j) for j in range(k)], a[0])
            out.append((s, None))
        return out

    def h_normalize(self, i, st, ins, a, d):
        t = self.tok(st, a[1])
        eq = self.rowskey(st, a[2])
        if t and t[0] == "row":
            self.mk_row(st, "norm(%s)" % t[1] if eq else t[1], a[0])
        elif t and t[0] == "maps":
            self.mk_maps(st, "norm(%s)" % t[1] if eq else t[1], a[0])
        elif t and t[0] == "empty":
            for k in (0, 8, 16):
                st.mem[a[0][1]].cells[const(a[0][2]) + k] = (8, NULL)
        else:
            raise Unknown("normalize")
        if eq and eq != ("E0",):
            self.bad(st, "normalization uses other equations than those of the input")
        return [(st, None)]

    def h_rep(self, i, st, ins, a, d):
        k, m = self.rowkey(st, a[1]), self.mapskey(st, a[2])
        tag = "facet" if "facet" in d.split("classRepresentative<")[1].split(">")[0] else "vertex"
        if tag != self.cfg["tag"]:
            self.bad(st, "class representative computed for the wrong kind of rows")
        self.mk_row(st, "rep[%s](%s)" % (m, k) if m else k, a[0])
        return [(st, None)]

    def h_fme(self, i, st, ins, a, d):
        if self.rowskey(st, a[1]) != INPUT:
            self.bad(st, "the first rows are computed from something else than the input")
        self.mk_matrix(st, FME, a[0])
        return [(st, None)]

    def h_eq(self, i, st, ins, a, d):
        if self.rowskey(st, a[1]) != INPUT:
            self.bad(st, "equations are computed from something else than the input")
        self.mk_matrix(st, ["E0"] if self.cfg["eq"] else [], a[0])
        return [(st, None)]

    def h_pretty(self, i, st, ins, a, d):
        t = self.tok(st, a[1])
        self.event(st, "out" if a[0][1] == "@_ZSt4cout" else "err", t, self.literal(st, a[3]))
        return [(st, None)]


def prog():
    global _prog
    if _prog is None:
        bcs = vp.compile_units([vp.harness(H, "driver")] + [vp.SRC + "/" + f for f in
                               ("method_adjacency_decomposition_implementation.cpp", "joining_thread.cpp")])
        _prog = vp.export(bcs, roots=[r"^vp_"], reach=True)
    return _prog


@vp.guard(1)
def run(job):
    path, cfg, early = job
    p = Program(path)
    it = Driver(p, cfg, early)
    st = State()
    it.setup(st)
    # member offsets of the input data
    offs = []
    for k in range(4):
        s = State()
        it.setup(s)
        d = s.alloc(200, name="d")
        r = it.call_fn(s, "vp_m%d" % k, [("p", d, P(0))])
        offs.append(const(r[0][2][2]))
    d = st.alloc(96, name="input data")
    it.mk_matrix(st, INPUT, ("p", d, P(offs[0])))
    it.cells3(st, ("p", d, P(offs[1])), st.alloc(8, name="names"), 0)
    nm = it.names(st, ("p", d, P(offs[1])))
    it.mk_maps(st, "maps" if cfg["maps"] else "", ("p", d, P(offs[2])))
    it.mk_matrix(st, ["K%d" % k for k in range(cfg["known"])], ("p", d, P(offs[3])))
    out = it.call_fn(st, "vp_" + cfg["tag"], [I(32, P(1)), ("p", st.alloc(8, name="argv"), P(0)), ("p", d, P(0))])
    found, und, n = vp.PARTIAL, [], 0
    for kind, w, s in it.ub:
        found.append(("%s at %s" % (kind, w), w, None))
    for r in out:
        if r[0] == "unknown":
            und.append(r[2])
            continue
        n += 1
        for what in judge(cfg, r, nm, early):
            found.append((what, "src/method_adjacency_decomposition_implementation.cpp", str(cfg) + " early=%s" % early))
    return found, und, n, sum(len(r[1].notes["events"]) for r in out)


def judge(cfg, r, nm, early):
    kind, st = r[0], r[1]
    ev = st.notes["events"]
    for b in st.notes.get("bad", ()):
        yield b
    if kind == "terminate":
        yield "the program is terminated: %s" % r[2]
        return
    if kind == "throw":
        yield "an exception (%s) leaves the driver although nothing failed" % r[2]
        return
    eq = cfg["eq"] and cfg["tag"] == "facet"
    m = "" if not cfg["maps"] else "norm(maps)" if eq else "maps"
    rep = lambda x: "rep[%s](%s)" % (m, x) if m else x
    norm = lambda x: "norm(%s)" % x if eq else x
    n = st.notes.get("n")
    pools = [e for e in ev if e[1] == "pool"]
    if len(pools) != 1:
        yield "expected exactly one job pool, found %d" % len(pools)
        return
    if pools[0][2] != nm:
        yield "the job pool does not get the names of the input"
    workers = [e[2] for e in ev if e[1] == "start" and e[2].startswith("worker")]
    if len(workers) != n:
        yield "%d worker threads are started although %s threads are requested" % (len(workers), n)
    ended = [e[2] for e in ev if e[1] == "end"]
    up = [k for k, e in enumerate(ev) if e[1] == "unpool"]
    for w in [e[2] for e in ev if e[1] == "start"]:
        if any(e[1] == "detach" and e[2] == w for e in ev):
            yield "a thread is detached: nothing waits for it"
        elif w.startswith("worker") and not any(e[1] == "join" and e[2] == w for e in ev):
            yield "a worker thread is never joined"
        elif w not in ended:
            yield "an asynchronous task never runs or is not waited for"
    # initialization: everything put by other threads than the workers
    init = [e for e in ev if not e[0].startswith("worker") and e[1] in ("putm", "putr")]
    putm = [e for e in init if e[1] == "putm"]
    if len(putm) != 1:
        yield "the initialization reports itself as done %d times instead of once" % len(putm)
    else:
        rows = putm[0][2]
        if cfg["known"]:
            want = [rep(norm("K%d" % k)) for k in range(cfg["known"])]
            if not rows or any(x not in want for x in rows):
                yield "with known rows, the pool must be initialized with representatives of (normalized) known rows, found %s" % (rows,)
        else:
            if sorted(rows) != sorted(rep(x) for x in FME):
                yield "the pool must be initialized with the representatives of all rows of the heuristic, found %s" % (rows,)
    allputs = set()
    for e in init:
        allputs |= set(e[2]) if e[1] == "putm" else {e[2]}
    for k in range(cfg["known"]):
        if rep(norm("K%d" % k)) not in allputs:
            yield "a known row is not added to the pool as its (normalized) representative, added: %s" % sorted(allputs)
    okset = {rep(norm("K%d" % k)) for k in range(cfg["known"])} | ({rep(x) for x in FME} if not cfg["known"] else set())
    if not allputs <= okset:
        yield "rows other than representatives of normalized known rows are added to the pool: %s" % sorted(allputs - okset)
    # workers
    for w in workers:
        mine = [e for e in ev if e[0] == w and e[1] in ("get", "putm", "putr", "rotation")]
        i = 0
        while i < len(mine):
            e = mine[i]
            if e[1] != "get":
                yield "a worker performs %s without having taken a job" % e[1]
                break
            if e[2] == "":
                if i + 1 < len(mine):
                    yield "a worker continues after it was told to stop"
                break
            job = e[2]
            rest = []
            i += 1
            while i < len(mine) and mine[i][1] != "get":
                rest.append(mine[i])
                i += 1
            rot = [x for x in rest if x[1] == "rotation"]
            if not rot or any(x[2:] != (INPUT, job, m, cfg["tag"]) for x in rot):
                yield "a job is not processed by the rotation of that row with the input and the (normalized) maps: %s" % (rot,)
                break
            pm = [x for x in rest if x[1] == "putm"]
            if len(pm) != 1:
                yield "a worker reports its job as done %d times" % len(pm)
                break
            if [x for x in rest if x[1] == "putr" and not x[2].startswith(job + ".")]:
                yield "a worker adds a row that is not a result of its job"
            res = set(pm[0][2]) | {x[2] for x in rest if x[1] == "putr"}
            full = {job + ".neighbor0", job + ".neighbor1"}
            if res and res != full:
                yield "a worker does not put exactly the rows found for its job (found %s)" % sorted(res)
            if rest and rest[-1] is not pm[0] and rest[-1][1] in ("rotation", "putr"):
                yield "a worker continues with its job after reporting it as done"
            st.notes.setdefault("results", set())
        else:
            if not mine or mine[-1][1] != "get" or mine[-1][2] != "":
                yield "a worker stops without being told to"
    # headings
    first = min([k for k, e in enumerate(ev) if e[1] in ("putm", "putr")], default=len(ev))
    want = []
    if eq:
        want += ["Equations:\n", ("rows", ("E0",)), "\n"]
    h = ("Reduced " if cfg["maps"] else "") + ("Inequalities" if cfg["tag"] == "facet" else "Vertices / Rays") + ":\n"
    if want:
        want[-1] += h
    else:
        want = [h]
    got = text_of([e for e in ev[:first]])
    if got != want:
        yield "the heading written before the first row is %r instead of %r" % (got, want)
    if text_of(ev[first:]):
        yield "the driver writes to the standard output after rows may have been written: %r" % (text_of(ev[first:]),)


def check(c):
    path = prog()
    jobs = []
    for tag in ("facet", "vertex"):
        for known in (0, 1, 2):
            for eq in ((False, True) if tag == "facet" else (False,)):
                for maps in (False, True):
                    for early in (False, True):
                        jobs.append((path, dict(tag=tag, known=known, eq=eq, maps=maps), early))
    n = ev = 0
    with ProcessPoolExecutor(8) as ex:
        for found, und, k, e in ex.map(run, jobs):
            n += k
            ev += e
            for what, w, cfg in found:
                c.violation(re.sub(r"\s+", " ", what)[:80], w.replace(vp.REPO + "/", ""), what)
                c.coverage.setdefault("configurations_violated", []).append(cfg)
            for u in und:
                if u not in c.undecided:
                    c.undecided.append(u)
    c.coverage.update(configurations=len(jobs), paths=n, events_judged=ev, undecided_paths=len(c.undecided),
                      rule="event sequence of the driver (pool construction, puts, gets, thread starts/joins, task collection, output) judged against the protocol")
    c.assumptions += ["std::thread, std::async and containers as specified", "no allocation or thread creation failure",
                      "functions called by the driver (rotation, normalize, classRepresentative, elimination) are uninterpreted"]
    if n == 0:
        raise vp.Broken("%d paths decided: %s" % (n, c.undecided[:3]))


if __name__ == "__main__":
    vp.main("C07", "abstract interpretation over row tokens and thread/future typestate", check)
