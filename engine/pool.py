"""C05 / C06: the shared pool of rows (class List behind JobManager).

The public operations of the pool are interpreted abstractly. Whenever the pool's mutex is
acquired, everything it guards takes an arbitrary value (other threads may have run): the
queue is any of a set of shapes, the counters are arbitrary symbols, membership of a row in
the set of known rows is unknown. Every critical section is recorded as (state at acquire,
events, state at release) and judged against the protocol."""
import vp
from absint import Interp, Program, State, Unknown, I, P, const, Obj
from poly import sym, add, addc, scale, mul

H = r'''
#include "job_manager.h"
#include <new>
using namespace panda;
using JM = JobManager<int, tag::%s>;
extern "C" {
void vp_put_row(const JM* l, const Row<int>* r) { l->put(*r); }
void vp_put_matrix(const JM* l, const Matrix<int>* r) { l->put(*r); }
void vp_get(const JM* l, Row<int>* out) { new (out) Row<int>(l->get()); }
void vp_make(JM* l, const Names* n) { new (l) JM(*n, 1, 1); }
}
'''
SENTINEL = "termination mark"
SHAPES = [(), ("A",), ("A", "B"), ("S",), ("A", "S"), ("S", "A")]


class Layout:
    def __init__(self, prog, tag):
        jm = [c for c in prog.classes.values() if c["name"] == "JobManager<int, panda::tag::%s>" % tag and c["members"]]
        ls = [c for c in prog.classes.values() if c["name"] == "List<int, panda::tag::%s>" % tag and c["members"]]
        if not jm or not ls:
            raise vp.Broken("class JobManager / List not found")
        self.jm, self.ls = jm[0], ls[0]
        off = [m[1] for m in self.jm["members"] if m[3].startswith("List<")]
        if len(off) != 1:
            raise vp.Broken("JobManager does not own exactly one List")
        self.base = off[0]
        self.size = self.jm["size"]
        self.guarded, self.ints = [], []
        self.mutex = self.cond = self.queue = self.set = None
        for n, o, s, t, quals in self.ls["members"]:
            o += self.base
            if t in ("mutex", "recursive_mutex", "timed_mutex"):
                self.mutex = o
                continue
            if t.startswith("condition_variable"):
                self.cond = o
                continue
            if "const_type" in quals or t.startswith("atomic"):
                continue
            self.guarded.append((o, o + s, n))
            if t.startswith("set<"):
                self.set = o
            elif t.startswith("vector<std::_Rb_tree_const_iterator"):
                self.queue = o
            elif s == 8 and t in ("unsigned long", "long", "unsigned int", "int"):
                self.ints.append((o, n))
        if None in (self.mutex, self.cond, self.queue, self.set) or not self.ints:
            raise vp.Broken("members of List not recognized")
        self.workers = None


class PoolInterp(Interp):
    def __init__(self, prog, lay, pid, check):
        self.lay = lay
        self.races = []
        self.guarded_accesses = 0
        super().__init__(prog, {
            r"^std::(recursive_)?mutex::lock\(": self.h_lock,
            r"^std::(recursive_)?mutex::unlock\(": self.h_unlock,
            r"^std::(recursive_)?mutex::try_lock\(": self.h_trylock,
            r"^std::condition_variable(_any)?::wait\(": self.h_wait,
            r"^std::condition_variable(_any)?::notify_one": lambda i, s, ins, a, d: self.h_notify(s, ins, a, "one"),
            r"^std::condition_variable(_any)?::notify_all": lambda i, s, ins, a, d: self.h_notify(s, ins, a, "all"),
            r"(^|> |\) )std::set<std::vector<int.*::(insert|emplace|emplace_hint)(<.*>)?\(": self.h_insert,
            r"^std::set<std::vector<int.*::(find|lower_bound)\(": self.h_find,
            r"^std::set<std::vector<int.*::count\(": self.h_count,
            r"^std::set<std::vector<int.*::(erase|clear|swap|operator=)": self.h_forbid,
            r"^std::(condition_variable(_any)?|mutex)::~?(condition_variable|mutex)": lambda i, s, ins, a, d: [(s, None)],
            r"^llvm\.threadlocal\.address": lambda i, s, ins, a, d: [(s, a[0])],
            r"^(bool )?std::operator(==|!=|<)<int,": self.h_cmp,
            r".": self.h_print,
        }, max_states=20000, max_steps=40000, check_ub=False)
        self.jm = None

    # --- state
    def setup(self, st):
        st.notes.update(held=False, sections=(), events=(), outside=(), pre=None, waits=0, known=(), bad=())
        self.jm = st.alloc(self.lay.size, name="pool")
        self.havoc_pool(st, ())
        return ("p", self.jm, P(0))

    def row(self, st, key, at=None):
        """a Row<int> object holding the row named key"""
        r = at or ("p", st.alloc(24, name="row"), P(0))
        o = st.mem[r[1]]
        off = const(r[2])
        if key == SENTINEL:
            for k in (0, 8, 16):
                o.cells[off + k] = (8, ("p", None, P(0)))
            return r
        b = st.alloc(4, name="elements")
        s = "row " + key
        if s not in st.poly.bounds:
            st.poly.new(s, -100, 100)
        st.mem[b].cells[0] = (4, I(32, sym(s)))
        for k, e in ((0, 0), (8, 4), (16, 4)):
            o.cells[off + k] = (8, ("p", b, P(e)))
        return r

    def key(self, st, ptr):
        """name of the row an object holds, or None"""
        if ptr[0] != "p" or ptr[1] is None or ptr[1] not in st.mem or const(ptr[2]) is None:
            return None
        o = st.mem[ptr[1]]
        off = const(ptr[2])
        b, e = o.cells.get(off), o.cells.get(off + 8)
        b = ("p", None, P(0)) if b is not None and b[1][0] == "zero" else b and b[1]
        e = ("p", None, P(0)) if e is not None and e[1][0] == "zero" else e and e[1]
        if b is None and o.zero:
            return SENTINEL
        if not b or not e or b[0] != "p" or e[0] != "p":
            return None
        if b[1] is None or (b[1] == e[1] and b[2] == e[2]):
            return SENTINEL
        bo = st.mem.get(b[1])
        if bo is None:
            return None
        c = bo.cells.get(const(b[2]))
        if not c or c[1][0] != "i":
            return None
        for m, v in c[1][2].items():
            if len(m) == 1 and v == 1 and m[0].startswith("row "):
                return m[0][4:]
        return None

    def node(self, st, key):
        n = "node " + key
        if n not in st.mem:
            o = Obj(56, False, n)
            st.mem[n] = o
            self.row(st, key, ("p", n, P(32)))
        return ("p", n, P(0))

    def havoc_pool(self, st, shape):
        o = st.mem[self.jm]
        for lo, hi, n in self.lay.guarded:
            for x in [x for x in o.cells if lo <= x < hi]:
                o.cells.pop(x)
        for off, n in self.lay.ints:
            o.cells[off] = (8, I(64, st.fresh(n, 0, 1 << 40)))
        q = st.alloc(8 * (len(shape) + 2), name="queue")
        for k, e in enumerate(shape):
            st.mem[q].cells[8 * k] = (8, self.node(st, SENTINEL if e == "S" else e))
        for k, v in ((0, 0), (8, 8 * len(shape)), (16, 8 * (len(shape) + 2))):
            o.cells[self.lay.queue + k] = (8, ("p", q, P(v)))
        # rows once known stay known; others may have been added meanwhile
        st.notes["known"] = tuple(x for x in st.notes["known"] if x[1])

    def snapshot(self, st):
        o = st.mem[self.jm]
        c = lambda off: o.cells.get(off, (0, ("?",)))[1]
        b, e = c(self.lay.queue), c(self.lay.queue + 8)
        q = None
        if b[0] in ("zero",) or (b[0] == "p" and b[1] is None):
            q = ()
        elif b[0] == "p" and e[0] == "p" and b[1] == e[1] and const(b[2]) is not None and const(e[2]) is not None:
            q = []
            for x in range(const(b[2]), const(e[2]), 8):
                v = st.mem[b[1]].cells.get(x)
                v = v and v[1]
                if not v or v[0] != "p" or v[1] is None:
                    q.append("?")
                elif v[1].startswith("node ") and const(v[2]) == 0:
                    q.append(v[1][5:])
                else:
                    q.append("?")
            q = tuple(q)
        ints = {}
        for off, n in self.lay.ints:
            v = c(off)
            ints[off] = v[2] if v[0] == "i" else P(0) if v[0] == "zero" else None
        return {"queue": q, "ints": ints, "known": dict(st.notes["known"])}

    # --- locks
    def ismutex(self, ptr):
        return ptr[0] == "p" and ptr[1] == self.jm and const(ptr[2]) == self.lay.mutex

    def acquire(self, st, then=None):
        out = []
        for sh in SHAPES:
            s = st.copy()
            self.havoc_pool(s, sh)
            s.notes["held"] = True
            s.notes["pre"] = self.snapshot(s)
            s.notes["outside"] = s.notes["outside"] + s.notes["events"]
            s.notes["events"] = ()
            out.append((s, then))
        return out

    def release(self, st):
        st.notes["held"] = False
        st.notes["sections"] += ({"pre": st.notes["pre"], "post": self.snapshot(st), "events": st.notes["events"]},)
        st.notes["events"] = ()

    def bad(self, st, what, ins):
        from absint import where
        st.notes["bad"] += ((what, where(ins)),)

    def h_lock(self, itp, st, ins, a, dem):
        if not self.ismutex(a[0]):
            return [(st, None)]
        if st.notes["held"]:
            self.bad(st, "the pool's mutex is locked while already held by the same thread", ins)
            return [("deadlock", st, None)]
        return self.acquire(st)

    def h_trylock(self, itp, st, ins, a, dem):
        if not self.ismutex(a[0]):
            return [(st, I(1, P(1)))]
        s = st.copy()
        return self.acquire(st, I(1, P(1))) + [(s, I(1, P(0)))]

    def h_unlock(self, itp, st, ins, a, dem):
        if not self.ismutex(a[0]):
            return [(st, None)]
        if not st.notes["held"]:
            self.bad(st, "the pool's mutex is unlocked but not held", ins)
        else:
            self.release(st)
        return [(st, None)]

    def h_wait(self, itp, st, ins, a, dem):
        if not st.notes["held"]:
            self.bad(st, "waiting on the condition without holding the pool's mutex", ins)
            return [("deadlock", st, None)]
        u = st.mem.get(a[1][1])
        m = u and u.cells.get(const(a[1][2]))
        if not m or not self.ismutex(m[1]):
            raise Unknown("wait on another lock")
        q = self.snapshot(st)["queue"]
        if q is None or len(q):
            # waiting although something is queued: nobody is obliged to wake this thread up
            self.bad(st, "a thread goes to sleep although the queue is not empty", ins)
        self.release(st)
        st.notes["waits"] += 1
        if st.notes["waits"] > 2:
            return []  # same abstract state as one iteration before
        return self.acquire(st)

    def h_notify(self, st, ins, a, kind):
        if a[0][0] == "p" and a[0][1] == self.jm and const(a[0][2]) == self.lay.cond:
            st.notes["events"] += (("notify", kind),)
        return [(st, None)]

    # --- the set of known rows
    def touch(self, st, off, size, write, ins):
        for lo, hi, n in self.lay.guarded:
            if off < hi and lo < off + size:
                self.guarded_accesses += 1
                if not st.notes["held"] and not st.notes.get("constructing"):
                    self.races.append((n, write, ins))

    def isset(self, ptr):
        return ptr[0] == "p" and ptr[1] == self.jm and const(ptr[2]) == self.lay.set

    def member(self, st, key):
        k = dict(st.notes["known"])
        if key in k:
            return [(st, k[key])]
        if key in ("A", "B"):
            return [(st, True)]
        out = []
        for v in (True, False):
            s = st.copy()
            s.notes["known"] += ((key, v),)
            out.append((s, v))
        return out

    def h_insert(self, itp, st, ins, a, dem):
        if not self.isset(a[0]):
            return None
        self.touch(st, self.lay.set, 48, True, ins)
        rowarg = a[-1]
        key = self.key(st, rowarg)
        if key is None:
            raise Unknown("inserted row not recognized")
        out = []
        for s, had in self.member(st, key):
            n = self.node(s, key)
            s.notes["known"] = tuple(x for x in s.notes["known"] if x[0] != key) + ((key, True),)
            s.notes["events"] += (("insert", key, not had),)
            if ins["ty"] == "ptr":
                out.append((s, n))
            else:
                out.append((s, ("agg", [n, I(8, P(0 if had else 1))])))
        return out

    def h_find(self, itp, st, ins, a, dem):
        if not self.isset(a[0]):
            return None
        self.touch(st, self.lay.set, 48, False, ins)
        if "lower_bound" in dem:
            raise Unknown("lower_bound")
        key = self.key(st, a[1])
        if key is None:
            raise Unknown("searched row not recognized")
        return [(s, self.node(s, key) if had else ("p", self.jm, P(self.lay.set + 8))) for s, had in self.member(st, key)]

    def h_count(self, itp, st, ins, a, dem):
        if not self.isset(a[0]):
            return None
        self.touch(st, self.lay.set, 48, False, ins)
        key = self.key(st, a[1])
        if key is None:
            raise Unknown("searched row not recognized")
        return [(s, I(64, P(int(had)))) for s, had in self.member(st, key)]

    def h_forbid(self, itp, st, ins, a, dem):
        if self.isset(a[0]):
            st.notes["events"] += (("forget",),)
            self.touch(st, self.lay.set, 48, True, ins)
            raise Unknown("rows removed from the set of known rows")
        return None

    def h_cmp(self, itp, st, ins, a, dem):
        x, y = self.key(st, a[0]), self.key(st, a[1])
        if x is None or y is None:
            return None
        if x == y:
            return [(st, I(1, P(1 if "operator==" in dem else 0)))]
        return None

    def h_print(self, itp, st, ins, a, dem):
        """a row handed to a function together with an output stream"""
        if dem.startswith("llvm."):
            return None
        rows = [k for k in (self.key(st, x) for x in a) if k]
        cout = any(x[0] == "p" and x[1] == "@_ZSt4cout" for x in a)
        if cout:
            if rows:
                st.notes["events"] += (("print", rows[0], st.notes["held"]),)
                return [(st, a[0] if ins["ty"] == "ptr" else None)]
            st.notes["events"] += (("output", None, st.notes["held"]),)
            return None
        if rows and "std::ostream" in dem.split("(", 1)[-1].split(",")[0] and not dem.startswith("std::"):
            st.notes["events"] += (("format", rows[0]),)
            return [(st, a[0] if ins["ty"] == "ptr" else None)]
        return None

    # --- lockset hook
    def load(self, st, ptr, size, ty, ins):
        if ptr[0] == "p" and ptr[1] == self.jm and const(ptr[2]) is not None:
            self.touch(st, const(ptr[2]), size, False, ins)
        return super().load(st, ptr, size, ty, ins)

    def store(self, st, ptr, size, val, ins):
        if ptr[0] == "p" and ptr[1] == self.jm and const(ptr[2]) is not None:
            self.touch(st, const(ptr[2]), size, True, ins)
        if ptr[0] == "p" and ptr[1] and ptr[1].startswith("node "):
            self.bad(st, "a row of the pool is modified in place", ins)
        return super().store(st, ptr, size, val, ins)

    def memcpy(self, st, d, s, n, ins):
        for p, w in ((d, True), (s, False)):
            if p[0] == "p" and p[1] == self.jm and const(p[2]) is not None:
                self.touch(st, const(p[2]), n, w, ins)
        return super().memcpy(st, d, s, n, ins)


def load_program(tag):
    return Program(vp.link([vp.harness(H % tag, "pool_" + tag)], ["list.cpp", "job_manager.cpp"], [r"::prettyPrint"]))


def paths(prog, lay, pid, c, fn, prepare):
    """interpret wrapper fn; -> (interp, outcomes)"""
    it = PoolInterp(prog, lay, pid, c)
    st = State()
    jm = it.setup(st)
    args = prepare(it, st)
    out = it.call_fn(st, fn, [jm] + args)
    for r in out:
        s = r[1]
        s.notes["outside"] = s.notes["outside"] + s.notes["events"]
    return it, out


def find_workers(prog, lay):
    """the counter of active workers is the integral member that a new pool starts at one"""
    it = PoolInterp(prog, lay, None, None)
    st = State()
    st.notes.update(held=False, sections=(), events=(), outside=(), pre=None, waits=0, known=(), bad=(), constructing=True)
    it.jm = st.alloc(lay.size, name="pool")
    names = st.alloc(24, name="names")
    for k in (0, 8, 16):
        st.mem[names].cells[k] = (8, ("p", None, P(0)))
    out = it.call_fn(st, "vp_make", [("p", it.jm, P(0)), ("p", names, P(0))])
    rets = [r for r in out if r[0] == "ret"]
    if not rets or len(rets) != len(out):
        raise vp.Broken("constructor of the pool not understood: %r" % ([r[2] for r in out if r[0] != "ret"][:2],))
    return it, rets


def loc(ins):
    from absint import where
    return where(ins).replace(vp.REPO + "/", "")


class Analysis:
    """runs all operations once; used by both checks"""

    def __init__(self):
        self.ops = []   # (tag, name, interp, outcomes)
        self.undecided = []
        self.npaths = 0
        self.sections = 0
        self.accesses = 0
        for tag in ("facet", "vertex"):
            prog = load_program(tag)
            self.prog = prog
            lay = Layout(prog, tag)
            self.lay = lay
            it, rets = find_workers(prog, lay)
            self.ops.append((tag, "constructor", it, rets))
            for name, fn, prep in [
                    ("put(row)", "vp_put_row", lambda it, st: [self.rowarg(it, st, "N")]),
                    ("put(matrix of 0 rows)", "vp_put_matrix", lambda it, st: [self.matrix(it, st, [])]),
                    ("put(matrix of 1 row)", "vp_put_matrix", lambda it, st: [self.matrix(it, st, ["N"])]),
                    ("put(matrix of 2 rows)", "vp_put_matrix", lambda it, st: [self.matrix(it, st, ["N", "M"])]),
                    ("get()", "vp_get", lambda it, st: [("p", self.result(st), P(0))])]:
                it, out = paths(prog, lay, None, None, fn, prep)
                self.ops.append((tag, name, it, out))
                for r in out:
                    if r[0] == "unknown":
                        self.undecided.append("%s %s: %s" % (tag, name, r[2]))
                    else:
                        self.npaths += 1
                        self.sections += len(r[1].notes["sections"])
                self.accesses += it.guarded_accesses
        self.other_methods()
        if self.accesses == 0:
            raise vp.Broken("%d accesses to guarded pool members seen" % self.accesses)

    def other_methods(self):
        """methods of List that none of the public operations reached"""
        self.unvisited = []

    def rowarg(self, it, st, key):
        return it.row(st, key)

    def matrix(self, it, st, keys):
        m = st.alloc(24, name="matrix")
        if not keys:
            for k in (0, 8, 16):
                st.mem[m].cells[k] = (8, ("p", None, P(0)))
            return ("p", m, P(0))
        b = st.alloc(24 * len(keys), name="rows")
        for i, k in enumerate(keys):
            it.row(st, k, ("p", b, P(24 * i)))
        for k, e in ((0, 0), (8, 24 * len(keys)), (16, 24 * len(keys))):
            st.mem[m].cells[k] = (8, ("p", b, P(e)))
        return ("p", m, P(0))

    def result(self, st):
        st.notes["result"] = st.alloc(24, name="result")
        return st.notes["result"]


def same(st, a, b):
    """entailed equality of two forms"""
    if a is None or b is None:
        return False
    d = add(a, b, -1)
    k = const(d)
    if k is not None:
        return k == 0
    return st.poly.entails(d) and st.poly.entails(scale(d, -1))


def lock_check(c):
    an = Analysis()
    seen = set()
    for tag, name, it, out in an.ops:
        for n, w, ins in it.races:
            k = (n, w, loc(ins))
            if k in seen:
                continue
            seen.add(k)
            c.violation("unlocked %s of List::%s in %s" % ("write" if w else "read", n, name), loc(ins),
                        "pool member '%s' is %s without holding the pool's mutex (operation %s)" % (n, "written" if w else "read", name))
        for r in out:
            st = r[1]
            for what, w in st.notes["bad"]:
                if "sleep" in what:
                    continue
                c.violation("%s in %s" % (what, name), w.replace(vp.REPO + "/", ""), "%s (operation %s)" % (what, name))
            if r[0] in ("ret", "throw") and st.notes["held"]:
                c.violation("mutex still held after %s" % name, "List", "operation %s leaves with the pool's mutex still held" % name)
            evs = [e for s in st.notes["sections"] for e in s["events"]] + list(st.notes["outside"])
            for e in evs:
                if e[0] in ("print", "output") and not e[2]:
                    c.violation("output without lock in %s" % name, "List", "operation %s writes to the standard output without holding the pool's mutex" % name)
    c.coverage.update(operations=len(an.ops), paths=an.npaths, critical_sections=an.sections, guarded_accesses=an.accesses,
                      guarded_members=[n for _, _, n in an.lay.guarded], rule="every load/store of a non-const member of List outside its constructor happens with List's mutex in the lockset; no double lock, no unlock of a free mutex, mutex free on return; standard output only under the mutex")
    c.assumptions += ["std::mutex, std::condition_variable and std::set behave as specified", "allocation does not fail"]
    c.undecided += an.undecided


def protocol_check(c):
    an = Analysis()
    lay = an.lay

    def bad(tag, name, st, what):
        key = "%s: %s" % (name, what)
        c.violation(key, "List<%s>" % tag, "%s [operation %s; path %s]" % (what, name, "; ".join("%s=%s" % (w.split("/")[-1], int(v)) for w, v in st.trace[-8:])))

    # which integral member counts the active workers: the one put(matrix) changes
    changed = set()
    for tag, name, it, out in an.ops:
        if name.startswith("put(matrix"):
            for r in out:
                if r[0] == "ret":
                    for s in r[1].notes["sections"]:
                        for off, n in lay.ints:
                            if not same(r[1], s["pre"]["ints"][off], s["post"]["ints"][off]):
                                changed.add((off, n))
    if len(changed) > 1:
        c.undecided.append("put(matrix) changes several counters: %r" % changed)
        return
    if not changed:
        c.violation("put(matrix) never reports the job as done", "List::put", "put(matrix) leaves every counter of the pool unchanged, so the pool never learns that a job is done")
        return
    woff, wname = list(changed)[0]
    cases = 0
    for tag, name, it, out in an.ops:
        for r in out:
            kind, st = r[0], r[1]
            if kind == "unknown":
                continue
            cases += 1
            N = st.notes
            for what, w in N["bad"]:
                if "sleep" in what:
                    bad(tag, name, st, what)
            if kind in ("throw", "terminate"):
                bad(tag, name, st, "operation ends with %s %s" % (kind, r[2]))
                continue
            if kind != "ret":
                continue
            if name == "constructor":
                o = st.mem[it.jm]
                v = o.cells.get(woff)
                v = v and (P(0) if v[1][0] == "zero" else v[1][2] if v[1][0] == "i" else None)
                if v is None or const(v) != 1:
                    bad(tag, name, st, "a new pool must count exactly one active worker (the initialization)")
                b, e = (o.cells.get(lay.queue + k) for k in (0, 8))
                continue
            secs = N["sections"]
            if name.startswith("put"):
                want = {"put(row)": ["N"], "put(matrix of 0 rows)": [], "put(matrix of 1 row)": ["N"], "put(matrix of 2 rows)": ["N", "M"]}[name]
                done = set()
                decs = 0
                for s in secs:
                    ins = [e for e in s["events"] if e[0] == "insert"]
                    prints = [e[1] for e in s["events"] if e[0] in ("print", "format")]
                    pre, post = s["pre"]["queue"], s["post"]["queue"]
                    fresh = [e[1] for e in ins if e[2]]
                    for k in set(prints):
                        if k not in fresh:
                            bad(tag, name, st, "a row is printed that was not newly added in the same critical section")
                    for k in fresh:
                        if k not in want:
                            bad(tag, name, st, "a row is added that was not passed in")
                        if prints.count(k) != 1:
                            bad(tag, name, st, "a newly added row is printed %s" % ("more than once" if prints.count(k) > 1 else "not at all in the critical section that adds it"))
                    if post is None or "?" in post:
                        c.undecided.append("%s: queue not recognized" % name)
                        continue
                    if sorted(post) != sorted(pre + tuple(fresh)):
                        bad(tag, name, st, "queue changes from %s to %s although the newly added rows are %s" % (list(pre), list(post), fresh))
                    elif [x for x in post if x in pre] != list(pre):
                        bad(tag, name, st, "the order of waiting rows is changed")
                    if len(post) > len(pre) and not [e for e in s["events"] if e[0] == "notify"]:
                        # may also be done right after the section
                        if not any(e[0] == "notify" for e in N["outside"]) and not any(e[0] == "notify" for s2 in secs[secs.index(s):] for e in s2["events"]):
                            bad(tag, name, st, "a row is queued but no waiting worker is woken up")
                    if len(post) > len(pre) + 1:
                        n = sum(1 for s2 in secs[secs.index(s):] for e in s2["events"] if e[0] == "notify") + sum(1 for e in N["outside"] if e[0] == "notify")
                        al = any(e == ("notify", "all") for s2 in secs for e in s2["events"]) or ("notify", "all") in N["outside"]
                        if n < len(post) - len(pre) and not al:
                            bad(tag, name, st, "several rows are queued but only one worker is woken up")
                    for e in s["events"]:
                        if e[0] in ("insert",):
                            done.add(e[1])
                    known = s["pre"]["known"]
                    for k in want:
                        if s["post"]["known"].get(k):
                            done.add(k)
                    for off, n in lay.ints:
                        if same(st, s["pre"]["ints"][off], s["post"]["ints"][off]):
                            continue
                        d = add(s["post"]["ints"][off], s["pre"]["ints"][off], -1)
                        if off != woff:
                            continue
                        k = const(d)
                        if k == -1 or (k is not None and k == (1 << 64) - 1):
                            decs += 1
                            missing = [k for k in want if k not in done]
                            if missing and not any(e[1] in missing for s2 in secs[:secs.index(s) + 1] for e in s2["events"] if e[0] == "insert"):
                                bad(tag, name, st, "the job is reported done before all of its rows are in the pool")
                        else:
                            bad(tag, name, st, "the number of active workers changes by %s" % k)
                            decs += 1
                for k in want:
                    if k not in done:
                        bad(tag, name, st, "a row passed in is neither added nor known already")
                exp = 0 if name == "put(row)" else 1
                if decs != exp:
                    bad(tag, name, st, "the number of active workers is decremented %d times, expected %d" % (decs, exp))
            else:
                get_path(c, an, lay, woff, it, st, lambda what: bad(tag, name, st, what))
    c.coverage.update(operations=len(an.ops), paths=an.npaths, critical_sections=an.sections, cases_judged=cases, queue_shapes=[list(x) for x in SHAPES],
                      rule="per path: sequence of critical sections (state at acquire, events, state at release) matches the pool protocol")
    c.assumptions += ["std::mutex, std::condition_variable and std::set behave as specified", "allocation does not fail",
                      "queue shapes at each acquisition: " + ", ".join(str(list(x)) for x in SHAPES)]
    c.undecided += an.undecided
    if cases == 0:
        raise vp.Broken("%d paths judged" % cases)


def get_path(c, an, lay, woff, it, st, bad):
    N = st.notes
    secs = N["sections"]
    res = it.key(st, ("p", N["result"], P(0)))
    if res is None:
        c.undecided.append("get(): result not recognized")
        return
    if not secs:
        bad("get() does not enter a critical section")
        return
    removed = []
    idle = False
    for i, s in enumerate(secs):
        pre, post = s["pre"]["queue"], s["post"]["queue"]
        if post is None or "?" in post:
            c.undecided.append("get(): queue not recognized")
            return
        pre = tuple(SENTINEL if x == "S" else x for x in pre)
        w = s["pre"]["ints"][woff]
        if pre == () and const(w) is None:
            zero = st.poly.entails(scale(w, -1))
        else:
            zero = const(w) == 0
        if pre == () and zero:
            idle = True
        add_s = post.count(SENTINEL) - pre.count(SENTINEL)
        if add_s > 0:
            if not idle:
                bad("the termination mark is queued although the pool was not seen empty with no active worker")
            al = ("notify", "all") in N["outside"] or any(("notify", "all") in s2["events"] for s2 in secs[i:])
            if not al:
                bad("the termination mark is queued but not all waiting workers are woken up")
        if any(x not in pre and x != SENTINEL for x in post):
            bad("a row appears in the queue out of nothing")
        gone = list(pre)
        for x in post:
            if x in gone:
                gone.remove(x)
        removed += gone
        if i == 0 and pre == () and not idle:
            # could the pool have been idle? then the branch must have been decided
            if st.poly.feasible([scale(w, -1)]) and add_s == 0 and not any(s2["post"]["queue"].count(SENTINEL) > s2["pre"]["queue"].count(SENTINEL) + s2["pre"]["queue"].count("S") for s2 in secs):
                bad("a worker asks for a job while the pool is empty and no worker is active, but the pool is not terminated")
    if idle and not any(s["post"]["queue"].count(SENTINEL) > sum(x in ("S", SENTINEL) for x in s["pre"]["queue"]) for s in secs):
        bad("the pool was seen empty with no active worker but is not terminated")
    last = secs[-1]
    pre = tuple(SENTINEL if x == "S" else x for x in last["pre"]["queue"])
    total = 0
    for s in secs:
        d = add(s["post"]["ints"][woff], s["pre"]["ints"][woff], -1) if s["post"]["ints"][woff] is not None else None
        k = const(d) if d is not None else None
        if k is None:
            bad("the number of active workers is overwritten")
            return
        total += k
    if res == SENTINEL:
        if removed:
            bad("the termination mark is returned but %s removed from the queue" % ("it is" if removed == [SENTINEL] else "another row is"))
        at = secs[-1]
        seq = list(pre)
        if pre and pre[0] != SENTINEL and SENTINEL not in [x for s in secs for x in s["post"]["queue"][:1]]:
            bad("a worker is told to stop although a row is waiting")
        if not any(SENTINEL in [y for y in s["post"]["queue"]] for s in secs):
            bad("a worker is told to stop although the pool is not terminated")
    else:
        if removed != [res]:
            bad("the returned row is %s" % ("not removed from the queue" if res not in removed else "not the only one removed from the queue"))
        if total != 1:
            bad("handing out a row changes the number of active workers by %d instead of +1" % total)
        # the increment must not come later than the removal
        for s in secs:
            p = [x for x in s["pre"]["queue"]]
            q = list(s["post"]["queue"])
            if res in p and res not in q:
                break
            
