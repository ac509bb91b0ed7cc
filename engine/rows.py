"""Abstract interpretation of code that moves rows, matrices and maps around: every row is a
token (a name), matrices are sequences of tokens. Library containers are interpreted on the
intermediate representation; threads, futures and streams have transfer functions here."""
import re
import vp
from absint import Interp, State, Unknown, I, P, const, Obj, where
from poly import sym, addc

NULL = ("p", None, P(0))


def top_split(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<({[":
            d += 1
        if c in ">)}]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]


def template_args(dem, prefix):
    """template arguments of the function template named prefix in a demangled name"""
    i = dem.index(prefix + "<") + len(prefix) + 1
    d, j = 1, i
    while d:
        if dem[j] in "<({":
            d += 1
        elif dem[j] in ">)}" and not (dem[j] == ">" and dem[j - 1] == "-"):
            d -= 1
        j += 1
    return top_split(dem[i:j - 1])


class RowsInterp(Interp):
    def __init__(self, prog, handlers, early=False, **kw):
        self.early = early
        h = dict(handlers)
        h.update({
            r"^std::__detail::_List_node_base::_M_hook": self.l_hook,
            r"^std::__detail::_List_node_base::_M_unhook": self.l_unhook,
            r"^std::__detail::_List_node_base::_M_transfer": self.l_transfer,
            r"(^| )std::async<": self.h_async,
            r"^std::future<void>::(get|wait)\(|^std::__basic_future<void>::wait\(": self.h_future_get,
            r"^std::future<void>::~future\(": self.h_future_dtor,
            r"^std::thread::thread<": self.h_thread,
            r"^std::thread::join\(": self.h_join,
            r"^std::thread::detach\(": self.h_detach,
            r"^std::__cxx11::basic_string<char, .*?>>::basic_string(<.*?>)?\(char const\*": self.h_str,
            r"^std::__cxx11::basic_string<char, .*?>>::basic_string\(std::__cxx11::basic_string<char, [^()]*(const&|&&)\)$": self.h_strcopy,
            r"std::ostream": self.h_out,
            r"std::basic_ostream<char": self.h_out,
        })
        super().__init__(prog, h, **kw)

    # ---------- tokens
    def setup(self, st):
        st.notes.update(events=(), str={}, closures={}, who="main", nthread=0)

    def event(self, st, *e):
        st.notes["events"] += ((st.notes["who"],) + e,)

    def cells3(self, st, ptr, b, end):
        o = st.mem[ptr[1]]
        off = const(ptr[2])
        for k, e in ((0, 0), (8, end), (16, end)):
            o.cells[off + k] = (8, ("p", b, P(e)) if b else NULL)

    def mk_row(self, st, key, at=None):
        at = at or ("p", st.alloc(24, name="row"), P(0))
        if key == "":
            self.cells3(st, at, None, 0)
            return at
        b = st.alloc(4, name="elements")
        s = "row " + key
        if s not in st.poly.bounds:
            st.poly.new(s, -100, 100)
        st.mem[b].cells[0] = (4, I(32, sym(s)))
        self.cells3(st, at, b, 4)
        return at

    def mk_matrix(self, st, keys, at=None):
        at = at or ("p", st.alloc(24, name="matrix"), P(0))
        if not keys:
            self.cells3(st, at, None, 0)
            return at
        b = st.alloc(24 * len(keys), name="rows")
        for i, k in enumerate(keys):
            self.mk_row(st, k, ("p", b, P(24 * i)))
        self.cells3(st, at, b, 24 * len(keys))
        return at

    def mk_maps(self, st, key, at=None):
        at = at or ("p", st.alloc(24, name="maps"), P(0))
        if key == "":
            self.cells3(st, at, None, 0)
            return at
        m = st.alloc(24, name="map")
        im = st.alloc(24, name="image")
        t = st.alloc(16, name="term")
        self.cells3(st, at, m, 24)
        self.cells3(st, ("p", m, P(0)), im, 24)
        self.cells3(st, ("p", im, P(0)), t, 16)
        s = "map " + key
        if s not in st.poly.bounds:
            st.poly.new(s, 0, 100)
        st.mem[t].cells[0] = (8, I(64, sym(s)))
        st.mem[t].cells[8] = (4, I(32, P(1)))
        return at

    def ptrcell(self, st, o, off):
        c = o.cells.get(off)
        if c is None:
            return NULL if o.zero else None
        v = c[1]
        if v[0] == "zero":
            return NULL
        return v if v[0] == "p" else None

    def tok(self, st, ptr):
        """("row", key) | ("rows", [keys]) | ("maps", key) | ("empty",) | None"""
        if ptr[0] != "p" or ptr[1] is None or ptr[1] not in st.mem or const(ptr[2]) is None:
            return None
        o = st.mem[ptr[1]]
        off = const(ptr[2])
        b, e = self.ptrcell(st, o, off), self.ptrcell(st, o, off + 8)
        if b is None or e is None:
            return None
        if b[1] is None or (b[1] == e[1] and b[2] == e[2]):
            return ("empty",)
        if b[1] != e[1] or b[1] not in st.mem or const(b[2]) is None or const(e[2]) is None:
            return None
        bo = st.mem[b[1]]
        c = bo.cells.get(const(b[2]))
        if c is None:
            return None
        if c[1][0] == "i":
            for m, v in c[1][2].items():
                if len(m) == 1 and v == 1:
                    if m[0].startswith("row "):
                        return ("row", m[0][4:]) if o.alive and bo.alive else ("row", "destroyed " + m[0][4:])
                    if m[0].startswith("map "):
                        return ("term", m[0][4:])
            return None
        if c[1][0] in ("p", "zero"):
            n = (const(e[2]) - const(b[2]))
            if n % 24:
                return None
            els = [self.tok(st, ("p", b[1], P(const(b[2]) + 24 * i))) for i in range(n // 24)]
            if len(els) == 1 and els[0] and els[0][0] in ("term", "map"):
                return ("map" if els[0][0] == "term" else "maps", els[0][1])
            if all(x and x[0] in ("row", "empty") for x in els):
                return ("rows", tuple(x[1] if x[0] == "row" else "" for x in els))
        return None

    def rowkey(self, st, ptr):
        t = self.tok(st, ptr)
        if t and t[0] == "row":
            return t[1]
        if t and t[0] == "empty":
            return ""
        raise Unknown("row not recognized")

    def rowskey(self, st, ptr):
        t = self.tok(st, ptr)
        if t and t[0] == "rows":
            return t[1]
        if t and t[0] == "empty":
            return ()
        raise Unknown("matrix not recognized")

    def mapskey(self, st, ptr):
        t = self.tok(st, ptr)
        if t and t[0] == "maps":
            return t[1]
        if t and t[0] == "empty":
            return ""
        raise Unknown("maps not recognized")

    # ---------- std::list nodes
    def _f(self, st, p, off, v=None):
        o = st.mem[p[1]]
        k = const(p[2]) + off
        if v is not None:
            o.cells[k] = (8, v)
            return None
        return self.ptrcell(st, o, k)

    def l_hook(self, i, st, ins, a, dem):
        this, pos = a[0], a[1]
        prev = self._f(st, pos, 8)
        self._f(st, this, 0, pos)
        self._f(st, this, 8, prev)
        self._f(st, prev, 0, this)
        self._f(st, pos, 8, this)
        return [(st, None)]

    def l_unhook(self, i, st, ins, a, dem):
        n, p = self._f(st, a[0], 0), self._f(st, a[0], 8)
        self._f(st, p, 0, n)
        self._f(st, n, 8, p)
        return [(st, None)]

    def l_transfer(self, i, st, ins, a, dem):
        raise Unknown("list splice")

    # ---------- threads and futures
    def closure(self, st, ptr):
        o = st.mem[ptr[1]]
        off = const(ptr[2])
        new = st.alloc(o.size - off if o.size else None, name="closure")
        for k, c in o.cells.items():
            if k >= off:
                st.mem[new].cells[k - off] = c
        return new

    def find_operator(self, cls, n):
        cand = [f for f in self.p.fn.values() if f["dem"].startswith(cls + "::operator()(")]
        if len(cand) != 1:
            raise Unknown("callable %s not understood" % cls[:80])
        return cand[0]["name"]

    def start(self, st, ins, kind, tpl, ptrs):
        if len(ptrs) != 1:
            raise Unknown("callable with arguments")
        name = self.find_operator(re.sub(r"( const)?&*$", "", tpl), 0)
        self_id = "%s%d" % (kind, st.notes["nthread"])
        st.notes["nthread"] += 1
        cl = dict(st.notes["closures"])
        cl[self_id] = (name, self.closure(st, ptrs[0]), "new", None)
        st.notes["closures"] = cl
        self.event(st, "start", self_id, where(ins))
        return self_id

    def setc(self, st, tid, **kw):
        cl = dict(st.notes["closures"])
        n, c, s, x = cl[tid]
        cl[tid] = (n, c, kw.get("state", s), kw.get("exc", x))
        st.notes["closures"] = cl

    def run_closure(self, st, ins, tid, after):
        """after(st, kind, exc) -> handler result"""
        name, cl, state, exc = st.notes["closures"][tid]
        if state == "done":
            return after(st, "throw" if exc else "ret", exc)
        self.setc(st, tid, state="running")
        old = st.notes["who"]
        st.notes["who"] = tid

        def hook(itp, s, ins2, kind, v):
            s.notes["who"] = old
            itp.setc(s, tid, state="done", exc=s.exc if kind == "throw" else None)
            itp.event(s, "end", tid, kind)
            return after(s, kind, s.exc)
        return self.push(st, name, [("p", cl, P(0))], ins, hook)

    def h_thread(self, i, st, ins, a, dem):
        t = template_args(dem, "std::thread::thread")
        args = a[1:]
        tid = self.start(st, ins, "worker", t[0], args)
        o = st.mem[a[0][1]]
        s = "thread " + tid
        if s not in st.poly.bounds:
            st.poly.new(s, 1, 1 << 62)
        o.cells[const(a[0][2])] = (8, I(64, sym(s)))
        if self.early:
            return self.run_closure(st, ins, tid, lambda s, k, e: [(s, None)] if k == "ret" else [("terminate", s, "exception leaves a thread")])
        return [(st, None)]

    def thread_id(self, st, ptr):
        c = st.mem[ptr[1]].cells.get(const(ptr[2]))
        if c and c[1][0] == "i":
            for m in c[1][2]:
                if len(m) == 1 and m[0].startswith("thread "):
                    return m[0][7:]
        return None

    def h_join(self, i, st, ins, a, dem):
        tid = self.thread_id(st, a[0])
        if tid is None:
            return [("terminate", st, "join of a thread that is not joinable")]
        st.mem[a[0][1]].cells[const(a[0][2])] = (8, I(64, P(0)))

        def after(s, k, e):
            if k == "throw":
                return [("terminate", s, "exception leaves a thread")]
            self.event(s, "join", tid)
            return [(s, None)]
        return self.run_closure(st, ins, tid, after)

    def h_detach(self, i, st, ins, a, dem):
        tid = self.thread_id(st, a[0])
        if tid:
            self.event(st, "detach", tid)
            st.mem[a[0][1]].cells[const(a[0][2])] = (8, I(64, P(0)))
        return [(st, None)]

    def h_async(self, i, st, ins, a, dem):
        t = template_args(dem, "std::async")
        ret, args = a[0], list(a[1:])
        pol = "any"
        if "std::launch" in dem.split("std::async<", 1)[1]:
            v = const(args[0][2]) if args[0][0] == "i" else None
            pol = {1: "async", 2: "deferred"}.get(v, "any")
            args = args[1:]
            if "std::launch" in t[0]:
                t = t[1:]
        tid = self.start(st, ins, "task", t[0], args)
        o = st.mem[ret[1]]
        off = const(ret[2])
        key = "future " + tid
        st.mem[key] = Obj(8, False, key)
        o.cells[off] = (8, ("p", key, P(0)))
        o.cells[off + 8] = (8, NULL)
        st.notes["policy"] = dict(st.notes.get("policy", {}), **{tid: pol})
        if self.early and pol == "async":
            return self.run_closure(st, ins, tid, lambda s, k, e: [(s, None)])
        return [(st, None)]

    def future_id(self, st, ptr):
        v = self.ptrcell(st, st.mem[ptr[1]], const(ptr[2]))
        if v and v[1] and v[1].startswith("future "):
            return v[1][7:]
        return None

    def h_future_get(self, i, st, ins, a, dem):
        tid = self.future_id(st, a[0])
        if tid is None:
            return [("terminate", st, "get() on an empty future")]
        get = "get(" in dem
        if get:
            st.mem[a[0][1]].cells[const(a[0][2])] = (8, NULL)

        def after(s, k, e):
            self.event(s, "collect" if get else "wait", tid)
            if k == "throw" and get:
                return [(s, "throw:" + e)]
            s.exc = None
            return [(s, None)]
        return self.run_closure(st, ins, tid, after)

    def h_future_dtor(self, i, st, ins, a, dem):
        tid = self.future_id(st, a[0])
        if tid is None:
            return [(st, None)]
        st.mem[a[0][1]].cells[const(a[0][2])] = (8, NULL)
        if st.notes["policy"][tid] == "async":
            exc = st.exc

            def after(s, k, e):
                s.exc = exc
                return [(s, None)]
            return self.run_closure(st, ins, tid, after)
        return [(st, None)]

    # ---------- text
    def literal(self, st, v):
        if v[0] != "p" or v[1] is None or v[1] not in st.mem:
            return None
        if v[1].startswith("@"):
            s = self.p.globals.get(v[1][1:], {}).get("str")
            k = const(v[2])
            return s[k:] if s is not None and k is not None else None
        return None

    def h_str(self, i, st, ins, a, dem):
        s = self.literal(st, a[1])
        if s is not None:
            d = dict(st.notes["str"])
            d[(a[0][1], const(a[0][2]))] = s
            st.notes["str"] = d
        return [(st, None)]

    def h_strcopy(self, i, st, ins, a, dem):
        k = (a[1][1], const(a[1][2]))
        if k in st.notes["str"]:
            d = dict(st.notes["str"])
            d[(a[0][1], const(a[0][2]))] = d[k]
            st.notes["str"] = d
        return [(st, None)]

    STREAMS = {"@_ZSt4cout": "out", "@_ZSt4cerr": "err", "@_ZSt4clog": "err"}

    def h_out(self, i, st, ins, a, dem):
        """stream << something: record the text or token written to cout/cerr"""
        if not a or dem.startswith("llvm."):
            return None
        s = [x for x in a if x[0] == "p" and x[1] in self.STREAMS]
        if not s:
            return None
        kind = self.STREAMS[s[0][1]]
        rest = [x for x in a if x is not s[0]]
        if "::flush(" in dem:
            return [(st, s[0] if ins["ty"] == "ptr" else None)]
        text = None
        for x in rest:
            t = self.literal(st, x)
            if t is None and x[0] == "p":
                t = st.notes["str"].get((x[1], const(x[2]) if x[0] == "p" else None))
            if t is None and x[0] == "i" and x[1] == 8 and const(x[2]) is not None:
                t = chr(const(x[2]) & 255)
            if t is None and x[0] == "f" and "endl" in x[1]:
                t = "\n"
            if t is None:
                k = self.tok(st, x)
                if k:
                    t = k
            if t is not None:
                text = t
                break
        self.event(st, kind, text)
        return [(st, s[0] if ins["ty"] == "ptr" else None)]


def text_of(events, kind="out"):
    """texts written, adjacent literals joined"""
    r = []
    for e in events:
        if e[1] != kind:
            continue
        if isinstance(e[2], str) and r and isinstance(r[-1], str):
            r[-1] += e[2]
        else:
            r.append(e[2])
    return r
