"""Abstract interpreter over the exported intermediate representation.

Abstract state: for every live value an affine/polynomial form over bounded symbols, a
convex polyhedron relating the symbols, a memory of abstract objects, and the call string.
States are partitioned by trace (no join); a branch whose polyhedron is empty is not taken.
The program under analysis is never executed."""
import json
import os
import re
import signal
import time
from poly import (Poly, P, sym, add, addc, scale, mul, const, show, Budget, ONE)

# library functions without a transfer function of their own (strings, streams): matched by mangled name
OPAQUE = re.compile(r"^_Z(NK?St7__cxx1112basic_string|NK?St7__cxx11\d+basic_\w*stringstream|NSt7__cxx119to_string|Stpl|Stls|Strs|"
                    r"NK?So|NK?Si|NK?Sd|NSolsE|NK?SaIcE|NSt11char_traits|NSt8ios_base|NK?St9basic_ios)")
CXXEXC = {  # typeinfo -> bases
    "_ZTISt16invalid_argument": ["_ZTISt11logic_error", "_ZTISt9exception"],
    "_ZTISt12out_of_range": ["_ZTISt11logic_error", "_ZTISt9exception"],
    "_ZTISt12length_error": ["_ZTISt11logic_error", "_ZTISt9exception"],
    "_ZTISt12domain_error": ["_ZTISt11logic_error", "_ZTISt9exception"],
    "_ZTISt11logic_error": ["_ZTISt9exception"],
    "_ZTISt13runtime_error": ["_ZTISt9exception"],
    "_ZTISt14overflow_error": ["_ZTISt13runtime_error", "_ZTISt9exception"],
    "_ZTISt15underflow_error": ["_ZTISt13runtime_error", "_ZTISt9exception"],
    "_ZTISt11range_error": ["_ZTISt13runtime_error", "_ZTISt9exception"],
    "_ZTISt9bad_alloc": ["_ZTISt9exception"],
    "_ZTISt9exception": [],
}


class Unknown(Exception):
    pass


# functions without a body whose effects do not matter here: exception objects
HARMLESS = re.compile(r"^std::(\w*_error|invalid_argument|out_of_range|exception|bad_\w+)::|^__cxa_|^std::(terminate|uncaught)")


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.fn = {}
        for f in d["functions"]:
            self.fn[f["name"]] = f
            f["bmap"] = {b["id"]: b for b in f["blocks"]}
        self.globals = d["globals"]
        self.classes = d["classes"]

    def by_dem(self, rx):
        r = re.compile(rx)
        return [f for f in self.fn.values() if r.search(f["dem"])]


class Frame:
    __slots__ = ("fn", "blk", "idx", "prev", "env", "call", "locals", "hook")

    def __init__(self, fn, env, call):
        self.fn = fn
        self.blk = fn["blocks"][0]
        self.idx = 0
        self.prev = None
        self.env = env
        self.call = call  # call instruction in the caller (or None)
        self.locals = []
        self.hook = None  # called as hook(interp, state, call, "ret"/"throw", value) when the frame is left

    def copy(self):
        r = Frame.__new__(Frame)
        r.hook = self.hook
        r.fn, r.blk, r.idx, r.prev, r.call = self.fn, self.blk, self.idx, self.prev, self.call
        r.env = dict(self.env)
        r.locals = list(self.locals)
        return r


class Obj:
    __slots__ = ("size", "cells", "zero", "input", "alive", "name", "gone")

    def __init__(self, size, zero=False, name=""):
        self.size = size
        self.cells = {}
        self.zero = zero
        self.alive = True
        self.gone = False   # for good: may be shared between states
        self.name = name

    def copy(self):
        r = Obj(self.size, self.zero, self.name)
        r.cells = dict(self.cells)
        r.alive = self.alive
        return r


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.poly = Poly()
        self.n = 0
        self.exc = None
        self.caught = []
        self.trace = []
        self.steps = 0
        self.notes = {}
        self.divs = {}

    def copy(self):
        r = State()
        r.frames = [f.copy() for f in self.frames]
        r.mem = {k: v if v.gone else v.copy() for k, v in self.mem.items()}
        r.poly = self.poly.copy()
        r.n = self.n
        r.exc = self.exc
        r.caught = list(self.caught)
        r.trace = list(self.trace)
        r.steps = self.steps
        r.notes = dict(self.notes)
        r.divs = dict(self.divs)
        return r

    def fresh(self, hint, lo, hi):
        self.n += 1
        return self.poly.new("%s.%d" % (hint, self.n), lo, hi)

    def alloc(self, size, zero=False, name="obj"):
        self.n += 1
        o = "%s.%d" % (name, self.n)
        self.mem[o] = Obj(size, zero, name)
        return o


def W(ty):
    m = re.match(r"^i(\d+)$", ty)
    return int(m.group(1)) if m else None


def I(w, p):
    return ("i", w, p)


def srange(w):
    return -(1 << (w - 1)), (1 << (w - 1)) - 1


def urange(w):
    return 0, (1 << w) - 1


def where(ins):
    l = ins.get("loc")
    if not l:
        return "?"
    # innermost frame inside the project
    f, n, fn, _ = l[0]
    return "%s:%d (%s)" % (f, n, fn)


class Interp:
    """externals: dict regex -> handler(interp, state, ins, args) returning list of (state, value)
    or the string 'throw:<typeinfo>'"""

    def __init__(self, prog, handlers=None, max_states=4000, max_steps=60000, opaque=OPAQUE, check_ub=True):
        self.p = prog
        self.hcache = {}
        self.handlers = [(re.compile(k), v) for k, v in (handlers or {}).items()]
        self.max_states = max_states
        self.max_steps = max_steps
        self.opaque = opaque
        self.ub = []  # (kind, where, state)
        self.obligations = 0
        self.discharged = 0
        self.visited = set()
        self.check_ub = check_ub
        self.nstates = 0

    # ---------- values
    def typesize(self, ty):
        w = W(ty)
        if w:
            return (w + 7) // 8
        if ty == "ptr":
            return 8
        m = re.match(r"^\[(\d+) x (.*)\]$", ty)
        if m:
            return int(m.group(1)) * self.typesize(m.group(2))
        raise Unknown("size of type " + ty)

    def opval(self, st, fr, o, w=None):
        k = o[0]
        if k == "c":
            return I(int(o[2]), P(int(o[1])))
        if k == "v":
            return fr.env[o[1]]
        if k == "null":
            return ("p", None, P(0))
        if k == "g":
            return ("p", self.globobj(st, o[1]), P(int(o[2])))
        if k == "f":
            return ("f", o[1])
        if k in ("undef", "zero"):
            return ("undef",) if k == "undef" else ("zero",)
        if k == "agg":
            return ("agg", [self.opval(st, fr, x) for x in o[1]])
        return ("opaque",)

    def globobj(self, st, name):
        key = "@" + name
        if key not in st.mem:
            g = self.p.globals.get(name, {})
            o = Obj(None, False, key)
            st.mem[key] = o
            ty = g.get("ty", "")
            init = g.get("init")
            s = g.get("str")
            if s is not None:
                data = s.encode() + b"\0"
                o.size = len(data)
                for i, c in enumerate(data):
                    o.cells[i] = (1, I(8, P(c)))
            elif init and g.get("const"):
                try:
                    self.ginit(o, init, ty, 0)
                    o.size = self.typesize(ty)
                except Unknown:
                    o.cells = {}
        return key

    def ginit(self, o, init, ty, off):
        if init[0] == "c":
            o.cells[off] = (self.typesize(ty), I(int(init[2]), P(int(init[1]))))
        elif init[0] == "agg":
            m = re.match(r"^\[(\d+) x (.*)\]$", ty)
            if not m:
                raise Unknown("aggregate " + ty)
            es = self.typesize(m.group(2))
            for i, e in enumerate(init[1]):
                self.ginit(o, e, m.group(2), off + i * es)
        elif init[0] == "zero":
            o.zero = True
        elif init[0] in ("null",):
            o.cells[off] = (8, ("p", None, P(0)))
        elif init[0] == "f":
            o.cells[off] = (8, ("f", init[1]))
        else:
            raise Unknown("initializer")

    def asint(self, st, v, w):
        if v[0] == "i":
            return v
        if v[0] == "zero":
            return I(w, P(0))
        if v[0] == "undef":
            return I(w, st.fresh("undef", *urange(w)))
        raise Unknown("integer expected, got " + v[0])

    def norm(self, st, v, signed):
        """partition so that the form equals the signed/unsigned value; yields (state, form)"""
        w, p = v[1], v[2]
        lo, hi = srange(w) if signed else urange(w)
        if w == 1 and signed is None:
            lo, hi = 0, 1
        l, h = st.poly.range(p)
        if lo <= l and h <= hi:
            return [(st, p)]
        m = 1 << w
        kmin = -((h - lo) // m) if h > hi else 0
        kmin = -((h - lo) // m)
        kmax = (hi - l) // m
        cands = []
        ks = [k for k in range(kmin, kmax + 1)] if kmax - kmin <= 6 else None
        if ks is None:
            if st.poly.entails(addc(p, -lo)) and st.poly.entails(addc(scale(p, -1), hi)):
                return [(st, p)]
            # too many wrap-arounds: the value itself where it fits, else a bounded value congruent to it
            out = []
            kmin, kmax = -((h - lo) // m) - 1, (hi - l) // m + 1
            for cs, kb in (([addc(p, -lo), addc(scale(p, -1), hi)], None), ([addc(p, -hi - 1)], (kmin, -1)), ([addc(scale(p, -1), lo - 1)], (1, kmax))):
                if not st.poly.feasible(cs):
                    continue
                s = st.copy()
                for c in cs:
                    s.poly.assume(c)
                q = p
                if kb:
                    q = s.fresh("wrap", lo, hi)
                    s.poly.assume_eq(add(add(q, p, -1), scale(s.fresh("turns", *kb), -m)))
                if not s.poly.empty:
                    out.append((s, q))
            return out
        for k in ks:
            q = addc(p, k * m)
            c1, c2 = addc(q, -lo), addc(scale(q, -1), hi)
            if st.poly.feasible([c1, c2]):
                cands.append((k, q, c1, c2))
        if len(cands) == 1:
            k, q, c1, c2 = cands[0]
            return [(st, q)]
        out = []
        for k, q, c1, c2 in cands:
            s = st.copy()
            s.poly.assume(c1)
            s.poly.assume(c2)
            if not s.poly.empty:
                out.append((s, q))
        return out

    # ---------- memory
    def load(self, st, ptr, size, ty, ins):
        if ptr[0] != "p":
            raise Unknown("load through " + ptr[0])
        if ptr[1] is None:
            self.report("null pointer dereference", ins, st)
            raise Unknown("null load")
        o = st.mem.get(ptr[1])
        if o is None:
            raise Unknown("load of unknown object")
        off = const(ptr[2])
        if off is None:
            # symbolic offset into an object: unknown content
            return self.freshval(st, ty, "mem")
        if not o.alive:
            self.report("use of freed memory", ins, st)
        if o.size is not None:
            self.obligations += 1
            if off < 0 or off + size > o.size:
                self.report("access outside of object %s (offset %d, size %d, object %d)" % (o.name, off, size, o.size), ins, st)
                return self.freshval(st, ty, "oob")
            self.discharged += 1
        c = o.cells.get(off)
        if c and c[0] == size:
            v = c[1]
            if v[0] == "i" and W(ty) and v[1] != W(ty):
                return I(W(ty), v[2])
            if v[0] == "zero":
                return ("p", None, P(0)) if ty == "ptr" else I(W(ty) or size * 8, P(0))
            if v[0] == "i" and ty == "ptr" and const(v[2]) == 0:
                return ("p", None, P(0))
            return v
        if any(a < off + size and off < a + s for a, (s, _) in o.cells.items()):
            v = self.assemble(st, o, off, size, ty)
            return v if v is not None else self.freshval(st, ty, "part")
        if o.zero:
            return ("p", None, P(0)) if ty == "ptr" else I(W(ty) or size * 8, P(0))
        v = self.freshval(st, ty, o.name)
        o.cells[off] = (size, v)
        return v

    def freshval(self, st, ty, hint):
        w = W(ty)
        if w:
            return I(w, st.fresh(hint, *urange(w)))
        if ty == "ptr":
            return ("p", st.alloc(None, name=hint + "*"), P(0))
        return ("opaque",)

    def store(self, st, ptr, size, val, ins):
        if ptr[0] != "p":
            raise Unknown("store through " + ptr[0])
        if ptr[1] is None:
            self.report("null pointer dereference", ins, st)
            raise Unknown("null store")
        o = st.mem.get(ptr[1])
        if o is None:
            raise Unknown("store to unknown object")
        off = const(ptr[2])
        if off is None:
            o.cells = {}
            o.zero = False
            return
        if not o.alive:
            self.report("use of freed memory", ins, st)
        if o.size is not None:
            self.obligations += 1
            if off < 0 or off + size > o.size:
                self.report("write outside of object %s (offset %d, size %d, object %d)" % (o.name, off, size, o.size), ins, st)
                return
            self.discharged += 1
        c = o.cells.get(off)
        if not (c and c[0] == size):
            self.clear(st, o, off, off + size)
        o.cells[off] = (size, val)

    def clear(self, st, o, lo, hi):
        """forget [lo, hi); what lies outside is kept"""
        for a in [a for a, (s, _) in o.cells.items() if a < hi and lo < a + s]:
            s, v = o.cells[a]
            if a >= lo and a + s <= hi:
                del o.cells[a]
            else:
                self.split(st, o, a, [x for x in (lo, hi) if a < x < a + s])
        for a in [a for a, (s, _) in o.cells.items() if lo <= a and a + s <= hi]:
            del o.cells[a]

    def split(self, st, o, a, at):
        """split the cell at a at the given positions"""
        s, v = o.cells.pop(a)
        k = 0 if v[0] == "zero" else const(v[2]) if v[0] == "i" else None
        for x, y in zip([a] + at, at + [a + s]):
            n = y - x
            if k is not None:
                o.cells[x] = (n, I(8 * n, P((k >> (8 * (x - a))) % (1 << (8 * n)))))
            elif o.zero:
                o.cells[x] = (n, I(8 * n, st.fresh("part", *urange(8 * n))))

    def memcpy(self, st, d, s, n, ins):
        if n == 0:
            return
        if d[0] != "p" or s[0] != "p" or d[1] is None or s[1] is None:
            raise Unknown("memcpy pointers")
        do, so = st.mem[d[1]], st.mem[s[1]]
        a, b = const(d[2]), const(s[2])
        if a is None or b is None:
            do.cells = {}
            do.zero = False
            return
        for o, off, what in ((do, a, "write"), (so, b, "read")):
            if o.size is not None:
                self.obligations += 1
                if off < 0 or off + n > o.size:
                    self.report("block %s outside of object" % what, ins, st)
                    return
                self.discharged += 1
        for x in [x for x, c in so.cells.items() if x < b + n and b < x + c[0] and (x < b or x + c[0] > b + n)]:
            self.split(st, so, x, [y for y in (b, b + n) if x < y < x + so.cells[x][0]])
        src = [(x - b, c) for x, c in so.cells.items() if x >= b and x + c[0] <= b + n]
        zero = so.zero
        self.clear(st, do, a, a + n)
        for x, c in src:
            do.cells[a + x] = c
        if zero or not src:
            # fill the holes by 8 byte cells where alignment permits
            x = 0
            have = {y for y, c in src for y in range(y, y + c[0])}
            while x < n:
                if x in have:
                    x += 1
                    continue
                k = 8 if (n - x >= 8 and not any(y in have for y in range(x, x + 8))) else 1
                if zero:
                    v = ("zero",) if k == 8 else I(8, P(0))
                else:
                    v = I(8 * k, st.fresh("raw", *urange(8 * k)))
                    so.cells[b + x] = (k, v)
                do.cells[a + x] = (k, v)
                x += k

    def assemble(self, st, o, off, size, ty):
        """an integer that covers several cells, or a part of one cell"""
        w = W(ty)
        if not w or w != 8 * size:
            return None
        cat = st.notes.get("cat", {})
        for a, (s, v) in o.cells.items():
            if a <= off and off + size <= a + s:
                if v[0] == "zero":
                    return I(w, P(0))
                if v[0] != "i":
                    return None
                k = const(v[2])
                if k is not None:
                    return I(w, P((k >> (8 * (off - a))) % (1 << w)))
                if len(v[2]) == 1:
                    (m, c), = v[2].items()
                    if c == 1 and len(m) == 1 and m[0] in cat:
                        x = 0
                        for s1, v1 in cat[m[0]]:
                            if x == off - a and s1 == size:
                                return v1
                            x += s1
                return None
        parts, k = [], off
        while k < off + size:
            c = o.cells.get(k)
            if c is None and o.zero:
                n = min([a for a in o.cells if a > k] + [off + size])
                if any(a < k < a + s for a, (s, _) in o.cells.items()):
                    return None
                c = (n - k, I(8 * (n - k), P(0)))
            if c is None or c[1][0] not in ("i", "zero"):
                return None
            parts.append((c[0], c[1] if c[1][0] == "i" else I(8 * c[0], P(0))))
            k += c[0]
        if k != off + size:
            return None
        ks = [const(v[2]) for _, v in parts]
        if None not in ks:
            r, x = 0, 0
            for (s, _), k in zip(parts, ks):
                r |= (k % (1 << 8 * s)) << x
                x += 8 * s
            return I(w, P(r))
        v = self.freshval(st, ty, "cat")
        (m, _), = v[2].items()
        st.notes["cat"] = dict(cat, **{m[0]: tuple(parts)})
        return v

    def memcmp(self, st, a, b, n, ins):
        if n == 0:
            return [(st, I(32, P(0)))]
        oa, ob = const(a[2]), const(b[2])
        if oa is None or ob is None:
            raise Unknown("memcmp at symbolic offset")
        out = []
        cur = [st]
        k = 8 if n % 8 == 0 else 1
        for x in range(0, n, k):
            nxt = []
            for s in cur:
                u = self.load(s, ("p", a[1], P(oa + x)), k, "i%d" % (8 * k), ins)
                v = self.load(s, ("p", b[1], P(ob + x)), k, "i%d" % (8 * k), ins)
                for s1, p in self.norm(s, u, False):
                    for s2, q in self.norm(s1, v, False):
                        for s3, r in self.relation(s2.copy(), add(p, q, -1), "=="):
                            if const(r[2]):
                                nxt.append(s3)
                            else:
                                neg = s3.copy()
                                neg.trace.append((where(ins), "memcmp"))
                                out.append((neg, I(32, P(1))))
                                out.append((s3, I(32, P(-1))))
            cur = nxt
        return out + [(s, I(32, P(0))) for s in cur]

    # ---------- reporting
    def report(self, kind, ins, st):
        if self.check_ub:
            self.ub.append((kind, self.site(st, ins), st.copy()))
        elif "outside" in kind or "freed" in kind or "null pointer" in kind:
            self.outside = self.outside + [(kind, self.site(st, ins), st.copy())]

    def site(self, st, ins):
        """position of ins, or of the innermost call in the project that leads to it"""
        w = where(ins)
        if "/src/" in w and not w.startswith("/usr/"):
            return w
        for fr in reversed(st.frames):
            if fr.call is not None:
                x = where(fr.call)
                if "/src/" in x and not x.startswith("/usr/"):
                    return x + " via " + w.split("/")[-1]
        return w

    # ---------- running
    def call_fn(self, st, name, args):
        f = self.p.fn[name]
        env = {}
        for a, v in zip(f["args"], args):
            env[a["id"]] = v
        st.frames.append(Frame(f, env, None))
        return self.run(st)

    outside = []        # accesses outside of objects, when these are not obligations
    overflowed = False  # a path ended in an overflow
    exact = False   # refuse calls of functions without a body (instead of forgetting what they may change)
    SECONDS = float(os.environ.get("VP_PATH_SECONDS", "100"))   # wall time for one analysed call; what is left is undecided

    def run(self, st0):
        work = [st0]
        done = []
        end = time.time() + self.SECONDS

        def late(*_):
            raise Budget("time")
        old = signal.signal(signal.SIGALRM, late)
        left, t0 = signal.getitimer(signal.ITIMER_REAL)[0], time.time()
        signal.setitimer(signal.ITIMER_REAL, min(self.SECONDS + 5, left or 1e9))
        try:
            return self.run2(work, done, end)
        except Budget:
            return done + [("unknown", s, "time budget exhausted") for s in work[:1] or [st0]]
        finally:
            signal.signal(signal.SIGALRM, old)
            signal.setitimer(signal.ITIMER_REAL, max(left - (time.time() - t0), 0.05) if left else 0)

    def run2(self, work, done, end):
        while work:
            if time.time() > end:
                for s in work:
                    done.append(("unknown", s, "time budget exhausted"))
                break
            st = work.pop()
            try:
                res = self.step_block(st)
            except Unknown as e:
                ins = st.frames[-1].blk["insts"][min(st.frames[-1].idx, len(st.frames[-1].blk["insts"]) - 1)] if st.frames else {}
                done.append(("unknown", st, "%s at %s" % (e, where(ins))))
                continue
            except Budget as e:
                done.append(("unknown", st, "budget: %s" % e))
                continue
            except (MemoryError, KeyboardInterrupt, SystemExit, AssertionError):
                raise
            except Exception as e:      # a construct the interpreter does not handle: undecided, never silent
                if os.environ.get("VP_DEBUG"):
                    raise
                done.append(("unknown", st, "not handled: %s: %s" % (type(e).__name__, e)))
                continue
            for r in res:
                if isinstance(r, State):
                    work.append(r)
                else:
                    done.append(r)
                    self.nstates += 1
            if len(work) + len(done) > self.max_states:
                for s in work:
                    done.append(("unknown", s, "state budget exhausted"))
                break
        return done

    def step_block(self, st):
        """run the top frame until control splits or leaves"""
        while True:
            fr = st.frames[-1]
            st.steps += 1
            if st.steps > self.max_steps:
                raise Unknown("step budget exhausted")
            ins = fr.blk["insts"][fr.idx]
            op = ins["op"]
            if op in ("call", "invoke"):
                r = self.do_call(st, fr, ins)
                if r is not None:
                    return r
                continue
            if op == "br":
                if ins["cond"]:
                    v = self.asint(st, self.opval(st, fr, ins["ops"][0]), 1)
                    out = []
                    c = const(v[2])
                    if c is not None:
                        self.goto(st, fr, ins["succ"][0 if c & 1 else 1])
                        continue
                    for val in (1, 0):
                        s = st.copy()
                        s.poly.assume_eq(addc(v[2], -val))
                        if s.poly.empty:
                            continue
                        s.trace.append((where(ins), bool(val)))
                        self.goto(s, s.frames[-1], ins["succ"][0 if val else 1])
                        out.append(s)
                    return out
                self.goto(st, fr, ins["succ"][0])
                continue
            if op == "switch":
                v = self.asint(st, self.opval(st, fr, ins["ops"][0]), 32)
                out = []
                for s0, p in self.norm(st, v, True):
                    rest = s0
                    for cv, tgt in ins["cases"]:
                        c = int(cv)
                        s = rest.copy()
                        s.poly.assume_eq(addc(p, -c))
                        if not s.poly.empty and s.poly.feasible():
                            self.goto(s, s.frames[-1], tgt)
                            out.append(s)
                    k = const(p)
                    if k is not None:
                        if all(int(cv) != k for cv, _ in ins["cases"]):
                            self.goto(rest, rest.frames[-1], ins["default"])
                            out.append(rest)
                    else:
                        # default: between the cases
                        pts = sorted(int(cv) for cv, _ in ins["cases"])
                        edges = [None] + pts + [None]
                        for a, b in zip(edges, edges[1:]):
                            s = rest.copy()
                            if a is not None:
                                s.poly.assume(addc(p, -a - 1))
                            if b is not None:
                                s.poly.assume(addc(scale(p, -1), b - 1))
                            if not s.poly.empty and s.poly.feasible():
                                self.goto(s, s.frames[-1], ins["default"])
                                out.append(s)
                return out
            if op == "ret":
                v = self.opval(st, fr, ins["ops"][0]) if ins["ops"] else None
                return self.do_return(st, v)
            if op == "unreachable":
                self.report("reaches a point declared unreachable", ins, st)
                return []
            if op == "resume":
                return self.unwind(st)
            r = self.simple(st, fr, ins, op)
            if r is not None:
                # list of (state, value)
                out = []
                for s, v in r:
                    f = s.frames[-1]
                    f.env[ins["id"]] = v
                    f.idx += 1
                    out.append(s)
                if len(out) == 1 and out[0] is st:
                    continue
                return out

    def goto(self, st, fr, bid):
        self.visited.add((fr.fn["name"], bid))
        prev = fr.blk["id"]
        blk = fr.fn["bmap"][bid]
        new = {}
        i = 0
        for ins in blk["insts"]:
            if ins["op"] != "phi":
                break
            for b, v in ins["ops"]:
                if b == prev:
                    new[ins["id"]] = self.opval(st, fr, v)
            i += 1
        fr.env.update(new)
        fr.prev = prev
        fr.blk = blk
        fr.idx = i

    def do_return(self, st, v):
        fr = st.frames.pop()
        if not st.frames:
            return [("ret", st, v)]
        self.leave(st, fr)
        top = st.frames[-1]
        ins = fr.call
        if fr.hook:
            r = self.finish_call(st, ins, fr.hook(self, st, ins, "ret", v))
            return [st] if r is None else r
        if v is not None:
            top.env[ins["id"]] = v
        if ins["op"] == "invoke":
            self.goto(st, top, ins["normal"])
        else:
            top.idx += 1
        return [st]

    def matches(self, thrown, clause):
        if clause[0] == "null":
            return True
        if clause[0] == "g":
            c = clause[1]
            if thrown == c:
                return True
            if thrown in CXXEXC:
                return c in CXXEXC[thrown]
            return None
        return None

    def unwind(self, st):
        """propagate st.exc from the top frame: the top frame's current instruction threw"""
        if not st.frames:
            return [("throw", st, st.exc)]
        # leaving the current frame
        fr = st.frames.pop()
        if fr.call is None and not st.frames:
            return [("throw", st, st.exc)]
        self.leave(st, fr)
        if fr.hook:
            r = self.finish_call(st, fr.call, fr.hook(self, st, fr.call, "throw", st.exc))
            return [st] if r is None else r
        return self.throw_at(st, fr.call)

    def leave(self, st, fr):
        """the frame's local objects end"""
        for o in fr.locals:
            st.mem[o].alive = False
            st.mem[o].gone = True

    def push(self, st, name, args, ins, hook=None):
        """for handlers: continue in function name as if called at ins; return the result of this"""
        if len(st.frames) > 80:
            raise Unknown("call depth")
        f = self.p.fn[name]
        self.visited.add((name, f["blocks"][0]["id"]))
        env = {}
        for a, v in zip(f["args"], args):
            env[a["id"]] = v
        fr = Frame(f, env, ins)
        fr.hook = hook
        st.frames.append(fr)
        return "pushed"

    def throw_at(self, st, ins):
        """an exception leaves call instruction ins of the top frame"""
        top = st.frames[-1]
        if ins["op"] == "invoke":
            blk = top.fn["bmap"][ins["unwind"]]
            self.goto(st, top, ins["unwind"])
            return [st]
        if top.fn.get("nounwind"):
            return [("terminate", st, "exception leaves %s" % top.fn["dem"])]
        return self.unwind(st)

    # ---------- calls
    def do_call(self, st, fr, ins):
        cal = ins.get("callee")
        name = ins.get("cname")
        args = [self.opval(st, fr, a) if a[0] != "md" else ("opaque",) for a in ins["args"]]
        if name is None:
            f = self.opval(st, fr, cal)
            if f[0] == "f":
                name = f[1]
            else:
                r = self.indirect(st, ins, args)
                if r is None:
                    raise Unknown("indirect call")
                return self.finish_call(st, ins, r)
        dem = self.p.fn[name]["dem"] if name in self.p.fn else ins.get("cdem", name)
        hs = self.hcache.get(dem)
        if hs is None:
            hs = self.hcache[dem] = [h for rx, h in self.handlers if rx.search(dem)]
        for h in hs:
            r = h(self, st, ins, args, dem)
            if r is not None:
                return self.finish_call(st, ins, r)
        r = self.builtin(st, fr, ins, name, args, dem)
        if r is not None:
            return self.finish_call(st, ins, r)
        if name in self.p.fn and not self.opaque.search(name):
            if len(st.frames) > 60:
                raise Unknown("call depth")
            f = self.p.fn[name]
            self.visited.add((name, f["blocks"][0]["id"]))
            env = {}
            for a, v in zip(f["args"], args):
                env[a["id"]] = v
            st.frames.append(Frame(f, env, ins))
            return None
        # opaque call: everything reachable from the arguments is unknown afterwards
        if self.exact and not self.opaque.search(name) and not ins.get("noreturn") and not HARMLESS.search(dem):
            raise Unknown("calls %s, which is not known to the analysis" % dem[:120])
        for v in args:
            self.havoc(st, v)
        if ins.get("noreturn"):
            return self.opaque_noreturn(st, ins, dem)
        return self.finish_call(st, ins, [(st, self.freshval(st, ins["ty"], "ret") if ins["ty"] != "void" else None)])

    def indirect(self, st, ins, args):
        """call of an unknown function: results, or None where nothing can be said"""
        return None

    def opaque_noreturn(self, st, ins, dem):
        if "__throw_" in dem:
            m = re.search(r"__throw_(\w+)", dem)
            st.exc = {"length_error": "_ZTISt12length_error", "out_of_range_fmt": "_ZTISt12out_of_range", "out_of_range": "_ZTISt12out_of_range",
                      "logic_error": "_ZTISt11logic_error", "bad_alloc": "_ZTISt9bad_alloc"}.get(m.group(1), "_ZTISt9exception")
            return self.throw_at(st, ins)
        return [("terminate", st, dem)]

    def havoc(self, st, v, depth=0):
        if v[0] == "p" and v[1] in st.mem and depth < 3 and not (v[1] or "").startswith("@"):
            o = st.mem[v[1]]
            old = [c[1] for c in o.cells.values()]
            o.cells = {}
            o.zero = False
            for x in old:
                self.havoc(st, x, depth + 1)

    def finish_call(self, st, ins, r):
        """r: list of (state, value) or ready outcomes"""
        if r == "pushed":
            return None
        out = []
        single = len(r) == 1
        for x in r:
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], State):
                s, v = x
                top = s.frames[-1]
                if isinstance(v, str) and v.startswith("throw:"):
                    s.exc = v[6:]
                    out.extend(self.throw_at(s, ins))
                    continue
                if v is not None:
                    top.env[ins["id"]] = v
                if ins["op"] == "invoke":
                    self.goto(s, top, ins["normal"])
                else:
                    top.idx += 1
                out.append(s)
            else:
                out.append(x)
        if single and len(out) == 1 and out[0] is st:
            return None
        return out

    def builtin(self, st, fr, ins, name, args, dem):
        if name.startswith("llvm."):
            if re.match(r"llvm\.(memcpy|memmove)", name):
                n = const(args[2][2])
                if n is None:
                    raise Unknown("memcpy of symbolic length")
                self.memcpy(st, args[0], args[1], n, ins)
                return [(st, None)]
            if name.startswith("llvm.memset"):
                n = const(args[2][2])
                c = const(args[1][2]) if args[1][0] == "i" else 0
                o = st.mem[args[0][1]]
                off = const(args[0][2])
                if n is None or off is None:
                    raise Unknown("memset of symbolic length")
                if n == 0:
                    return [(st, None)]
                self.clear(st, o, off, off + n)
                x = 0
                while x < n:
                    k = 8 if n - x >= 8 else (4 if n - x >= 4 else 1)
                    if c == 0:
                        v = ("zero",)
                    else:
                        b = 0
                        for _ in range(k):
                            b = (b << 8) | c
                        v = I(8 * k, P(b))
                    o.cells[off + x] = (k, v)
                    x += k
                return [(st, None)]
            m = re.match(r"llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)", name)
            if m:
                signed = m.group(1) == "s"
                w = int(m.group(3))
                out = []
                for s1, a in self.norm(st, self.asint(st, args[0], w), signed):
                    for s2, b in self.norm(s1, self.asint(s1, args[1], w), signed):
                        r = add(a, b) if m.group(2) == "add" else add(a, b, -1) if m.group(2) == "sub" else mul(a, b)
                        lo, hi = srange(w) if signed else urange(w)
                        for cs, ov in (([addc(r, -lo), addc(scale(r, -1), hi)], 0), ([addc(r, -hi - 1)], 1), ([addc(scale(r, -1), lo - 1)], 1)):
                            if s2.poly.feasible(cs):
                                s = s2.copy()
                                for c in cs:
                                    s.poly.assume(c)
                                s.poly.bounds  # noqa
                                out.append((s, ("agg", [I(w, r), I(1, P(ov))])))
                return out
            if name.startswith("llvm.eh.typeid.for"):
                return [(st, ("typeid", ins["args"][0]))]
            m = re.match(r"llvm\.abs\.i(\d+)", name)
            if m:
                w = int(m.group(1))
                out = []
                for s1, a in self.norm(st, self.asint(st, args[0], w), True):
                    for cs, v in (([a], a), ([addc(scale(a, -1), -1)], scale(a, -1))):
                        if s1.poly.feasible(cs):
                            s = s1.copy()
                            for c in cs:
                                s.poly.assume(c)
                            out.append((s, I(w, v)))
                return out
            m = re.match(r"llvm\.(s|u)(min|max)\.i(\d+)", name)
            if m:
                w = int(m.group(3))
                out = []
                for s1, a in self.norm(st, self.asint(st, args[0], w), m.group(1) == "s"):
                    for s2, b in self.norm(s1, self.asint(s1, args[1], w), m.group(1) == "s"):
                        for c, v in ((add(a, b, -1), 0), (addc(add(b, a, -1), -1), 1)):
                            if s2.poly.feasible([c]):
                                s = s2.copy()
                                s.poly.assume(c)
                                big = a if v == 0 else b
                                small = b if v == 0 else a
                                out.append((s, I(w, big if m.group(2) == "max" else small)))
                return out
            m = re.match(r"llvm\.(ctlz|cttz|ctpop)\.i(\d+)", name)
            if m:
                w = int(m.group(2))
                v = self.asint(st, args[0], w)
                k = const(v[2])
                if k is not None:
                    k %= 1 << w
                    n = w - k.bit_length() if m.group(1) == "ctlz" else bin(k).count("1") if m.group(1) == "ctpop" else ((k & -k).bit_length() - 1 if k else w)
                    return [(st, I(w, P(n)))]
            if name.startswith("llvm.lifetime"):
                v = args[-1]
                o = st.mem.get(v[1]) if v[0] == "p" else None
                if o is not None and v[1] in fr.locals:
                    o.alive = "start" in name
                    if o.alive:
                        o.cells = {}
                        o.zero = False
                return [(st, None)]
            if name.startswith(("llvm.assume", "llvm.dbg", "llvm.experimental.noalias", "llvm.stacksave", "llvm.stackrestore", "llvm.prefetch")):
                return [(st, None)] if ins["ty"] == "void" else [(st, ("opaque",))]
            if name.startswith("llvm.expect"):
                return [(st, args[0])]
            if name.startswith("llvm.trap"):
                return [("terminate", st, "trap")]
            if name.startswith("llvm.is.constant"):
                return [(st, I(1, P(0)))]
            if name.startswith("llvm.ctpop") and args[0][0] == "i" and const(args[0][2]) is not None:
                return [(st, I(args[0][1], P(bin(const(args[0][2]) % (1 << args[0][1])).count("1"))))]
            raise Unknown("intrinsic %s %s" % (name, str(args)[:100]))
        if name in ("_Znwm", "_Znam", "_ZnwmSt11align_val_t", "malloc"):
            n = const(args[0][2])
            return [(st, ("p", st.alloc(n, name="heap"), P(0)))]
        if name in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free"):
            if args[0][0] == "p" and args[0][1] is not None and args[0][1] in st.mem:
                o = st.mem[args[0][1]]
                if not o.alive:
                    self.report("memory freed twice", ins, st)
                o.alive = False
                o.gone = True
            return [(st, None)]
        if name in ("memcpy", "memmove"):
            n = const(args[2][2])
            if n is None:
                raise Unknown("memcpy of symbolic length")
            self.memcpy(st, args[0], args[1], n, ins)
            return [(st, args[0])]
        if name in ("memcmp", "bcmp"):
            n = const(args[2][2])
            if n is None:
                raise Unknown("memcmp of symbolic length")
            return self.memcmp(st, args[0], args[1], n, ins)
        if name == "__cxa_allocate_exception":
            return [(st, ("p", st.alloc(None, name="exception"), P(0)))]
        if name == "__cxa_free_exception":
            return [(st, None)]
        if name == "__cxa_throw":
            a = ins["args"][1]
            st.exc = a[1] if a[0] == "g" else "?"
            st.notes["throw_at"] = where(ins)
            return self.throw_at(st, ins)
        if name == "__cxa_rethrow":
            st.exc = st.caught[-1] if st.caught else "?"
            return self.throw_at(st, ins)
        if name == "__cxa_begin_catch":
            st.caught.append(st.exc)
            st.exc = None
            return [(st, ("p", st.alloc(None, name="caught"), P(0)))]
        if name == "__cxa_end_catch":
            if st.caught:
                st.caught.pop()
            return [(st, None)]
        if name in ("_ZSt9terminatev", "__clang_call_terminate", "abort", "_ZSt4exiti", "exit"):
            return [("terminate", st, name)]
        if name == "abs" or name == "labs" or name == "llabs":
            w = args[0][1]
            out = []
            for s1, a in self.norm(st, args[0], True):
                lo = srange(w)[0]
                for cs, v in (([a], a), ([addc(scale(a, -1), -1)], scale(a, -1))):
                    if s1.poly.feasible(cs):
                        s = s1.copy()
                        for c in cs:
                            s.poly.assume(c)
                        self.oblige(s, [addc(v, -0), addc(scale(v, -1), srange(w)[1])], "%s() of the smallest value overflows" % name, ins)
                        out.append((s, I(w, v)))
            return out
        return None

    def oblige(self, st, cons, what, ins):
        """every constraint must be entailed; otherwise report (then assume)"""
        self.obligations += 1
        ok = all(st.poly.entails(c) for c in cons)
        if ok:
            self.discharged += 1
        else:
            self.report(what, ins, st)
        for c in cons:
            st.poly.assume(c)
        return ok

    # ---------- plain instructions
    def simple(self, st, fr, ins, op):
        ops = ins.get("ops", [])
        iid = ins["id"]

        def V(k):
            return self.opval(st, fr, ops[k])

        def done(v):
            fr.env[iid] = v
            fr.idx += 1

        if op == "alloca":
            o = st.alloc(ins["asize"], name=ins.get("vname") or "tmp")
            fr.locals.append(o)
            done(("p", o, P(0)))
            return None
        if op == "load":
            done(self.load(st, V(0), ins["size"], ins["ty"], ins))
            return None
        if op == "store":
            v = V(0)
            if v[0] == "undef":
                w = W(ins["vty"])
                v = I(w, st.fresh("undef", *urange(w))) if w else v
            self.store(st, V(1), ins["size"], v, ins)
            fr.idx += 1
            return None
        if op == "getelementptr":
            b = V(0)
            if b[0] != "p":
                raise Unknown("pointer arithmetic on " + b[0])
            if "off" in ins:
                done(("p", b[1], addc(b[2], ins["off"])))
                return None
            if "voff" not in ins:
                raise Unknown("pointer arithmetic")
            outs = [(st, addc(b[2], ins["coff"]))]
            for o, sc in ins["voff"]:
                nxt = []
                for s, acc in outs:
                    v = self.asint(s, self.opval(s, s.frames[-1], o), 64)
                    for s2, p in self.norm(s, v, True):
                        nxt.append((s2, add(acc, p, sc)))
                outs = nxt
            return [(s, ("p", b[1], p)) for s, p in outs]
        if op in ("add", "sub", "mul"):
            w = W(ins["ty"])
            a, b = self.asint(st, V(0), w), self.asint(st, V(1), w)
            f = (lambda x, y: add(x, y)) if op == "add" else (lambda x, y: add(x, y, -1)) if op == "sub" else mul
            if ins.get("nsw") or (op == "mul" and const(a[2]) is None and const(b[2]) is None):
                out = []
                signed = bool(ins.get("nsw"))
                for s1, x in self.norm(st, a, signed):
                    for s2, y in self.norm(s1, b, signed):
                        r = f(x, y)
                        if ins.get("nsw"):
                            lo, hi = srange(w)
                            self.oblige(s2, [addc(r, -lo), addc(scale(r, -1), hi)],
                                        "signed overflow in %s" % {"add": "addition", "sub": "subtraction", "mul": "multiplication"}[op], ins)
                            if s2.poly.empty or not s2.poly.feasible():
                                self.overflowed = True
                                continue
                        out.append((s2, I(w, r)))
                return out
            done(I(w, f(a[2], b[2])))
            return None
        if op in ("sdiv", "srem", "udiv", "urem"):
            return self.division(st, fr, ins, op, V(0), V(1))
        if op == "icmp":
            return self.icmp(st, fr, ins, V(0), V(1))
        if op in ("zext", "sext"):
            w0 = W(ins["sty"])
            v = self.asint(st, V(0), w0)
            w = W(ins["ty"])
            return [(s, I(w, p)) for s, p in self.norm(st, v, op == "sext")]
        if op == "trunc":
            v = self.asint(st, V(0), W(ins["sty"]))
            w = W(ins["ty"])
            if w == 1:
                return self.bitand(st, v, 1, 1)
            done(I(w, v[2]))
            return None
        if op == "shl":
            w = W(ins["ty"])
            a, b = self.asint(st, V(0), w), self.asint(st, V(1), w)
            k = const(b[2])
            if k is None:
                done(I(w, st.fresh("shl", *urange(w))))
                return None
            if not 0 <= k < w:
                self.report("shift by %d" % k, ins, st)
                done(I(w, st.fresh("shl", *urange(w))))
                return None
            if ins.get("nsw"):
                out = []
                for s, p in self.norm(st, a, True):
                    r = scale(p, 1 << k)
                    lo, hi = srange(w)
                    self.oblige(s, [addc(r, -lo), addc(scale(r, -1), hi)], "signed overflow in shift", ins)
                    out.append((s, I(w, r)))
                return out
            done(I(w, scale(a[2], 1 << k)))
            return None
        if op in ("lshr", "ashr"):
            w = W(ins["ty"])
            a, b = self.asint(st, V(0), w), self.asint(st, V(1), w)
            k = const(b[2])
            if k is None:
                done(I(w, st.fresh("shr", *urange(w))))
                return None
            if not 0 <= k < w:
                self.report("shift by %d" % k, ins, st)
                done(I(w, st.fresh("shr", *urange(w))))
                return None
            out = []
            for s, p in self.norm(st, a, op == "ashr"):
                out.append((s, I(w, self.floordiv(s, p, 1 << k)[0])))
            return out
        if op in ("and", "or", "xor"):
            w = W(ins["ty"])
            a, b = self.asint(st, V(0), w), self.asint(st, V(1), w)
            return self.bitop(st, op, w, a, b)
        if op == "select":
            c = self.asint(st, V(0), 1)
            k = const(c[2])
            if k is not None:
                done(V(1) if k & 1 else V(2))
                return None
            out = []
            for val in (1, 0):
                s = st.copy()
                s.poly.assume_eq(addc(c[2], -val))
                if not s.poly.empty and s.poly.feasible():
                    out.append((s, self.opval(s, s.frames[-1], ops[1 if val else 2])))
            return out
        if op == "extractvalue":
            v = V(0)
            if v[0] == "agg":
                for k in ins["idx"]:
                    v = v[1][k]
                done(v)
            elif v[0] == "undef":
                done(("undef",))
            else:
                done(("opaque",))
            return None
        if op == "insertvalue":
            v = V(0)
            k = ins["idx"]
            if len(k) != 1:
                raise Unknown("nested insertvalue")
            els = list(v[1]) if v[0] == "agg" else [("undef",)] * 8
            els[k[0]] = V(1)
            done(("agg", els))
            return None
        if op == "landingpad":
            if st.exc is None:
                raise Unknown("landing pad without exception")
            sel = ("i", 32, P(0))
            for kind, cl in ins["clauses"]:
                m = self.matches(st.exc, cl)
                if m is None:
                    raise Unknown("exception clause")
                if m:
                    sel = ("typeidsel", cl)
                    break
            else:
                if not ins["cleanup"]:
                    return self.unwind_as_values(st)
            done(("agg", [("p", None, P(0)), sel]))
            return None
        if op in ("bitcast", "freeze", "addrspacecast"):
            done(V(0))
            return None
        if op == "ptrtoint":
            v = V(0)
            if v[0] != "p":
                raise Unknown("ptrtoint")
            if v[1] is None:
                done(I(64, v[2]))
                return None
            s = "&" + v[1]
            if s not in st.poly.bounds:
                st.poly.new(s, 4096, (1 << 47) - 1)
            done(I(64, add(sym(s), v[2])))
            return None
        if op in ("sitofp", "uitofp", "fadd", "fmul", "fdiv", "fsub", "fcmp", "fpext", "fptrunc"):
            done(("opaque",) if not W(ins["ty"]) else self.freshval(st, ins["ty"], "fp"))
            return None
        if op == "phi":
            raise Unknown("phi outside of block entry")
        raise Unknown("instruction " + op)

    def unwind_as_values(self, st):
        raise Unknown("filtering landing pad")

    def floordiv(self, st, p, d):
        """floor division by a positive constant: q, r with p = d*q + r, 0 <= r < d"""
        c = const(p)
        if c is not None:
            return P(c // d), P(c % d)
        # split off the divisible part
        qpart = {m: v // d for m, v in p.items() if v % d == 0 and m}
        rest = {m: v for m, v in p.items() if not (v % d == 0 and m)}
        c = const(rest)
        if c is not None:
            return add(qpart, P(c // d)), P(c % d)
        lo, hi = st.poly.range(rest)
        if 0 <= lo and hi < d:
            return qpart, rest
        key = (tuple(sorted(rest.items())), d)
        if key in st.divs:
            q, r = st.divs[key]
        else:
            q = st.fresh("q", lo // d, hi // d)
            r = st.fresh("r", 0, d - 1)
            st.poly.assume_eq(add(add(rest, q, -d), r, -1))
            st.divs[key] = (q, r)
        return add(qpart, q), r

    def division(self, st, fr, ins, op, va, vb):
        w = W(ins["ty"])
        signed = op[0] == "s"
        out = []
        va, vb = self.asint(st, va, w), self.asint(st, vb, w)
        ka, kb = const(va[2]), const(vb[2])
        if ka is not None and kb is not None:
            ka, kb = (k % (1 << w) for k in (ka, kb))
            if signed:
                ka, kb = (k - (1 << w) if k >> (w - 1) else k for k in (ka, kb))
            if kb and (ka, kb) != (-1 << (w - 1), -1):
                self.obligations += 2 if signed else 1
                self.discharged += 2 if signed else 1
                q = abs(ka) // abs(kb) * (1 if (ka < 0) == (kb < 0) else -1)
                return [(st, I(w, P(q if op.endswith("div") else ka - q * kb)))]
        for s1, a in self.norm(st, va, signed):
            for s2, b in self.norm(s1, vb, signed):
                # the divisor must not be zero, the quotient must be representable
                self.obligations += 1
                if s2.poly.feasible([b, scale(b, -1)]):
                    self.report("division by zero", ins, s2)
                else:
                    self.discharged += 1
                if signed:
                    self.obligations += 1
                    if s2.poly.feasible([addc(b, 1), addc(scale(b, -1), -1), addc(scale(a, -1), srange(w)[0])]):
                        self.report("signed overflow in division", ins, s2)
                    else:
                        self.discharged += 1
                parts = []
                for sb in ((1, -1) if signed else (1,)):
                    cb = addc(b, -1) if sb > 0 else addc(scale(b, -1), -1)
                    for sa in ((1, -1) if signed else (1,)):
                        ca = a if sa > 0 else addc(scale(a, -1), -1)
                        if s2.poly.feasible([ca, cb]):
                            parts.append((sa, sb, ca, cb))
                for sa, sb, ca, cb in parts:
                    s = s2.copy()
                    s.poly.assume(ca)
                    s.poly.assume(cb)
                    kb = const(b)
                    ka = const(a)
                    absb = b if sb > 0 else scale(b, -1)
                    if ka is not None and kb is not None and kb != 0:
                        q = abs(ka) // abs(kb) * (1 if sa * sb > 0 else -1)
                        r = ka - q * kb
                        q, r = P(q), P(r)
                    elif kb is not None and kb != 0:
                        ab = abs(kb)
                        if sa > 0:
                            q, r = self.floordiv(s, a, ab)
                        else:
                            q, r = self.floordiv(s, scale(a, -1), ab)
                            q, r = scale(q, -1), scale(r, -1)
                        if kb < 0:
                            q = scale(q, -1)
                    else:
                        key = (tuple(sorted(a.items())), tuple(sorted(b.items())), "t")
                        if key in s.divs:
                            q, r = s.divs[key]
                        else:
                            la, ha = s.poly.range(a)
                            m = max(abs(la), abs(ha))
                            q = s.fresh("q", *((0, m) if sa * sb > 0 else (-m, 0)))
                            lb, hb = s.poly.range(absb)
                            r = s.fresh("r", *((0, min(m, hb - 1)) if sa > 0 else (-min(m, hb - 1), 0)))
                            # a = q*b + r, |r| < |b|
                            s.poly.assume_eq(add(add(a, mul(q, b), -1), r, -1))
                            if sa > 0:
                                s.poly.assume(addc(add(absb, r, -1), -1))
                            else:
                                s.poly.assume(addc(add(absb, r), -1))
                            s.divs[key] = (q, r)
                    if s.poly.empty:
                        continue
                    out.append((s, I(w, q if op.endswith("div") else r)))
        return out

    PRED = {"slt": ("<", True), "sle": ("<=", True), "sgt": (">", True), "sge": (">=", True),
            "ult": ("<", False), "ule": ("<=", False), "ugt": (">", False), "uge": (">=", False), "eq": ("==", None), "ne": ("!=", None)}

    def icmp(self, st, fr, ins, a, b):
        rel, signed = self.PRED[ins["pred"]]
        if "typeid" in (a[0], b[0]) or "typeidsel" in (a[0], b[0]):
            x, y = (a, b) if a[0] in ("typeidsel",) else (b, a)
            same = None
            if x[0] == "typeidsel" and y[0] == "typeid":
                same = x[1] == y[1]
            elif y[0] == "typeid" and x[0] == "i":
                same = False
            if same is None:
                raise Unknown("type selector")
            return [(st, I(1, P(int(same == (rel == "==")))))]
        if ins.get("oty") == "ptr":
            if a[0] == "p" and b[0] == "p":
                if a[1] == b[1]:
                    d = add(a[2], b[2], -1)
                    return self.relation(st, d, rel)
                if (a[1] is None or b[1] is None or True) and rel in ("==", "!="):
                    return [(st, I(1, P(int(rel == "!="))))]
            if a[0] == "f" or b[0] == "f":
                if rel in ("==", "!="):
                    return [(st, I(1, P(int((a == b) == (rel == "==")))))]
            return [(st, I(1, st.fresh("cmp", 0, 1)))]
        w = W(ins["oty"])
        a, b = self.asint(st, a, w), self.asint(st, b, w)
        if signed is None:
            signed = True
            # choose the interpretation in which both are already normalised
            for sg in (True, False):
                lo, hi = srange(w) if sg else urange(w)
                if all(lo <= st.poly.range(v[2])[0] and st.poly.range(v[2])[1] <= hi for v in (a, b)):
                    signed = sg
                    break
        out = []
        for s1, x in self.norm(st, a, signed):
            for s2, y in self.norm(s1, b, signed):
                out.extend(self.relation(s2, add(x, y, -1), rel))
        return out

    def relation(self, st, d, rel):
        """outcomes of d rel 0"""
        c = const(d)
        if c is not None:
            t = {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[rel]
            return [(st, I(1, P(int(t))))]
        neg = scale(d, -1)
        lt, gt = [addc(neg, -1)], [addc(d, -1)]
        le, ge, eq = [neg], [d], [d, neg]
        table = {"<": [(lt, 1), (ge, 0)], "<=": [(le, 1), (gt, 0)], ">": [(gt, 1), (le, 0)], ">=": [(ge, 1), (lt, 0)],
                 "==": [(eq, 1), (lt, 0), (gt, 0)], "!=": [(eq, 0), (lt, 1), (gt, 1)]}[rel]
        feas = [(cs, v) for cs, v in table if st.poly.feasible(cs)]
        if len(feas) == 1:
            cs, v = feas[0]
            if len(cs) > 1:
                for k in cs:
                    st.poly.assume(k)
            return [(st, I(1, P(v)))]
        out = []
        for cs, v in feas:
            s = st.copy()
            for k in cs:
                s.poly.assume(k)
            if not s.poly.empty:
                out.append((s, I(1, P(v))))
        return out

    def bitand(self, st, v, mask, w):
        k = mask.bit_length()
        out = []
        if mask == (1 << k) - 1:
            for s, p in self.norm(st, v, False):
                out.append((s, I(w, self.floordiv(s, p, 1 << k)[1])))
            return out
        return None

    def bitop(self, st, op, w, a, b):
        ca, cb = const(a[2]), const(b[2])
        m = (1 << w) - 1
        if ca is not None and cb is not None:
            x, y = ca & m, cb & m
            r = x & y if op == "and" else x | y if op == "or" else x ^ y
            return [(st, I(w, P(r)))]
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None:
            cb &= m
            if op == "and":
                if cb == 0:
                    return [(st, I(w, P(0)))]
                if cb == m:
                    return [(st, a)]
                r = self.bitand(st, a, cb, w)
                if r is not None:
                    return r
                # contiguous mask: bits i..j
                lowz = (cb & -cb).bit_length() - 1
                top = cb >> lowz
                if top & (top + 1) == 0:
                    out = []
                    for s, p in self.norm(st, a, False):
                        q, _ = self.floordiv(s, p, 1 << lowz)
                        _, r = self.floordiv(s, q, top + 1)
                        out.append((s, I(w, scale(r, 1 << lowz))))
                    return out
                return [(st, I(w, st.fresh("and", 0, cb)))]
            if op == "or":
                if cb == 0:
                    return [(st, a)]
                # disjoint bits: low part of a known to be below
                out = []
                for s, p in self.norm(st, a, False):
                    lowz = (cb & -cb).bit_length() - 1
                    k = cb.bit_length()
                    if (1 << k) - 1 == cb:  # low ones
                        q, _ = self.floordiv(s, p, 1 << k)
                        out.append((s, I(w, addc(scale(q, 1 << k), cb))))
                    elif s.poly.range(p)[1] < (1 << lowz):
                        out.append((s, I(w, addc(p, cb))))
                    else:
                        out.append((s, I(w, s.fresh("or", cb, m))))
                return out
            if op == "xor":
                if cb == 0:
                    return [(st, a)]
                if cb == m:
                    # bitwise not
                    return [(s, I(w, addc(scale(p, -1), m))) for s, p in self.norm(st, a, False)]
                if w == 1:
                    return [(st, I(w, addc(scale(a[2], -1), 1)))]
                return [(st, I(w, st.fresh("xor", 0, m)))]
        if w == 1:
            out = []
            for s, x in [(s, x) for s, x in self.booleans(st, a)]:
                for s2, y in self.booleans(s, b):
                    r = x & y if op == "and" else x | y if op == "or" else x ^ y
                    out.append((s2, I(1, P(r))))
            return out
        if op == "or":
            out = []
            for s, p in self.norm(st, a, False):
                for s2, q in self.norm(s, b, False):
                    lp, hp = s2.poly.range(p)
                    lq, hq = s2.poly.range(q)
                    done = False
                    for x, y, hy in ((p, q, hq), (q, p, hp)):
                        k = max(hy.bit_length(), 0)
                        if all(c % (1 << k) == 0 for c in x.values()):
                            out.append((s2, I(w, add(x, y))))
                            done = True
                            break
                    if not done:
                        out.append((s2, I(w, s2.fresh("or", max(lp, lq), m))))
            return out
        if op == "and":
            out = []
            for s, p in self.norm(st, a, False):
                for s2, q in self.norm(s, b, False):
                    out.append((s2, I(w, s2.fresh("and", 0, min(s2.poly.range(p)[1], s2.poly.range(q)[1])))))
            return out
        return [(st, I(w, st.fresh("bit", 0, m)))]

    def booleans(self, st, v):
        k = const(v[2])
        if k is not None:
            return [(st, k & 1)]
        out = []
        for val in (0, 1):
            s = st.copy()
            s.poly.assume_eq(addc(v[2], -val))
            if not s.poly.empty:
                out.append((s, val))
        return out
