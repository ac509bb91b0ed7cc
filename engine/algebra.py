"""Abstract interpretation of row algebra: entries are polynomials over bounded integer symbols.
The greatest common divisor of two values is a symbol that remembers what it divides."""
import re
import vp
from absint import Interp, State, Unknown, I, P, const, Obj, where, srange
from poly import sym, add, addc, scale, mul, show

NULL = ("p", None, P(0))


class Algebra(Interp):
    exact = True
    SIZE = 4
    BITS = 32

    def __init__(self, prog, handlers=None, gcd=True, **kw):
        h = dict(handlers or {})
        if gcd:
            h[r"panda::algorithm::gcd<(int|long|short)>\((int|long|short), (int|long|short)\)"] = self.h_gcd
        h[r"std::ostream"] = self.h_quiet
        kw.setdefault("check_ub", False)
        kw.setdefault("max_states", 3000)
        super().__init__(prog, h, **kw)

    def h_quiet(self, i, st, ins, a, dem):
        return None

    # ---------- building and reading
    def vec(self, st, forms, at=None, elsize=None):
        n = elsize or self.SIZE
        at = at or ("p", st.alloc(24, name="row"), P(0))
        o = st.mem[at[1]]
        off = const(at[2])
        b = st.alloc(n * len(forms), name="elements") if forms else None
        for k, f in enumerate(forms):
            st.mem[b].cells[n * k] = (n, I(8 * n, f))
        for k, e in ((0, 0), (8, n * len(forms)), (16, n * len(forms))):
            o.cells[off + k] = (8, ("p", b, P(e)) if b else NULL)
        return at

    def vecs(self, st, rows, put, at=None):
        """vector of 24-byte elements; put(st, element, at) fills one"""
        at = at or ("p", st.alloc(24, name="matrix"), P(0))
        o = st.mem[at[1]]
        off = const(at[2])
        b = st.alloc(24 * len(rows), name="rows") if rows else None
        for k, r in enumerate(rows):
            put(st, r, ("p", b, P(24 * k)))
        for k, e in ((0, 0), (8, 24 * len(rows)), (16, 24 * len(rows))):
            o.cells[off + k] = (8, ("p", b, P(e)) if b else NULL)
        return at

    def matrix(self, st, rows, at=None):
        return self.vecs(st, rows, lambda s, r, a: self.vec(s, r, a), at)

    def span(self, st, ptr):
        """-> (object, begin, end) of a vector"""
        o = st.mem[ptr[1]]
        off = const(ptr[2])
        r = []
        for k in (0, 8):
            c = o.cells.get(off + k)
            v = NULL if (c is None and o.zero) or (c and c[1][0] == "zero") else c and c[1]
            if not v or v[0] != "p":
                raise Unknown("vector not recognized")
            r.append(v)
        if r[0][1] is None:
            return None, 0, 0
        if r[0][1] != r[1][1] or const(r[0][2]) is None or const(r[1][2]) is None:
            raise Unknown("vector not recognized")
        return r[0][1], const(r[0][2]), const(r[1][2])

    def read(self, st, ptr, elsize=None):
        n = elsize or self.SIZE
        b, s, e = self.span(st, ptr)
        if b is None:
            return []
        out = []
        for k in range(s, e, n):
            c = st.mem[b].cells.get(k)
            if c is None and st.mem[b].zero or c and c[1][0] == "zero":
                out.append(P(0))
            elif c and c[0] == n and c[1][0] == "i":
                out.append(c[1][2])
            else:
                raise Unknown("element not recognized")
        return out

    def readm(self, st, ptr):
        b, s, e = self.span(st, ptr)
        return [self.read(st, ("p", b, P(k))) for k in range(s, e, 24)] if b else []

    # ---------- gcd
    def fix(self, st, f):
        """replace symbols that have one possible value"""
        r = P(0)
        for m, c in f.items():
            t = P(c)
            for s in m:
                lo, hi = st.poly.bounds[s]
                t = mul(t, P(lo) if lo == hi else sym(s))
            r = add(r, t)
        return r

    def propagate(self, st, pairs):
        """products x*y (y > 0) with one possible value 0, 1 or -1 fix x (and y); False: contradiction"""
        for x, y in pairs:
            f = self.fix(st, mul(x, y))
            if const(f) is not None:
                continue
            lo, hi = st.poly.range(f)
            for v in (0, 1, -1):
                if lo <= v <= hi and st.poly.entails_eq(addc(f, -v)):
                    st.poly.assume_eq(addc(x, -v))
                    if v:
                        st.poly.assume_eq(addc(y, -1))
                    break
        old, st.poly.cons = st.poly.cons, []
        for f in old:
            st.poly.assume(self.fix(st, f))
        return not st.poly.empty

    def iszero(self, st, f):
        f = self.fix(st, f)
        k = const(f)
        if k is not None:
            return k == 0
        lo, hi = st.poly.range(f)
        if lo > 0 or hi < 0:
            return False
        return st.poly.entails(f) and st.poly.entails(scale(f, -1))

    def h_gcd(self, i, st, ins, a, dem):
        w = a[0][1]
        out = []
        for s1, x in self.norm(st, a[0], True):
            for s2, y in self.norm(s1, a[1], True):
                for s3, zx in self.relation(s2.copy(), x, "=="):
                    for s4, zy in self.relation(s3.copy(), y, "=="):
                        zx_, zy_ = const(zx[2]), const(zy[2])
                        prov = self.prov(s4, x) | self.prov(s4, y)
                        if zx_ and zy_:
                            out.append((s4, I(w, P(0))))
                            continue
                        hi = 1 << 20
                        for f, z in ((x, zx_), (y, zy_)):
                            if not z:
                                l, h = s4.poly.range(f)
                                hi = min(hi, max(abs(l), abs(h)))
                        g = s4.fresh("gcd", 1, hi)
                        for m in g:
                            s4.notes["gcd"] = dict(s4.notes.get("gcd", {}), **{m[0]: frozenset(prov)})
                        for f, z in ((x, zx_), (y, zy_)):
                            if not z:   # g <= |f|
                                l, h = s4.poly.range(f)
                                if l > 0:
                                    s4.poly.assume(add(f, g, -1))
                                elif h < 0:
                                    s4.poly.assume(add(scale(f, -1), g, -1))
                        if zx_ != zy_:  # gcd(0, f) = |f|: keep it a divisor symbol, but equal to |f|
                            f = y if zx_ else x
                            l, h = s4.poly.range(f)
                            if l >= 0:
                                s4.poly.assume_eq(add(g, f, -1))
                            elif h <= 0:
                                s4.poly.assume_eq(add(g, f))
                        out.append((s4, I(w, g)))
        return out

    def prov(self, st, f):
        """the values a form is a common divisor of: gcd symbols remember theirs"""
        g = st.notes.get("gcd", {})
        if len(f) == 1:
            m, c = list(f.items())[0]
            if len(m) == 1 and abs(c) == 1 and m[0] in g:
                return set(g[m[0]])
        if self.iszero(st, f):
            return set()
        return {self.canon(f)}

    @staticmethod
    def canon(f):
        """up to sign"""
        t = tuple(sorted(f.items()))
        n = tuple(sorted(scale(f, -1).items()))
        return max(t, n)

    def descale(self, st, forms):
        """(raw forms, divisor or None): undo a division of all entries by one gcd symbol"""
        byq = {}
        for (a, b, t), (q, r) in [(k, v) for k, v in st.divs.items() if len(k) == 3]:
            byq[tuple(sorted(q.items()))] = (dict(a), dict(b))
        raw, divs = [], set()
        for f in forms:
            k = byq.get(tuple(sorted(f.items()))) if f else None
            if k:
                raw.append(k[0])
                divs.add(tuple(sorted(k[1].items())))
            elif self.iszero(st, f):
                raw.append(P(0))
            else:
                raw.append(f)
                divs.add(None)
        if len(divs) == 0:
            return raw, None
        if len(divs) > 1:
            return None, None
        d = divs.pop()
        return raw, (dict(d) if d is not None else None)

    def divides(self, st, g, raw):
        """is g a (recorded) common divisor of all raw entries, and positive?"""
        pr = self.prov(st, g)
        gl = st.notes.get("gcd", {})
        if not (len(g) == 1 and len(list(g)[0]) == 1 and list(g)[0][0] in gl and list(g.values())[0] == 1):
            if not st.poly.entails(addc(g, -1)):
                return False
        need = {self.canon(f) for f in raw if not self.iszero(st, f)}
        have = {self.canon(self.fix(st, dict(t))) for t in pr} | set(pr)
        need2 = {self.canon(self.fix(st, dict(t))) for t in need}
        return need <= have or need2 <= have

    def primitive(self, st, got, exp, pos=None, what="is"):
        """got = exp divided by the greatest common divisor of its entries? yields complaints"""
        if len(got) != len(exp):
            yield "has %d entries instead of %d" % (len(got), len(exp))
            return
        raw, g = self.descale(st, got)
        if raw is None:
            yield "divides the entries by different values"
            return
        if g is not None and not self.divides(st, g, raw):
            yield "divides by something that is not a common divisor of all entries"
            return
        raw = [self.fix(st, x) for x in raw]
        exp = [self.fix(st, x) for x in exp]
        if not all(self.eq(st, x, y) for x, y in zip(raw, exp)):
            yield "is [%s] instead of [%s] (in lowest terms)" % (", ".join(map(show, raw)), ", ".join(map(show, exp)))
            return
        if g is None and not self.lowest(st, raw):
            yield "is not divided by the greatest common divisor of its entries"

    def lowest(self, st, raw):
        """is the gcd of the entries known to be one (or all are zero)?"""
        nzr = [x for x in raw if not self.iszero(st, x)]
        if not nzr:
            return True
        gs = list(st.notes.get("gcd", {}))
        have = {self.canon(x) for x in raw} | {self.canon(self.fix(st, x)) for x in raw}
        one = lambda f: not st.poly.feasible([addc(f, -2)])
        return any(one(sym(k)) and self.divides(st, sym(k), raw) for k in gs) or any(one(x) and one(scale(x, -1)) for x in nzr) or \
            any(one(sym(k)) and {self.canon(self.fix(st, dict(t))) for t in self.prov(st, sym(k))} <= have for k in gs)

    def eq(self, st, a, b):
        a, b = self.fix(st, a), self.fix(st, b)
        d = add(a, b, -1)
        return const(d) == 0 if const(d) is not None else self.iszero(st, d)


def prog(text, name, files, roots=(r"^vp_",), stubs=(r"algorithm::(gcd|lcm)<",)):
    return vp.link([vp.harness(text, name)], files, stubs, roots)
