"""Abstract numeric domain: affine/polynomial forms over bounded integer symbols, with a
convex polyhedron (conjunction of linear constraints over monomials) per abstract state.

Emptiness of a polyhedron is decided here, by exact rational simplex plus integer
tightening of constraints; no external solver is involved.  Products of constraints
(reformulation-linearisation) are added for monomials of degree two."""
from fractions import Fraction
from math import gcd

ONE = ()


def P(c=0):
    return {ONE: c} if c else {}


def sym(s):
    return {(s,): 1}


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def addc(a, c):
    r = dict(a)
    v = r.get(ONE, 0) + c
    if v:
        r[ONE] = v
    else:
        r.pop(ONE, None)
    return r


def scale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            t = tuple(sorted(m + n))
            v = r.get(t, 0) + c * d
            if v:
                r[t] = v
            else:
                r.pop(t, None)
    return r


def const(a):
    """the constant value, or None"""
    if not a:
        return 0
    if len(a) == 1 and ONE in a:
        return a[ONE]
    return None


def show(a):
    if not a:
        return "0"
    out = []
    for m, c in sorted(a.items(), key=lambda x: (len(x[0]), x[0])):
        n = "*".join(m)
        if not m:
            out.append("%d" % c)
        elif c == 1:
            out.append(n)
        elif c == -1:
            out.append("-" + n)
        else:
            out.append("%d*%s" % (c, n))
    return " + ".join(out).replace("+ -", "- ")


class Budget(Exception):
    pass


def tighten(a):
    """a >= 0 over integers: divide by the gcd of the non-constant coefficients, floor the constant"""
    g = 0
    for m, c in a.items():
        if m:
            g = gcd(g, c)
    if g > 1:
        k = a.get(ONE, 0)
        r = {m: c // g for m, c in a.items() if m}
        f = k // g
        if f:
            r[ONE] = f
        return r
    return a


def mono_bounds(m, bounds):
    lo = hi = 1
    for s in m:
        l, h = bounds[s]
        c = [lo * l, lo * h, hi * l, hi * h]
        lo, hi = min(c), max(c)
    if len(m) == 2 and m[0] == m[1] and lo < 0:
        lo = 0
    return lo, hi


def poly_bounds(a, bounds):
    lo = hi = a.get(ONE, 0)
    for m, c in a.items():
        if m:
            l, h = mono_bounds(m, bounds)
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
    return lo, hi


def feasible_lp(cons, bnd):
    """Is there a rational point with every constraint (dict >= 0) and lo<=m<=hi?
    cons: list of {mono: coef, (): const}; bnd: mono -> (lo, hi)."""
    # interval propagation first
    bnd = dict(bnd)
    for _ in range(8):
        changed = False
        for a in cons:
            lo_sum = None
            hi = a.get(ONE, 0)
            for m, c in a.items():
                if m:
                    l, h = bnd[m]
                    hi += c * h if c > 0 else c * l
            if hi < 0:
                return False
            for m, c in a.items():
                if not m:
                    continue
                l, h = bnd[m]
                rest = hi - (c * h if c > 0 else c * l)  # max of the others
                # c*m >= -rest
                if c > 0:
                    nl = -((rest) // c)  # ceil(-rest/c)
                    if nl > l:
                        l = nl
                        changed = True
                else:
                    nh = rest // (-c)
                    if nh < h:
                        h = nh
                        changed = True
                if l > h:
                    return False
                if (l, h) != bnd[m]:
                    old = bnd[m]
                    bnd[m] = (l, h)
                    # keep hi in step
                    hi = hi - (c * old[1] if c > 0 else c * old[0]) + (c * h if c > 0 else c * l)
        if not changed:
            break
    # drop constraints that hold for the box
    rows = []
    for a in cons:
        lo = a.get(ONE, 0)
        nvar = 0
        for m, c in a.items():
            if m:
                nvar += 1
                l, h = bnd[m]
                lo += c * l if c > 0 else c * h
        if lo < 0:
            rows.append(a)
    if not rows:
        return True
    # general simplex (Dutertre/de Moura): basic row variables with bound [0, inf)
    vs = sorted({m for a in rows for m in a if m})
    nv = len(vs)
    idx = {m: i for i, m in enumerate(vs)}
    lo = [Fraction(bnd[m][0]) for m in vs]
    hi = [Fraction(bnd[m][1]) for m in vs]
    n = nv + len(rows)
    T = {}  # basic var -> {nonbasic: coef}
    for k, a in enumerate(rows):
        T[nv + k] = {idx[m]: Fraction(c) for m, c in a.items() if m}
        lo.append(Fraction(-a.get(ONE, 0)))
        hi.append(None)
    val = [lo[i] for i in range(nv)] + [Fraction(0)] * len(rows)
    for b, row in T.items():
        val[b] = sum((c * val[j] for j, c in row.items()), Fraction(0))
    steps = 0
    while True:
        steps += 1
        if steps > 4000:
            raise Budget("simplex")
        bad = None
        for b in sorted(T):
            if lo[b] is not None and val[b] < lo[b]:
                bad = (b, lo[b], 1)
                break
            if hi[b] is not None and val[b] > hi[b]:
                bad = (b, hi[b], -1)
                break
        if bad is None:
            return True
        b, target, d = bad
        row = T[b]
        piv = None
        for j in sorted(row):
            c = row[j] * d
            if (c > 0 and (hi[j] is None or val[j] < hi[j])) or (c < 0 and (lo[j] is None or val[j] > lo[j])):
                piv = j
                break
        if piv is None:
            return False
        # pivot b <-> piv, set val[b]=target
        c = row[piv]
        theta = (target - val[b]) / c
        val[b] = target
        val[piv] += theta
        for o, r in T.items():
            if o != b and piv in r:
                val[o] += r[piv] * theta
        del T[b]
        new = {j: -v / c for j, v in row.items() if j != piv}
        new[b] = Fraction(1) / c
        for o, r in list(T.items()):
            k = r.pop(piv, None)
            if k:
                for j, v in new.items():
                    w = r.get(j, 0) + k * v
                    if w:
                        r[j] = w
                    else:
                        r.pop(j, None)
        T[piv] = new


class Poly:
    """A set of constraints over bounded symbols.  Constraints are dicts meaning >= 0."""
    __slots__ = ("bounds", "cons", "empty")

    def __init__(self):
        self.bounds = {}
        self.cons = []
        self.empty = False

    def copy(self):
        r = Poly()
        r.bounds = dict(self.bounds)
        r.cons = list(self.cons)
        r.empty = self.empty
        return r

    def new(self, name, lo, hi):
        self.bounds[name] = (lo, hi)
        return sym(name)

    def range(self, a):
        return poly_bounds(a, self.bounds)

    def assume(self, a):
        """add a >= 0"""
        a = tighten(a)
        k = const(a)
        if k is not None:
            if k < 0:
                self.empty = True
            return
        lo, hi = self.range(a)
        if hi < 0:
            self.empty = True
            return
        if lo >= 0:
            return
        # single symbol: bound
        ms = [m for m in a if m]
        if len(ms) == 1 and len(ms[0]) == 1:
            s = ms[0][0]
            c = a[ms[0]]
            k = a.get(ONE, 0)
            l, h = self.bounds[s]
            if c > 0:
                l = max(l, -(k // c))
            else:
                h = min(h, k // (-c))
            self.bounds[s] = (l, h)
            if l > h:
                self.empty = True
            return
        if a not in self.cons:
            self.cons.append(a)

    def assume_eq(self, a):
        self.assume(a)
        self.assume(scale(a, -1))

    def _relevant(self, extra):
        """constraints connected to the query through shared symbols"""
        syms = set()
        for a in extra:
            for m in a:
                syms.update(m)
        cons = list(self.cons)
        used = [False] * len(cons)
        out = []
        changed = True
        while changed:
            changed = False
            for i, a in enumerate(cons):
                if not used[i]:
                    s = {x for m in a for x in m}
                    if s & syms:
                        used[i] = True
                        syms |= s
                        out.append(a)
                        changed = True
        return out

    def feasible(self, extra=()):
        if self.empty:
            return False
        extra = [tighten(a) for a in extra]
        for a in extra:
            if self.range(a)[1] < 0:
                return False
        if extra:
            cons = self._relevant(extra) + extra
        else:
            cons = list(self.cons)
        if not cons:
            return True
        return self._feas(cons + self._modular(cons))

    def _modular(self, cons):
        """integer consequences of equalities: from g*X + Y = 0 with |Y| < g follows Y = 0"""
        out = []
        keys = {tuple(sorted(a.items())) for a in cons}
        for a in cons:
            if tuple(sorted(scale(a, -1).items())) not in keys:
                continue
            for g in sorted({abs(c) for m, c in a.items() if m and abs(c) > 1}):
                y = {m: c for m, c in a.items() if c % g}
                if len(y) == len(a):
                    continue
                lo, hi = self.range(y)
                ks = range(-(-lo // g), hi // g + 1)
                if ks.stop <= ks.start:
                    out.append(P(-1))
                elif ks.stop - ks.start == 1:
                    e = addc(y, -ks[0] * g)
                    out += [e, scale(e, -1)]
        return [o for o in out if o]

    def _feas(self, cons):
        monos = {m for a in cons for m in a if m}
        bounds = dict(self.bounds)
        # propagate single-symbol bounds through the linear part first
        bnd = {m: mono_bounds(m, bounds) for m in monos}
        if not feasible_lp(cons, bnd):
            return False
        nl = [m for m in monos if len(m) >= 2]
        if not nl:
            return True
        # reformulation-linearisation: multiply constraints on one factor by sign facts of the other
        extra = []
        lin = [a for a in cons if all(len(m) <= 1 for m in a)]
        bcons = {}
        for s in {x for m in nl for x in m}:
            l, h = bounds[s]
            # tighten using lp-propagated boxes is done by feasible_lp; use raw bounds here
            bcons[s] = [addc(sym(s), -l), addc(scale(sym(s), -1), h)]
        allnl = set(nl)
        for m in list(nl):
            if len(m) != 2:
                continue
            for u, v in ((m[0], m[1]), (m[1], m[0])):
                for c1 in [a for a in lin if (u,) in a] + bcons[u]:
                    for c2 in bcons[v]:
                        p = mul(c1, c2)
                        if all(len(x) <= 2 for x in p):
                            extra.append(tighten(p))
        cons2 = []
        seen = set()
        for a in cons + extra + [b for s in bcons for b in bcons[s]]:
            k = tuple(sorted(a.items()))
            if k in seen or const(a) is not None:
                continue
            seen.add(k)
            cons2.append(a)
        monos = {m for a in cons2 for m in a if m}
        bnd = {m: mono_bounds(m, bounds) for m in monos}
        return feasible_lp(cons2, bnd)

    def entails(self, a):
        """a >= 0 in every point?"""
        if self.empty:
            return True
        if self.range(a)[0] >= 0:
            return True
        return not self.feasible([addc(scale(a, -1), -1)])

    def entails_eq(self, a):
        return self.entails(a) and self.entails(scale(a, -1))
