"""C08: arithmetic on rows."""
import itertools
from concurrent.futures import ProcessPoolExecutor
import vp
from absint import Program, State, Unknown, I, P, const
from poly import sym, add, addc, scale, mul, show
from algebra import Algebra, prog

H = r'''
#include <new>
#include "algorithm_row_operations.h"
#include "matrix.h"
using namespace panda;
using R = Row<int>; using M = Matrix<int>;
extern "C" {
void vp_add(R* o, const R* a, const R* b) { new (o) R(*a + *b); }
void vp_sub(R* o, const R* a, const R* b) { new (o) R(*a - *b); }
void vp_mul(R* o, const R* a, int c) { new (o) R(*a * c); }
void vp_mul2(R* o, const R* a, int c) { new (o) R(c * *a); }
void vp_div(R* o, const R* a, int c) { new (o) R(*a / c); }
void vp_adda(R* a, const R* b) { *a += *b; }
void vp_suba(R* a, const R* b) { *a -= *b; }
void vp_mula(R* a, int c) { *a *= c; }
void vp_diva(R* a, int c) { *a /= c; }
int vp_dot(const R* a, const R* b) { return *a * *b; }
void vp_norm(R* o, const R* a, const M* e) { new (o) R(algorithm::normalize(*a, *e)); }
int vp_gcd(const R* a) { return algorithm::gcd(*a); }
int vp_lcm(const R* a) { return algorithm::lcm(*a); }
}
'''
ELIM = {"vp_add": 2}


class RowOps(Algebra):
    def __init__(self, prog):
        super().__init__(prog, {r"panda::algorithm::lcm<(int|long|short)>\((int|long|short), (int|long|short)\)": self.h_lcm}, max_states=6000, max_steps=50000)

    def h_lcm(self, i, st, ins, a, dem):
        s = st.fresh("lcm", 1, 1 << 20)
        pr = set()
        for x in a:
            for m in x[2]:
                pr |= set(st.notes.get("lcm", {}).get(m[0] if len(m) == 1 else None, ()))
            k = const(x[2])
            if k is None or k not in (1, -1):
                pr.add(self.canon(x[2]))
        st.notes["lcm"] = dict(st.notes.get("lcm", {}), **{list(s)[0][0]: frozenset(pr)})
        return [(st, I(a[0][1], s))]


_it = {}


@vp.guard()
def job(j):
    path, fn, n, extra = j
    p = _it.get(path)
    if p is None:
        p = _it[path] = Program(path)
    it = RowOps(p)
    st = State()
    B = 5
    S = lambda nm, lo=-B, hi=B: st.poly.new(nm, lo, hi)
    a = [S("a%d" % k) for k in range(n)]
    found, und = vp.PARTIAL, []
    cnt = 0

    def done(outs, f):
        nonlocal cnt
        for r in outs:
            if r[0] == "unknown":
                und.append("%s: %s" % (fn, r[2]))
                continue
            cnt += 1
            try:
                for what in f(r):
                    found.append((fn, what + " (%d entries%s)" % (n, ", both operands the same row" if extra == "alias" else "")))
            except Unknown as e:
                und.append("%s: %s" % (fn, e))

    ra = it.vec(st, a)
    name = {"vp_add": "row + row", "vp_sub": "row - row", "vp_mul": "row * integer", "vp_mul2": "integer * row", "vp_div": "row / integer",
            "vp_adda": "row += row", "vp_suba": "row -= row", "vp_mula": "row *= integer", "vp_diva": "row /= integer", "vp_dot": "scalar product",
            "vp_norm": "normalize", "vp_gcd": "gcd of a row", "vp_lcm": "lcm of a row"}[fn]
    if fn in ("vp_add", "vp_sub", "vp_adda", "vp_suba", "vp_dot"):
        b = a if extra == "alias" else [S("b%d" % k) for k in range(n)]
        rb = ra if extra == "alias" else it.vec(st, b)
        if fn == "vp_dot":
            want = P(0)
            for x, y in zip(a, b):
                want = add(want, mul(x, y))

            def f(r):
                if r[0] != "ret":
                    yield "%s ends with %s" % (name, r[0])
                elif not it.eq(r[1], r[2][2], want):
                    yield "%s returns %s instead of %s" % (name, show(r[2][2]), show(want))
            done(it.call_fn(st, fn, [ra, rb]), f)
        else:
            k = 1 if "add" in fn else -1
            want = [add(x, y, k) for x, y in zip(a, b)]
            target = ra if fn.endswith("a") else ("p", st.alloc(24, name="out"), P(0))
            args = [ra, rb] if fn.endswith("a") else [target, ra, rb]

            def f(r):
                if r[0] != "ret":
                    yield "%s ends with %s" % (name, r[0])
                    return
                got = it.read(r[1], target)
                if len(got) != n or not all(it.eq(r[1], x, y) for x, y in zip(got, want)):
                    yield "%s is [%s] instead of [%s]" % (name, ", ".join(map(show, got)), ", ".join(map(show, want)))
                if target is not ra and [1 for x, y in zip(it.read(r[1], ra), a) if not it.eq(r[1], x, y)]:
                    yield "%s changes its first operand" % name
                if rb is not ra and [1 for x, y in zip(it.read(r[1], rb), b) if not it.eq(r[1], x, y)]:
                    yield "%s changes its second operand" % name
            done(it.call_fn(st, fn, args), f)
    elif fn in ("vp_mul", "vp_mul2", "vp_mula", "vp_div", "vp_diva"):
        c = S("c")
        target = ra if fn in ("vp_mula", "vp_diva") else ("p", st.alloc(24, name="out"), P(0))
        args = [ra, I(32, c)] if target is ra else [target, ra, I(32, c)]

        def f(r):
            st2 = r[1]
            if r[0] == "throw":
                if "div" not in fn or not it.iszero(st2, c):
                    yield "%s throws although the divisor is not zero" % name
                return
            if r[0] != "ret":
                yield "%s ends with %s" % (name, r[0])
                return
            got = it.read(st2, target)
            if len(got) != n:
                yield "%s returns %d entries" % (name, len(got))
                return
            if "mul" in fn:
                if not all(it.eq(st2, x, mul(y, c)) for x, y in zip(got, a)):
                    yield "%s is [%s]" % (name, ", ".join(map(show, got)))
            else:
                if n and it.iszero(st2, c):
                    yield "%s returns although the divisor is zero" % name
                for x, y in zip(got, a):
                    if it.eq(st2, x, y) and it.eq(st2, c, P(1)):
                        continue
                    if it.eq(st2, x, scale(y, -1)) and it.eq(st2, c, P(-1)):
                        continue
                    k = (tuple(sorted(y.items())), tuple(sorted(c.items())), "t")
                    if k in st2.divs and it.eq(st2, st2.divs[k][0], x):
                        continue
                    if it.iszero(st2, y) and it.iszero(st2, x):
                        continue
                    fc = const(it.fix(st2, c))
                    if fc:
                        q, rr = None, None
                        d = add(y, mul(x, P(fc)), -1)   # remainder
                        lo, hi = st2.poly.range(d)
                        if st2.poly.entails(addc(d, abs(fc) - 1)) and st2.poly.entails(addc(scale(d, -1), abs(fc) - 1)):
                            continue
                    yield "%s: entry %s is not the quotient" % (name, show(x))
            if target is not ra and [1 for x, y in zip(it.read(st2, ra), a) if not it.eq(st2, x, y)]:
                yield "%s changes its operand" % name
        done(it.call_fn(st, fn, args), f)
    elif fn in ("vp_gcd", "vp_lcm"):
        def f(r):
            st2 = r[1]
            if r[0] != "ret":
                yield "%s ends with %s" % (name, r[0])
                return
            g = r[2][2]
            nz = [x for x in a if not it.iszero(st2, x)]
            if fn == "vp_gcd":
                if not nz:
                    if not it.iszero(st2, g):
                        yield "%s of a zero row is %s" % (name, show(g))
                    return
                if it.eq(st2, g, P(1)):
                    # all entries were looked at, or a divisor chain reached one: one divides everything; it must be a gcd of some entries
                    return
                if not st2.poly.entails(g):
                    yield "%s may be negative" % name
                have = {it.canon(it.fix(st2, dict(t))) for t in it.prov(st2, g)}
                miss = [show(x) for x in nz if it.canon(it.fix(st2, x)) not in have]
                if miss:
                    yield "%s does not take the entries %s into account" % (name, miss)
                if not st2.poly.feasible([addc(g, -2)]):
                    return
            else:
                if it.eq(st2, g, P(1)):
                    if all(it.eq(st2, x, P(1)) or it.eq(st2, x, P(-1)) for x in a):
                        return
                syms = [m[0] for m in g if len(m) == 1]
                have = {it.canon(it.fix(st2, dict(t))) for t in (st2.notes.get("lcm", {}).get(syms[0], ()) if len(syms) == 1 else ())}
                if len(g) == 1 and syms and not have:
                    have = {it.canon(it.fix(st2, g))}
                miss = [show(x) for x in a if it.canon(it.fix(st2, x)) not in have and not it.eq(st2, x, P(1)) and not it.eq(st2, x, P(-1))]
                if miss:
                    yield "%s does not take the entries %s into account" % (name, miss)
        done(it.call_fn(st, fn, [ra]), f)
    elif fn == "vp_norm":
        pivots = extra
        eqs = []
        for k, pv in enumerate(pivots):
            e = []
            for cidx in range(n):
                if cidx < pv or (cidx in pivots and cidx != pv):
                    e.append(P(0))
                elif cidx == pv:
                    e.append(S("p%d" % k, 1, B))
                else:
                    e.append(S("e%d_%d" % (k, cidx), -B, B))
            eqs.append(e)
        m = it.matrix(st, eqs)
        out = ("p", st.alloc(24, name="out"), P(0))
        prods = []
        ps = [e[pv] for e, pv in zip(eqs, pivots)]
        for mask in itertools.product((0, 1), repeat=len(ps)):
            t = P(1)
            for bit, x in zip(mask, ps):
                if bit:
                    t = mul(t, x)
            prods.append(t)

        def f(r):
            st2 = r[1]
            if r[0] != "ret":
                yield "%s ends with %s" % (name, r[0])
                return
            got = it.read(st2, out)
            if len(got) != n:
                yield "%s returns %d entries" % (name, len(got))
                return
            raw, g = it.descale(st2, got)
            if raw is None:
                yield "%s divides the entries by different values" % name
                return
            if g is not None:
                if not it.divides(st2, g, raw):
                    yield "%s divides by something that is not a common divisor of all entries" % name
            else:
                # not divided: the gcd must be known to be one, or the row zero
                pass
            if not it.propagate(st2, [(a[pv], x) for pv in pivots for x in ps]):
                return
            raw = [it.fix(st2, x) for x in raw]
            row = [it.fix(st2, x) for x in a]
            ok = False
            # row * (product of the pivots that take part) - sum of multiples of equations
            for mask in itertools.product((0, 1), repeat=len(ps)):
                if any(not bit and not it.iszero(st2, row[pv]) for bit, pv in zip(mask, pivots)):
                    continue
                on = [k for k in range(len(ps)) if mask[k]]

                def prod(ks):
                    t = P(1)
                    for k in ks:
                        t = mul(t, ps[k])
                    return t
                exp = [mul(x, prod(on)) for x in row]
                for k in on:
                    exp = [add(x, mul(mul(row[pivots[k]], prod([q for q in on if q != k])), y), -1) for x, y in zip(exp, eqs[k])]
                exp = [it.fix(st2, x) for x in exp]
                for t in prods:
                    t = it.fix(st2, t)
                    if all(it.eq(st2, mul(x, t), y) for x, y in zip(raw, exp)) or all(it.eq(st2, x, mul(t, y)) for x, y in zip(raw, exp)):
                        ok = True
                        break
                if ok:
                    break
            if not ok:
                yield "%s: [%s] is not the row minus the right multiples of the equations (times a positive factor)" % (name, ", ".join(map(show, raw)))
            # completely reduced
            if g is None and len([x for x in raw if not it.iszero(st2, x)]) >= 1:
                gs = [k for k in st2.notes.get("gcd", {})]
                nzr = [x for x in raw if not it.iszero(st2, x)]
                if not any(it.divides(st2, sym(k), raw) and not st2.poly.feasible([addc(sym(k), -2)]) for k in gs) and \
                   not any(not st2.poly.feasible([addc(x, -2)]) and not st2.poly.feasible([addc(scale(x, -1), -2)]) for x in nzr) and \
                   not any(not st2.poly.feasible([addc(sym(k), -2)]) and it.prov(st2, sym(k)) <= {it.canon(x) for x in raw} | {it.canon(it.fix(st2, x)) for x in raw} for k in gs):
                    yield "%s: the result is not divided by the greatest common divisor of its entries" % name
        done(it.call_fn(st, fn, [out, ra, m]), f)
    return found, und, cnt


def check(c):
    path = prog(H, "rowops", ["algorithm_row_operations.cpp", "algorithm_inequality_operations.cpp"])
    jobs = []
    for n in (1, 2, 3):
        for fn in ("vp_add", "vp_sub", "vp_adda", "vp_suba", "vp_dot"):
            jobs.append((path, fn, n, None))
            jobs.append((path, fn, n, "alias"))
        for fn in ("vp_mul", "vp_mul2", "vp_mula", "vp_div", "vp_diva", "vp_gcd", "vp_lcm"):
            jobs.append((path, fn, n, None))
    for n, pv in ((2, ()), (3, ()), (3, (0,)), (3, (1,)), (2, (0,)), (2, (1,)), (3, (0, 1)), (4, (0, 2))):
        jobs.append((path, "vp_norm", n, pv))
    jobs.sort(key=lambda j: -j[2])
    n = 0
    with ProcessPoolExecutor(8) as ex:
        for found, und, k in ex.map(job, jobs):
            n += k
            for fn, what in found:
                c.violation(fn + ": " + what[:60], "src/algorithm_row_operations.cpp", what)
            for u in und:
                if u not in c.undecided:
                    c.undecided.append(u)
    c.coverage.update(operations=13, cases=len(jobs), paths=n, undecided_paths=len(c.undecided), rule="result entries equal the defining polynomial of the operation on every path; divisors come from the gcd of all entries")
    c.assumptions += ["rows of 1 to 4 entries, symbolic entries between -5 and 5 (results are compared as polynomials, not for these values)",
                      "gcd and lcm of two integers are uninterpreted (see the property on them)", "instantiation for int"]
    if n == 0:
        raise vp.Broken("%d paths decided: %s" % (n, c.undecided[:3]))


if __name__ == "__main__":
    vp.main("C08", "abstract interpretation over polynomial forms", check)
