"""C11: greatest common divisor, least common multiple and absolute value of machine integers."""
import math
from concurrent.futures import ProcessPoolExecutor
import vp
from absint import Program, State, Unknown, I, P, const, srange
from poly import sym, add, addc, scale, mul, show
from algebra import Algebra, prog

TYPES = {"i16": ("int16_t", 16), "int": ("int", 32), "i64": ("int64_t", 64)}
H = r'''
#include <cstdint>
#include "algorithm_integer_operations.h"
using namespace panda;
extern "C" {
short vp_abs(short a) { return algorithm::abs(a); }
''' + "\n".join("%s vp_gcd_%s(%s a, %s b) { return algorithm::gcd(a, b); }\n%s vp_lcm_%s(%s a, %s b) { return algorithm::lcm(a, b); }" % (t, k, t, t, t, k, t, t) for k, (t, _) in TYPES.items()) + "\n}\n"
ROUNDS = 8 if vp.THOROUGH else 5
_it = {}


def back(st, roots, goal):
    """express the roots through the goal symbol by undoing divisions: {root: polynomial} """
    rules = {}
    for k, (q, r) in st.divs.items():
        if len(k) != 3:
            continue
        a, b = dict(k[0]), dict(k[1])
        if len(a) != 1 or len(list(a)[0]) != 1:
            continue
        (m, c), = a.items()
        rules.setdefault(m[0], []).append((c, b, q, r))
    memo = {}

    def fix(f):
        return sum_([(c, [P(lo) if lo == hi else sym(s) for s in m for lo, hi in [st.poly.bounds[s]]]) for m, c in f.items()])

    def sum_(parts):
        r = P(0)
        for c, fs in parts:
            t = P(c)
            for f in fs:
                t = mul(t, f)
            r = add(r, t)
        return r

    def val(f, depth=0):
        r = P(0)
        for m, c in f.items():
            t = P(c)
            for s in m:
                t = mul(t, value(s, depth))
            r = add(r, t)
        return r

    def value(s, depth):
        if s in goal:
            return goal[s]
        lo, hi = st.poly.bounds[s]
        if lo == hi:
            return P(lo)
        if s in memo:
            return memo[s]
        memo[s] = sym(s)        # cut cycles
        memo[s] = undo(s, depth)
        return memo[s]

    def undo(s, depth):
        if s in rules:
            c, b, q, r = rules[s][0]
            # c*s = q*b + r
            v = add(mul(q, val(b, depth + 1)), val(r, depth + 1))
            return scale(v, c) if c in (1, -1) else sym(s)
        return sym(s)
    return {s: val(sym(s)) for s in roots}


class Ints(Algebra):
    rounds = None
    SECONDS = 100 if vp.THOROUGH else 20

    def division(self, st, fr, ins, op, va, vb):
        if self.rounds is not None and len(st.divs) > self.rounds:
            raise Unknown("budget: more than %d divisions" % self.rounds)
        return Algebra.division(self, st, fr, ins, op, va, vb)


def ev(f, env):
    t = 0
    for m, c in f.items():
        for x in m:
            if x not in env:
                return None
            c *= env[x]
        t += c
    return t


def witness(st, g, ty, wrong):
    """a pair of small operands that takes this path and for which the result g is wrong"""
    n = 12
    for a in range(-n, n + 1):
        for b in range(-n, n + 1):
            env = {"a": a, "b": b}
            for x, (lo, hi) in st.poly.bounds.items():
                if lo == hi:
                    env.setdefault(x, lo)
            todo = list(st.divs.items())
            for _ in range(len(todo) + 1):
                for k, (q, r) in todo:
                    x = ev(dict(k[0]), env)
                    y = ev(dict(k[1]), env) if len(k) == 3 else k[1]
                    if x is None or not y:
                        continue
                    d, m = divmod(x, y)
                    if len(k) == 3 and m and (x < 0) != (y < 0):
                        d += 1
                    for f, v in ((q, d), (r, x - d * y)):
                        if len(f) == 1 and list(f)[0] and len(list(f)[0]) == 1 and list(f.values())[0] == 1:
                            env.setdefault(list(f)[0][0], v)
            vals = [ev(f, env) for f in st.poly.cons]
            if any(v is None or v < 0 for v in vals) or any(x in env and not lo <= env[x] <= hi for x, (lo, hi) in st.poly.bounds.items()):
                continue
            v = ev(g, env)
            if v is not None and wrong(a, b, v):
                return a, b, v
    return None


def equal_symbols(st, g, names):
    """symbols whose absolute value is known to be the value of g"""
    out = []
    for s in list(st.poly.bounds):
        for sg in (1, -1):
            if st.poly.entails_eq(add(sym(s), g, -sg)):
                out.append((s, sg))
                break
    return out


@vp.guard(1, 60)
def job(j):
    path, fn, ty = j
    if path not in _it:
        _it[path] = Program(path)
    found, und, cnt, cut = vp.PARTIAL, [], 0, 0
    name, bits = TYPES[ty]
    lo, hi = srange(bits)
    st = State()
    if fn == "vp_abs":
        it = Ints(_it[path], max_states=200, max_steps=2000, gcd=False)
        x = st.poly.new("a", lo + 1, hi)
        for r in it.call_fn(st, fn, [I(16, x)]):
            if r[0] == "unknown":
                und.append("abs: " + r[2])
                continue
            cnt += 1
            if r[0] != "ret":
                found.append("abs(short) ends with %s" % r[0])
                continue
            for s2, v in it.norm(r[1], it.asint(r[1], r[2], 16), True):
                if not (s2.poly.entails_eq(add(v, x, -1)) and s2.poly.entails(x) or s2.poly.entails_eq(add(v, x)) and s2.poly.entails(scale(x, -1))):
                    found.append("abs(short) of %s is %s" % (show(x), show(v)))
        return found, und, cnt, cut
    if fn.startswith("vp_gcd"):
        it = Ints(_it[path], max_states=4000, max_steps=1000, gcd=False)
        it.rounds = ROUNDS
        a, b = st.poly.new("a", lo + 1, hi), st.poly.new("b", lo + 1, hi)
        what = "gcd of two %s" % name
        for r in it.call_fn(st, fn, [I(bits, a), I(bits, b)]):
            if r[0] == "unknown":
                if "budget" in r[2]:
                    cut += 1
                else:
                    und.append(what + ": " + r[2])
                continue
            cnt += 1
            if r[0] != "ret":
                found.append("%s ends with %s" % (what, r[0]))
                continue
            try:
                rs = it.norm(r[1], it.asint(r[1], r[2], bits), True)
            except Unknown as e:
                und.append("%s: %s" % (what, e))
                continue
            for s, g in rs:
                if not s.poly.feasible():
                    continue
                if s.poly.feasible([addc(scale(g, -1), -1)]):
                    found.append("%s may be negative" % what)
                    continue
                if s.poly.entails_eq(g):
                    if not (s.poly.entails_eq(a) and s.poly.entails_eq(b)):
                        found.append("%s is zero although the operands are not both zero" % what)
                    continue
                # divisor: undo the divisions, starting from the symbols that equal +-g
                goal = {x: scale(sym("G"), sg) for x, sg in equal_symbols(s, g, None)}
                s.poly.bounds["G"] = (1, hi)
                zero = {x: P(0) for x in s.poly.bounds if x not in goal and s.poly.bounds[x] != (0, 0) and s.poly.entails_eq(sym(x))}
                vals = back(s, ["a", "b"], dict(zero, **goal))
                k = const(g)
                for x in ("a", "b"):
                    if k == 1:
                        continue
                    v = vals[x]
                    if not all("G" in m for m in v if v[m]):
                        if any(s.poly.entails_eq(add(sym(x), g, -t)) for t in range(-8, 9)):
                            continue
                        if not witness(s, g, bits, lambda p, q, v: p % v if x == "a" else q % v):
                            und.append("%s: division by the result not shown" % what)
                            continue
                        found.append("%s: the result is not shown to divide %s" % (what, "the first operand" if x == "a" else "the second operand"))
                # greatest: g is an integer combination of the operands
                src = {"a", "b"}
                rem = {list(r2)[0][0]: (dict(k2[0]), dict(k2[1])) for k2, (q2, r2) in s.divs.items() if len(k2) == 3 and len(r2) == 1 and len(list(r2)[0]) == 1}

                def comb(x, depth=0):
                    if x in src:
                        return True
                    if depth > 30 or x not in rem:
                        return False
                    return all(len(m) == 1 and comb(m[0], depth + 1) for f in rem[x] for m in f)
                eqs = [x for x in goal]
                if not any(comb(x) for x in eqs) and not all(len(m) == 1 and comb(m[0]) for m in g) and not (k is not None and any(comb(x) for x in rem)):
                    if not witness(s, g, bits, lambda p, q, v: v != math.gcd(p, q)):
                        und.append("%s: combination of the operands not shown" % what)
                        continue
                    found.append("%s: the result is not a combination of the operands" % what)
        return found, und, cnt, cut
    it = Ints(_it[path], max_states=2000, max_steps=5000)
    m = 100 if bits == 16 else 30000
    a, b = st.poly.new("a", -m, m), st.poly.new("b", -m, m)
    what = "lcm of two %s" % name
    for r in it.call_fn(st, fn, [I(bits, a), I(bits, b)]):
        if r[0] == "unknown":
            und.append(what + ": " + r[2])
            continue
        s = r[1]
        if s.poly.entails_eq(a) and s.poly.entails_eq(b):
            continue
        cnt += 1
        if r[0] != "ret":
            found.append("%s ends with %s" % (what, r[0]))
            continue
        try:
            for s, v in it.norm(s, it.asint(s, r[2], bits), True):
                if it.iszero(s, a) or it.iszero(s, b):
                    if not it.iszero(s, v):
                        found.append("%s is not zero although one operand is" % what)
                    continue
                # |a| * |b| == v * g with the exact quotient by the gcd
                sa = 1 if s.poly.entails(a) else -1
                sb = 1 if s.poly.entails(b) else -1
                gs = [x for x in s.notes.get("gcd", {})]
                ok = False
                for x in gs:
                    pr = {t for t in s.notes["gcd"][x]}
                    if not {it.canon(a), it.canon(b)} <= pr:
                        continue
                    for k2, (q2, r2) in s.divs.items():
                        if len(k2) == 3 and dict(k2[1]) == sym(x) and it.canon(dict(k2[0])) in (it.canon(a), it.canon(b), it.canon(mul(a, b))):
                            d = dict(k2[0])
                            if it.canon(d) == it.canon(mul(a, b)):
                                ok = ok or it.eq(s, v, q2) and s.poly.entails(q2)
                            elif it.canon(d) == it.canon(a):
                                ok = ok or any(it.eq(s, v, scale(mul(q2, b), t)) for t in (1, -1)) and not s.poly.feasible([addc(scale(v, -1), -1)])
                            else:
                                ok = ok or any(it.eq(s, v, scale(mul(q2, a), t)) for t in (1, -1)) and not s.poly.feasible([addc(scale(v, -1), -1)])
                    if s.poly.entails_eq(addc(sym(x), -1)):
                        ok = ok or it.eq(s, v, scale(mul(a, b), sa * sb))
                if not ok:
                    found.append("%s is %s, not the product divided by the gcd" % (what, show(v)))
        except Unknown as e:
            und.append("%s: %s" % (what, e))
    return found, und, cnt, cut


def check(c):
    path = prog(H, "ints", ["algorithm_integer_operations.cpp"])
    jobs = [(path, "vp_abs", "i16")] + [(path, "vp_%s_%s" % (f, t), t) for f in ("gcd", "lcm") for t in TYPES]
    n = cut = 0
    seen = set()
    with ProcessPoolExecutor(8) as ex:
        for found, und, k, d in ex.map(job, jobs):
            n += k
            cut += d
            for what in found:
                if what not in seen:
                    seen.add(what)
                    c.violation(what[:70], "src/algorithm_integer_operations.cpp", what)
            for u in und:
                if u not in c.undecided:
                    c.undecided.append(u)
    c.coverage.update(operations=len(jobs), paths=n, paths_beyond_bound=cut, undecided_paths=len(c.undecided),
                      rule="the returned value divides both operands (substituting the divisions made backwards) and is an integer combination of them; lcm equals the product divided by the gcd")
    c.assumptions += ["operands other than the smallest value of the type; for lcm operands small enough for the product",
                      "paths with at most about %d divisions" % ROUNDS]
    if n == 0:
        raise vp.Broken("%d paths decided: %s" % (n, c.undecided[:3]))


if __name__ == "__main__":
    vp.main("C11", "abstract interpretation with divisibility by back substitution", check)
