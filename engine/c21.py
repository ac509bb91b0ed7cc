"""C21: rank, equations, transposition, products and the trivial inequality."""
import math, re, sys, time
from concurrent.futures import ProcessPoolExecutor
import vp
from absint import Program, State, Unknown, I, P, const
from poly import add, show
from algebra import prog
from c17 import Elim, cone
from c19 import rank
from cone import dot, signs, model

H = r'''
#include <new>
#include "algorithm_fourier_motzkin_elimination.h"
#include "algorithm_matrix_operations.h"
#include "matrix.h"
using namespace panda;
using M = Matrix<int>; using R = Row<int>;
extern "C" {
void vp_rank(M* o, const M* m) { new (o) M{R{static_cast<int>(algorithm::dimension(*m))}}; }
void vp_equations(M* o, const M* m) { new (o) M(algorithm::extractEquations(*m)); }
void vp_transpose(M* o, const M* m) { new (o) M(algorithm::transpose(*m)); }
void vp_product(M* o, const M* m) { new (o) M{M(m->begin(), m->end() - 1) * m->back()}; }
void vp_trivial(M* o, const M* m) { new (o) M(*m); algorithm::removeTrivialInequality(*o); }
}
'''
FILES = ["algorithm_fourier_motzkin_elimination.cpp", "algorithm_matrix_operations.cpp", "algorithm_row_operations.cpp", "bitset_variable_size.cpp"]
WHAT = dict(vp_rank="dimension", vp_equations="equations", vp_transpose="transposition", vp_product="product with the last row", vp_trivial="removal of the trivial inequality")
_it = {}


@vp.guard()
def job(j):
    path, fn, text = j
    if path not in _it:
        _it[path] = Program(path)
    it = Elim(_it[path], True, max_states=3000, max_steps=4000000)
    st = State()
    rows = cone(st, text)
    syms = list(st.poly.bounds)
    found, und, cnt = vp.PARTIAL, [], 0
    out = ("p", st.alloc(24, name="out"), P(0))
    what = "%s of [%s]" % (WHAT[fn], text)
    for r in it.call_fn(st, fn, [out, it.matrix(st, rows)]):
        if r[0] == "unknown":
            und.append("%s: %s" % (what, r[2]))
            continue
        try:
            if r[0] != "ret":
                if model(r[1], syms):
                    found.append("%s ends with %s" % (what, r[0]))
                continue
            for s, w in judge(it, r[1], fn, rows, it.readm(r[1], out), syms):
                m = model(s, syms)
                if m is not None:
                    found.append("%s: %s (%s)" % (what, w, ", ".join("%s = %d" % (x[2:] if x.startswith("s.") else x, v) for x, v in m.items())))
            cnt += 1
        except Unknown as e:
            und.append("%s: %s" % (what, e))
    for k, w, s in it.outside:
        if model(s, syms):
            found.append("%s: %s (%s)" % (what, k, w))
    if it.overflowed:
        und.append(what + ": the numbers become too large on some path")
    return found, und, cnt


def same(it, st, got, want):
    """yields (state, complaint)"""
    if [len(g) for g in got] != [len(w) for w in want]:
        yield st, "%d rows of lengths %s are returned" % (len(got), [len(g) for g in got])
        return
    for k, (g, w) in enumerate(zip(got, want)):
        for l, (x, y) in enumerate(zip(g, w)):
            for s, sg in signs(it, st, [add(x, y, -1)]):
                if sg[0]:
                    yield s, "entry %d of row %d is %s instead of %s" % (l, k, show(x), show(y))


def judge(it, st, fn, rows, got, syms):
    if fn == "vp_rank":
        for s, k in rank(it, st, rows):
            if len(got) != 1 or const(got[0][0]) is None:
                raise Unknown("dimension not recognized")
            if const(got[0][0]) != k:
                yield s, "%s is returned instead of %d" % (show(got[0][0]), k)
    elif fn == "vp_transpose":
        yield from same(it, st, got, [list(x) for x in zip(*rows)])
    elif fn == "vp_product":
        yield from same(it, st, got, [[dot(r, rows[-1]) for r in rows[:-1]]])
    elif fn == "vp_trivial":
        todo = [(st, [])]
        for r in rows:
            nxt = []
            for s, keep in todo:
                for s2, sg in signs(it, s, r[:-1] + [add(r[-1], P(1))]):
                    nxt.append((s2, keep + [r] if any(sg) else keep))
            todo = nxt
        for s, keep in todo:
            if len(rows) - len(keep) < 2:
                yield from same(it, s, got, keep)
    else:
        raws = []
        for g in got:
            if len(g) != len(rows[0]):
                yield st, "an equation has %d entries" % len(g)
                return
            raw, q = it.descale(st, g)
            if raw is None or any(y.startswith("q.") for x in raw for m in x for y in m):
                raise Unknown("an equation is divided in an unknown way")
            if q is not None and not it.divides(st, q, raw):
                yield st, "an equation is divided by something that is not its divisor"
                return
            if not syms and math.gcd(*[const(x) for x in g]) != 1:
                yield st, "an equation is not in lowest terms: [%s]" % " ".join(map(show, g))
            raws.append(raw)
        for s, k in rank(it, st, rows):
            if len(got) != len(rows[0]) - k:
                yield s, "%d equations instead of %d" % (len(got), len(rows[0]) - k)
                continue
            d = len(rows[0])
            for s2, sg in signs(it, s, [dot(e, r) for e in raws for r in rows] + [x for e in raws for x in e]):
                tight, sg = sg[:len(raws) * len(rows)], sg[len(raws) * len(rows):]
                if any(tight):
                    k = [bool(x) for x in tight].index(True)
                    yield s2, "[%s] is not satisfied by row %d" % (" ".join(map(show, raws[k // len(rows)])), k % len(rows))
                    continue
                es = [sg[i * d:(i + 1) * d] for i in range(len(raws))]
                lead = [next((c for c, x in enumerate(e) if x), None) for e in es]
                if None in lead:
                    yield s2, "an equation is zero"
                elif any(e[l] < 0 for e, l in zip(es, lead)):
                    yield s2, "the first coefficient of an equation is negative"
                elif any(e[l] for i, e in enumerate(es) for j, l in enumerate(lead) if i != j):
                    yield s2, "the first variable of an equation occurs in another one"


S = "1 0 1 | 0 1 1 | "
CASES = [("vp_rank", t) for t in (
    "a", "a b", "a | b", "a b | 1 2", "1 2 | a b", "2 4 | 1 2 | a b", "0 0 | a b", "a 0 1 | 0 b 1", "a b c", "1 2 3 | a b c", "1 2 3 | 2 4 6 | a b 1", "1 2 3 | 3 1 2 | a b 1", "a 1 2 | 1 2 4 | b 3 6", "0 0 0 | 0 a 1 | 0 1 b | 1 0 0",
    "0 2 3 | 2 a 1 | 0 b 3", "1 0 0 1 | 0 1 0 1 | 0 0 1 1 | a b c 1", "1 1 1 1 | a a a a | 1 2 3 b", "0 a 0 1 | 0 2 0 2 | 0 b 0 3", "6 4 | 9 6", "6 4 | 9 7", "2 3 5 | 7 3 2 | 9 6 7 | 5 0 -3", "0 0 | 0 0",
)] + [("vp_equations", t) for t in (
    "a", "1 a", "a 1", "1 2 | a b", "1 1 | a 1", "a b 1", "1 0 1 | a b 1", S + "a b 1", S + "a b 0", S + "a a 2", "2 4 6 | 1 2 3 | a b 3", "0 0 1 | 0 a 1 | 0 b 1", "0 0 1 | a 0 1 | b 0 1", "1 1 1 | 2 a 1", "a 2 1 | 2 a 1",
    "0 0 0 1 | 1 0 0 1 | a b 0 1", "0 0 0 1 | 1 1 2 1 | a 2 4 1", "1 0 0 1 | 0 1 0 1 | 0 0 1 1", "1 0 0 1 | 0 1 0 1 | 0 0 1 1 | a b 0 1", "0 0 0 | 1 a 1", "0 0", "1 0 | 0 0", "0 3 | 0 5", "4 6 2", "6 10 15 | 3 5 2", "0 4 6 1 | 2 0 2 1", "2 -1 3 1 | -4 2 5 1 | -2 1 8 2",
)] + [(fn, t) for fn in ("vp_equations", "vp_rank") for t in (
    "3 -2 5 | -1 6 5", "5 4 2 | -6 1 6", "-3 4 -6 | -4 -5 -1", "1 -3 0 | 2 -5 3", "-2 -9 -3 4 | -1 -4 3 -4", "-7 -5 5 -5 | -5 -9 -9 -3", "-3 -4 -4 0 | 1 -3 8 -3", "-4 -3 3 0 | -9 2 4 -4", "-4 -2 -5 -1 | -2 3 3 -6 | -6 -7 -13 4", "-5 -2 -1 -2 | 1 5 -1 -4 | -11 -9 -1 0", "-6 -2 -6 5 | -1 0 -6 2 | -11 -4 -6 8", "3 -6 1 -6 | 5 -4 3 -3 | 1 -8 -1 -9", "-1 2 -1 2 | -2 6 1 -5 | 0 -2 -3 9", "-1 -2 -6 0 | -5 -3 -1 2 | 3 -1 -11 -2", "0 4 -3 | 0 1 0 | 0 7 -6", "0 3 -2 | -4 -3 4 | 4 9 -8", "1 0 3 | 2 -2 -4 | 0 2 10", "-2 -3 4 -3 | 5 1 -4 -3 | 1 0 -3 -5 | -9 -7 12 -3", "4 -3 3 2 | 2 0 2 -1 | -1 2 1 -3 | 6 -6 4 5", "5 2 0 -3 | -4 2 -1 3 | 3 3 0 -4 | 14 2 1 -9"
)] + [("vp_transpose", t) for t in ("a", "a b c", "a | b | c", "a b | c d", "a 1 b | c 2 d", "1 a | b 2 | c 3")] + [
    ("vp_product", t) for t in ("a | b", "a b | c d", "a b | 1 2 | c d", "1 2 3 | a b c | 4 d:0:5 6")] + [
    ("vp_trivial", t) for t in ("a b c", "a b", "a", "a b -1 | 1 1 1", "1 1 1 | 0 a b", "a 0 -1 | 1 0 -1 | b 0 1 | 0 1 0", "1 0 | a b | 0 1", "1 1 | 0 -1", "0 -1 | 1 1", "0 1 0 -1 | 0 0 a -1 | 0 0 1 b")]


def check(c):
    path = prog(H, "matrices", FILES)
    n = 0
    with ProcessPoolExecutor(8) as ex:
        for found, und, k in ex.map(job, [(path,) + x for x in sorted(CASES, key=lambda x: -len(x[1]))], chunksize=1):
            n += k
            for what in found:
                c.violation(re.sub(r" \(.*|\[.*?\]", "", what)[:100], "src/algorithm_matrix_operations.cpp", what)
            for u in und:
                if u not in c.undecided:
                    c.undecided.append(u)
    c.coverage.update(operations=5, cases=len(CASES), paths=n, undecided_paths=len(c.undecided), rule="on every path, for all values of the symbolic entries on it: the dimension is the largest order of a minor that is not zero; there are as many equations as columns minus that rank, each vanishes on every row, its first coefficient is positive and its first variable occurs in no other equation, for given numbers it is in lowest terms; transposition and product have the entries they are defined by; removing the trivial inequality removes the row (0, ..., 0, -1) and nothing else; no access outside of a vector")
    c.assumptions += ["one to four rows of one to four entries, up to four of them symbolic (-5 to 5), the others given", "greatest common divisors of symbolic numbers are taken to be one (see C11 and C08)"]
    if n == 0:
        raise vp.Broken("nothing decided: %s" % c.undecided[:3])


if __name__ == "__main__":
    if len(sys.argv) > 1:
        path = prog(H, "matrices", FILES)
        for k, x in enumerate(CASES):
            if sys.argv[1] == "all" or str(k) in sys.argv[1:]:
                t0 = time.time()
                r = job((path,) + x)
                print(k, x[0], x[1], r[2], list(dict.fromkeys(r[0]))[:2], list(dict.fromkeys(r[1]))[:2], round(time.time() - t0, 1), flush=True)
    else:
        vp.main("C21", "abstract interpretation over polynomial forms", check)
