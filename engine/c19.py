"""C19: rotation of a facet (vertex) around its ridges."""
import itertools, math, re, sys, time
from concurrent.futures import ProcessPoolExecutor
import tree, vp
from absint import Program, State, Unknown, I, P, const
from poly import add, addc, scale, mul, show
from algebra import prog
from c17 import Elim, cone, embed
from cone import dot, signs, facets, model, det

H = r'''
#include <new>
#include "algorithm_rotation.h"
#include "matrix.h"
#include "maps.h"
#include "tags.h"
using namespace panda;
using M = Matrix<int>; using R = Row<int>;
extern "C" {
void vp_facet(M* o, const M* m, const R* r, const Maps* x) { new (o) M(algorithm::rotation(*m, *r, *x, tag::facet{})); }
void vp_vertex(M* o, const M* m, const R* r, const Maps* x) { new (o) M(algorithm::rotation(*m, *r, *x, tag::vertex{})); }
}
'''
FILES = ["algorithm_rotation.cpp", "algorithm_classes.cpp", "algorithm_map_operations.cpp", "algorithm_inequality_operations.cpp", "algorithm_fourier_motzkin_elimination.cpp", "algorithm_matrix_operations.cpp", "algorithm_row_operations.cpp", "bitset_variable_size.cpp"]
_it = {}


def rank(it, st, rows):
    """-> [(state, rank)]"""
    out = [(st, 0, [])]
    for d in range(len(rows[0]) if rows else 0, 0, -1):
        done = []
        for s, k, _ in out:
            if k:
                done.append((s, k, None))
                continue
            todo = [s]
            for sub in itertools.combinations(range(len(rows)), d):
                for cols in itertools.combinations(range(len(rows[0])), d):
                    f = det([[rows[i][j] for j in cols] for i in sub])
                    nxt = []
                    for s2 in todo:
                        for s3, sg in signs(it, s2, [f]):
                            if sg[0]:
                                done.append((s3, d, None))
                            else:
                                nxt.append(s3)
                    todo = nxt
            done += [(s2, 0, None) for s2 in todo]
        out = done
    return [(s, k) for s, k, _ in out]


@vp.guard()
def job(j):
    path, fn, text, facet, emb, unit = j
    if path not in _it:
        _it[path] = Program(path)
    it = Elim(_it[path], unit, max_states=3000, max_steps=4000000)
    it.handlers.append((re.compile(tree.PATTERN), tree.tree))
    st = State()
    gens = cone(st, text)
    syms = list(st.poly.bounds)
    # the row rotated, in the coordinates of the generators: it must be valid and tight somewhere
    f = [P(x) for x in facet]
    for g in gens:
        st.poly.assume(scale(dot(f, g), -1))
    rows = embed(gens, emb[0]) if emb else gens
    full = [P(x) for x in emb[1]] if emb else f
    found, und, cnt = vp.PARTIAL, [], 0
    out = ("p", st.alloc(24, name="out"), P(0))
    what = "rotation of the %s %s in [%s]%s" % (fn[3:], list(facet), text, " embedded" if emb else "")
    for r in it.call_fn(st, fn, [out, it.matrix(st, rows), it.vec(st, full), it.matrix(st, [])]):
        if r[0] == "unknown":
            und.append("%s: %s" % (what, r[2]))
            continue
        try:
            if r[0] != "ret":
                if model(r[1], syms):
                    found.append("%s ends with %s" % (what, r[0]))
                continue
            for s, w in judge(it, r[1], fn, gens, rows, f, it.readm(r[1], out), syms):
                m = model(s, syms)
                if m is None:
                    continue
                found.append("%s: %s (%s)" % (what, w, ", ".join("%s = %d" % (x[2:] if x.startswith("s.") else x, v) for x, v in m.items())))
            cnt += 1
        except Unknown as e:
            und.append("%s: %s" % (what, e))
    for k, w, s in it.outside:
        if model(s, syms):
            found.append("%s: %s (%s)" % (what, k, w))
    if it.overflowed:
        und.append(what + ": the numbers become too large on some path")
    return found, und, cnt


def judge(it, st, fn, gens, rows, facet, got, syms):
    """yields (state, complaint)"""
    raws = []
    for g in got:
        if len(g) != len(rows[0]):
            yield st, "a row has %d entries" % len(g)
            return
        raw, q = it.descale(st, g)
        if raw is None:
            raise Unknown("a row is divided in an unknown way")
        if any(y.startswith("q.") for x in raw for m in x for y in m):
            raise Unknown("quotients of quotients")
        if q is not None and not it.divides(st, q, raw):
            yield st, "a row is divided by something that is not its divisor"
            return
        if not syms and math.gcd(*[const(x) for x in g]) != 1:
            yield st, "a row is not in lowest terms: [%s]" % " ".join(map(show, g))
        raws.append(raw)
    n = len(rows)
    d = len(gens[0])
    for s, fs in facets(it, st, gens):
        for s1, sf in signs(it, s, [dot(facet, g) for g in gens]):
            mine = tuple(k for k, x in enumerate(sf) if x == 0)
            if mine not in fs:
                continue    # the row is not a facet for these values
            # neighbours: facets whose common rows with this one span a ridge
            want = [(s1, set())]
            for g in fs:
                if g == mine:
                    continue
                nxt = []
                both = sorted(set(g) & set(mine))
                for s2, w in want:
                    for s3, k in rank(it, s2, [gens[i] for i in both]) if both else [(s2, 0)]:
                        nxt.append((s3, w | {g} if k == d - 2 else w))
                want = nxt
            for s2, w in want:
                for s3, sg in signs(it, s2, [dot(r, v) for r in raws for v in rows] + [v[-1] for v in rows]):
                    last = sg[len(raws) * n:]
                    infinity = tuple(k for k, x in enumerate(last) if x == 0) if fn == "vp_facet" and all(x >= 0 for x in last) else None
                    have = []
                    bad = None
                    for k, raw in enumerate(raws):
                        x = sg[k * n:(k + 1) * n]
                        inc = tuple(i for i, y in enumerate(x) if y == 0)
                        if any(y > 0 for y in x):
                            bad = "[%s] is not valid for row %d" % (" ".join(map(show, raw)), [y > 0 for y in x].index(True))
                        elif inc not in w:
                            bad = "[%s] is not adjacent (rows on it: %s)" % (" ".join(map(show, raw)), inc)
                        elif infinity is not None and all(it.iszero(s3, y) for y in raw[:-1]) and const(raw[-1]) == -1:
                            bad = "the trivial inequality is returned"
                        have.append(inc)
                    if bad:
                        yield s3, bad
                    elif len(set(have)) != len(have):
                        yield s3, "a row is returned twice"
                    else:
                        miss = {g for g in w if g != infinity} - set(have)
                        if miss:
                            yield s3, "an adjacent one is missing (that with rows %s)" % (min(miss),)


S = "1 0 1 | 0 1 1 | -1 0 1 | 0 -1 1 | "
CASES = [(fn, t, f, e, True) for fn in ("vp_facet", "vp_vertex") for t, f, e in (
    ("a:1:5", (-1,), None), ("a:1:5 | b:1:5", (-1,), (((3,), (1,)), (0, -1))), ("0 | a:0:5 | 2", (-1,), None),
    ("1 1 | 3 1 | a 1", (1, -3), None), ("a 1 | 3 1 | 1 1", (1, -3), None), ("1 0 | a 1", (-1, 0), None), ("0 1 | 1 0 | a b:0:5", (0, -1), None), ("1 0 | 2 0 | a b:1:5", (0, -1), None),
    ("1 0 0 | 0 1 0 | 0 0 1", (-1, 0, 0), None), ("1 0 0 | 0 1 0 | 0 0 1 | a b c", (-1, 0, 0), None), ("0 0 1 | 1 0 0 | 0 1 0 | a b 1", (-1, 0, 0), None), ("0 0 1 | 2 0 1 | a b 1", (0, -1, 0), None),
    ("0 0 1 | 1 0 1 | a b:0:3 1 | 0 2 1", (0, -1, 0), None), ("0 0 1 | 1 0 1 | a b:0:3 0 | 0 2 1", (0, -1, 0), None), ("1 0 0 | 0 0 1 | a b:0:4 c:-2:2", (0, -1, 0), None),
    (S + "a b 2", (1, 1, -1), None), (S + "a b 0", (1, 1, -1), None), (S + "a b 1 | 0 c:-1:2 1", (1, 1, -1), None), ("0 0 1 | 4 0 1 | 2 0 1 | 1 a:1:5 1 | 2 b:1:5 1 | 3 1 1", (0, -1, 0), None),
    ("0 0 0 | 0 0 1 | 1 0 1 | 0 1 1 | a b 1", (0, -1, 0), None), ("0 0 1 | 1 0 1 | 1 0 1 | 0 1 1 | a b 1", (0, -1, 0), None),
    ("0 0 1 | 3 0 1 | a 2 1 | b 1 1", (0, -1, 0), (((1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1)), (0, -1, 0, 0))), ("1 1 | 3 1 | a 1", (1, -3), (((0, 0), (1, 0), (0, 1)), (0, 1, -3))), ("1 1 | 3 1 | a 1", (1, -3), (((1, 0), (1, -1), (0, 1)), (1, 0, -3))),
    ("1 0 0 1 | 0 1 0 1 | 0 0 1 1 | 0 0 0 1 | a b c:0:2 1", (0, 0, -1, 0), None), ("0 0 0 1 | 1 0 0 1 | 0 1 0 1 | 1 1 0 1 | 0 0 1 1 | a b 1 1", (0, 0, -1, 0), None),
    ("0 0 0 1 | 1 0 0 1 | 0 1 0 1 | 1 1 0 1 | 0 0 1 1 | a b 1 0", (0, 0, -1, 0), None), ("0 0 0 1 | 1 0 0 1 | 0 1 0 1 | 0 0 1 0 | a b 1 0", (0, 0, -1, 0), None), ("0 0 0 1 | 1 0 0 0 | 0 1 0 0 | 0 0 1 0 | a b c:0:2 0", (0, 0, -1, 0), None),
    ("1 0 0 1 | -1 0 0 1 | 0 1 0 1 | 0 -1 0 1 | 0 0 1 1 | 0 0 -1 1 | a b:-1:1 1 2", (1, 1, 1, -1), None),
)] + [(fn, t, f, None, True) for fn in ("vp_facet", "vp_vertex") for t, f in (
    ("2 1 | 6 1", (1, -6)), ("0 2 | 3 5", (-1, 0)), ("0 0 1 | 4 0 1 | 3 6 1 | 0 4 1", (0, -1, 0)), ("2 3 5 | 7 3 2 | 0 8 4 | 4 4 4", (9, -31, 15)), ("0 0 1 | 2 0 1 | 0 4 1 | -3 6 1 | 5 7 2", (0, -1, 0)),
    ("0 0 0 1 | 2 0 0 1 | 0 3 0 1 | 0 0 4 1 | 2 3 4 2 | 5 5 5 3", (0, 0, -1, 0)), ("0 0 0 1 | 3 0 0 1 | 0 2 0 1 | 6 3 7 2 | -4 1 2 0", (0, 0, -1, 0)),
)]


def check(c):
    path = prog(H, "rotation", FILES)
    n = 0
    with ProcessPoolExecutor(8) as ex:
        for found, und, k in ex.map(job, [(path,) + x for x in sorted(CASES, key=lambda x: -len(x[1]))], chunksize=1):
            n += k
            for what in found:
                c.violation(re.sub(r" \(.*|\[.*?\]", "", what)[:100], "src/algorithm_rotation.cpp", what)
            for u in und:
                if u not in c.undecided:
                    c.undecided.append(u)
    c.coverage.update(operations=2, cases=len(CASES), paths=n, undecided_paths=len(c.undecided), rule="on every path, for all values of the symbolic entries on it: the rows returned are exactly the facets that share a ridge with the given one, each once, without the trivial inequality in facet mode")
    c.assumptions += ["cones of dimension two to four with up to three symbolic entries (-5 to 5), all other entries given", "no maps (see C20)", "greatest common divisors of symbolic values are replaced by the common divisor one (cases without symbolic entries decide that rows are in lowest terms)", "instantiation for int, values that do not overflow"]
    if n == 0:
        raise vp.Broken("nothing decided: %s" % c.undecided[:3])


if __name__ == "__main__":
    if len(sys.argv) > 1:
        path = prog(H, "rotation", FILES)
        for k, x in enumerate(CASES):
            if sys.argv[1] == "all" or str(k) in sys.argv[1:]:
                t0 = time.time()
                r = job((path,) + x)
                print(k, x[0], x[1], r[2], list(dict.fromkeys(r[0]))[:2], list(dict.fromkeys(r[1]))[:2], round(time.time() - t0, 1), flush=True)
    else:
        vp.main("C19", "abstract interpretation over polynomial forms", check)
