"""C09: applying and normalizing maps."""
import itertools
from concurrent.futures import ProcessPoolExecutor
import vp
from absint import Program, State, Unknown, I, P, const
from poly import sym, add, addc, scale, mul, show
from algebra import Algebra, prog

H = r'''
#include <new>
#include "algorithm_map_operations.h"
#include "algorithm_row_operations.h"
#include "matrix.h"
#include "maps.h"
#include "tags.h"
using namespace panda;
using R = Row<int>; using M = Matrix<int>;
extern "C" {
unsigned long vp_layout() { return sizeof(Term) * 10000 + sizeof(Image) * 100 + sizeof(Map); }
void vp_facet(R* o, const Map* m, const R* a) { new (o) R(algorithm::apply(*m, *a, tag::facet{})); }
void vp_vertex(R* o, const Map* m, const R* a) { new (o) R(algorithm::apply(*m, *a, tag::vertex{})); }
void vp_norm(Maps* o, const Maps* m, const M* e) { new (o) Maps(algorithm::normalize(*m, *e)); }
}
'''
_it = {}
B = 4


class MapOps(Algebra):
    def image(self, st, terms, at):
        o = st.mem[at[1]]
        off = const(at[2])
        b = st.alloc(16 * len(terms), name="terms") if terms else None
        for k, (idx, f) in enumerate(terms):
            st.mem[b].cells[16 * k] = (8, I(64, P(idx)))
            st.mem[b].cells[16 * k + 8] = (4, I(32, f))
        for k, e in ((0, 0), (8, 16 * len(terms)), (16, 16 * len(terms))):
            o.cells[off + k] = (8, ("p", b, P(e)) if b else ("p", None, P(0)))

    def amap(self, st, images, at=None):
        return self.vecs(st, images, self.image, at)

    def readmap(self, st, ptr):
        """-> list of images, an image being {index: form}"""
        b, s, e = self.span(st, ptr)
        out = []
        for k in range(s, e, 24):
            ib, x, y = self.span(st, ("p", b, P(k)))
            img = {}
            for t in range(x, y, 16):
                ci, cf = st.mem[ib].cells.get(t), st.mem[ib].cells.get(t + 8)
                if not (ci and cf and ci[1][0] == "i" and cf[1][0] == "i") or const(ci[1][2]) is None:
                    raise Unknown("term not recognized")
                idx = const(ci[1][2])
                img[idx] = add(img.get(idx, P(0)), cf[1][2])
            out.append(img)
        return out


def linear(images, row, facet):
    n = len(row)
    r = [P(0)] * n
    for i, im in enumerate(images):
        for idx, f in im:
            if facet:
                r[idx] = add(r[idx], mul(f, row[i]))
            else:
                r[i] = add(r[i], mul(f, row[idx]))
    return r


@vp.guard()
def job(j):
    path, kind, n, pattern, pivots = j
    if path not in _it:
        _it[path] = Program(path)
    it = MapOps(_it[path], max_states=8000, max_steps=60000)
    st = State()
    S = lambda nm, lo=-B, hi=B: st.poly.new(nm, lo, hi)
    found, und, cnt = vp.PARTIAL, [], 0
    desc = "images " + " ".join("[" + " ".join("x%d" % x for x in im) + "]" for im in pattern)
    images = [[(idx, S("f%d_%d" % (i, k))) for k, idx in enumerate(im)] for i, im in enumerate(pattern)]
    if kind in ("facet", "vertex", "mismatch"):
        row = [S("a%d" % k) for k in range(n)]
        m = it.amap(st, images)
        ra = it.vec(st, row)
        out = ("p", st.alloc(24, name="out"), P(0))
        fn = "vp_vertex" if kind == "vertex" else "vp_facet"
        what = "a map applied to a row (%s)" % fn[3:]
        for r in it.call_fn(st, fn, [out, m, ra]):
            if r[0] == "unknown":
                und.append("%s: %s" % (fn, r[2]))
                continue
            cnt += 1
            try:
                if kind == "mismatch":
                    if r[0] != "throw":
                        found.append("a map with %d images is applied to a row of %d entries" % (len(images), n))
                    continue
                if r[0] != "ret":
                    found.append("%s ends with %s (%s)" % (what, r[0], desc))
                    continue
                st2 = r[1]
                got = it.read(st2, out)
                exp = linear(images, row, fn == "vp_facet")
                for w in it.primitive(st2, got, exp):
                    found.append("%s %s (%s)" % (what, w, desc))
                if [1 for x, y in zip(it.read(st2, ra), row) if not it.eq(st2, x, y)]:
                    found.append(what + " changes the row")
            except Unknown as e:
                und.append("%s: %s" % (fn, e))
        return found, und, cnt
    # normalize: the last image is the constant one
    eqs = []
    for k, pv in enumerate(pivots):
        eqs.append([P(0) if c < pv or (c in pivots and c != pv) else S("p%d" % k, 1, B) if c == pv else S("e%d_%d" % (k, c)) for c in range(n)])
    images[-1] = [(n - 1, P(1))]
    me = it.matrix(st, eqs)
    mm = it.vecs(st, [images], lambda s, im, at: it.amap(s, im, at))
    out = ("p", st.alloc(24, name="out"), P(0))
    for r in it.call_fn(st, "vp_norm", [out, mm, me]):
        if r[0] == "unknown":
            und.append("normalize: %s" % (r[2],))
            continue
        cnt += 1
        try:
            if r[0] != "ret":
                found.append("normalizing a map ends with %s (%s)" % (r[0], desc))
                continue
            st2 = r[1]
            b, s, e = it.span(st2, out)
            if b is None or e - s != 24:
                found.append("normalizing one map does not yield one map")
                continue
            got = it.readmap(st2, ("p", b, P(s)))
            if len(got) != n:
                found.append("a normalized map has %d instead of %d images" % (len(got), n))
                continue
            full = P(1)
            for k, pv in enumerate(pivots):
                full = mul(full, eqs[k][pv])
            anchor = got[n - 1].get(n - 1, P(0))
            if not st2.poly.entails(addc(anchor, -1)):
                found.append("the constant image of a normalized map is not a positive multiple of the constant")
                continue
            same = it.eq(st2, anchor, full)
            for i in range(n):
                if i in pivots:
                    continue
                v = [P(0)] * n
                for idx, f in images[i]:
                    v[idx] = add(v[idx], f)
                for k, pv in enumerate(pivots):
                    a, p = v[pv], eqs[k][pv]
                    v = [add(mul(x, p), mul(a, y), -1) for x, y in zip(v, eqs[k])]
                # v = (product of pivots) * (image i modulo the equations)
                for c in range(n):
                    g = got[i].get(c, P(0))
                    ok = it.eq(st2, g, v[c]) if same else it.eq(st2, mul(g, full), mul(v[c], anchor))
                    if not ok:
                        found.append("the normalized map sends coordinate %d to %s * x%d, expected %s (up to a common positive factor) (%s; equations with pivots %s)"
                                     % (i, show(g), c, show(v[c]), desc, pivots))
                extra = [c for c in got[i] if c >= n]
                if extra:
                    found.append("a normalized map refers to coordinate %d of %d" % (extra[0], n))
        except Unknown as e:
            und.append("normalize: %s" % e)
    return found, und, cnt


def check(c):
    path = prog(H, "mapops", ["algorithm_map_operations.cpp", "algorithm_row_operations.cpp"])
    jobs = []
    for kind in ("facet", "vertex"):
        jobs.append((path, kind, 2, ((0,), (1,)), None))
        jobs.append((path, kind, 2, ((1, 0), (1,)), None))
        jobs.append((path, kind, 2, ((), (1,)), None))
        jobs.append((path, kind, 2, ((1, 1), (0,)), None))
        jobs.append((path, kind, 3, ((1,), (0, 2), (2,)), None))
        jobs.append((path, kind, 3, ((2,), (0,), (1,)), None))
    jobs.append((path, "mismatch", 2, ((0,), (1,), (2,)), None))
    jobs.append((path, "mismatch", 3, ((0,), (1,)), None))
    jobs.append((path, "mismatch", 1, (), None))
    pats = [(), (0,), (1,), (2,), (0, 1), (1, 0), (0, 2), (2, 0), (0, 0), (1, 1), (1, 2), (2, 1, 0), (1, 0, 1), (2, 2, 2)]
    for pv in ((), (0,), (1,)):
        free = [i for i in range(2) if i not in pv]
        for pt in pats:
            images = [(2,), (0, 1), (2,)]
            images[free[-1]] = pt
            jobs.append((path, "norm", 3, tuple(images), pv))
    for pv in ((0, 1), (0, 2), (1, 2)):
        free = [i for i in range(3) if i not in pv]
        for pt in [(0,), (1,), (2,), (3,), (0, 1), (1, 2), (0, 2), (2, 1, 0)]:
            images = [(3,), (3,), (3,), (3,)]
            images[free[0]] = pt
            jobs.append((path, "norm", 4, tuple(images), pv))
    n = 0
    seen = set()
    with ProcessPoolExecutor(8) as ex:
        for found, und, k in ex.map(job, jobs):
            n += k
            for what in found:
                key = what.split("(")[0][:70]
                if key not in seen:
                    seen.add(key)
                    c.violation(key, "src/algorithm_map_operations.cpp", what)
            for u in und:
                if u not in c.undecided:
                    c.undecided.append(u)
    c.coverage.update(operations=3, cases=len(jobs), paths=n, undecided_paths=len(c.undecided),
                      rule="applied rows equal the defining linear form divided by the gcd of its entries; normalized images equal the image minus multiples of the equations, up to one common positive factor, as polynomials")
    c.assumptions += ["rows of 2 to 4 entries, images of at most 3 terms, at most 2 equations; symbolic coefficients and factors",
                      "equations are given with positive leading coefficient and are reduced against each other (as the program derives them)",
                      "gcd of two integers is uninterpreted; instantiation for int"]
    if n == 0:
        raise vp.Broken("%d paths decided: %s" % (n, c.undecided[:3]))


if __name__ == "__main__":
    vp.main("C09", "abstract interpretation over polynomial forms", check)
