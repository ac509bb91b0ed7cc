"""C20: classes of rows under maps and their representatives."""
import re, sys, time
from concurrent.futures import ProcessPoolExecutor
import tree, vp
from absint import Program, State, Unknown, I, P, const
from poly import add, show
from algebra import prog
from c09 import MapOps, linear
from c17 import Elim, cone
from cone import signs, model

H = r'''
#include <new>
#include "algorithm_classes.h"
#include "matrix.h"
#include "maps.h"
#include "tags.h"
using namespace panda;
using M = Matrix<int>; using R = Row<int>;
extern "C" {
void vp_class_facet(M* o, const M* m, const Maps* x) { const auto s = algorithm::getClass(m->front(), *x, tag::facet{}); new (o) M(s.begin(), s.end()); }
void vp_class_vertex(M* o, const M* m, const Maps* x) { const auto s = algorithm::getClass(m->front(), *x, tag::vertex{}); new (o) M(s.begin(), s.end()); }
void vp_rep_facet(M* o, const M* m, const Maps* x) { new (o) M{algorithm::classRepresentative(m->front(), *x, tag::facet{})}; }
void vp_rep_vertex(M* o, const M* m, const Maps* x) { new (o) M{algorithm::classRepresentative(m->front(), *x, tag::vertex{})}; }
void vp_all_facet(M* o, const M* m, const Maps* x) { new (o) M(algorithm::classes(*m, *x, tag::facet{})); }
void vp_all_vertex(M* o, const M* m, const Maps* x) { new (o) M(algorithm::classes(*m, *x, tag::vertex{})); }
}
'''
FILES = ["algorithm_classes.cpp", "algorithm_map_operations.cpp", "algorithm_row_operations.cpp", "algorithm_integer_operations.cpp"]
_it = {}


class Classes(Elim, MapOps):
    pass


def member(it, st, row, rows):
    """-> [(state, index or None)]"""
    out, todo = [], [st]
    for k, r in enumerate(rows):
        rest = []
        for s in todo:
            same = [s]
            for x, y in zip(r, row):
                nxt = []
                for s2 in same:
                    for s3, sg in signs(it, s2, [add(x, y, -1)]):
                        (nxt if sg[0] == 0 else rest).append(s3)
                same = nxt
            out += [(s2, k) for s2 in same]
        todo = rest
    return out + [(s, None) for s in todo]


def orbit(it, st, row, maps, facet):
    """-> [(state, rows)]"""
    out, todo = [], [(st, [row], 0)]
    while todo:
        s, rows, done = todo.pop()
        if len(rows) > 60 or len(todo) + len(out) > 300:
            raise Unknown("too many cases")
        if done == len(rows) * len(maps):
            out.append((s, rows))
            continue
        r = linear(maps[done % len(maps)], rows[done // len(maps)], facet)
        for s2, k in member(it, s, r, rows):
            todo.append((s2, rows + [r] if k is None else rows, done + 1))
    return out


def greatest(it, st, rows):
    """-> [(state, index)]: the lexicographically greatest"""
    todo = [(st, 0)]
    for k in range(1, len(rows)):
        nxt = []
        for s, b in todo:
            cur = [s]
            for x, y in zip(rows[k], rows[b]):
                rest = []
                for s2 in cur:
                    for s3, sg in signs(it, s2, [add(x, y, -1)]):
                        if sg[0]:
                            nxt.append((s3, k if sg[0] > 0 else b))
                        else:
                            rest.append(s3)
                cur = rest
            nxt += [(s2, b) for s2 in cur]
        todo = nxt
    return todo


def matching(it, st, got, want):
    """-> [(state, complaint)]: are both lists, as sets, equal, and got without repetitions?"""
    todo = [(st, ())]
    out = []
    for g in got:
        nxt = []
        for s, seen in todo:
            for s2, k in member(it, s, g, want):
                if k is None:
                    out.append((s2, "[%s] is returned" % " ".join(map(show, g))))
                elif k in seen:
                    out.append((s2, "[%s] is returned twice" % " ".join(map(show, g))))
                else:
                    nxt.append((s2, seen + (k,)))
        todo = nxt
    for s, seen in todo:
        miss = [w for k, w in enumerate(want) if k not in seen]
        if miss:
            out.append((s, "[%s] is not returned" % " ".join(map(show, miss[0]))))
    return out


@vp.guard()
def job(j):
    path, fn, text, maps = j
    if path not in _it:
        _it[path] = Program(path)
    it = Classes(_it[path], True, max_states=4000, max_steps=4000000)
    it.handlers.append((re.compile(tree.PATTERN), tree.tree))
    st = State()
    rows = cone(st, text)
    syms = list(st.poly.bounds)
    facet = fn.endswith("facet")
    ms = [[[(i, P(f)) for i, f in im] for im in m] for m in maps]
    found, und, cnt = vp.PARTIAL, [], 0
    mm = it.vecs(st, ms, lambda s, x, at: it.amap(s, x, at))
    out = ("p", st.alloc(24, name="out"), P(0))
    what = "%s of [%s] (%s) under %s" % (dict(cl="class", re="representative", al="classes")[fn[3:5]], text, fn.split("_")[-1], maps)
    for r in it.call_fn(st, fn, [out, it.matrix(st, rows), mm]):
        if r[0] == "unknown":
            und.append("%s: %s" % (what, r[2]))
            continue
        try:
            if r[0] != "ret":
                if model(r[1], syms):
                    found.append("%s ends with %s" % (what, r[0]))
                continue
            got = it.readm(r[1], out)
            for s, w in judge(it, r[1], fn, rows, ms, facet, got):
                m = model(s, syms)
                if m is not None:
                    found.append("%s: %s (%s)" % (what, w, ", ".join("%s = %d" % (x[2:] if x.startswith("s.") else x, v) for x, v in m.items())))
            cnt += 1
        except Unknown as e:
            und.append("%s: %s" % (what, e))
    for k, w, s in it.outside:
        if model(s, syms):
            found.append("%s: %s (%s)" % (what, k, w))
    return found, und, cnt


def judge(it, st, fn, rows, maps, facet, got):
    if fn.startswith("vp_class"):
        for s, o in orbit(it, st, rows[0], maps, facet):
            yield from matching(it, s, got, o)
        return
    todo = [(st, [], [])]     # state, representatives, rows known to be in their classes
    for r in rows if fn.startswith("vp_all") else rows[:1]:
        nxt = []
        for s, reps, seen in todo:
            for s2, k in member(it, s, r, seen):
                if k is not None:
                    nxt.append((s2, reps, seen))
                    continue
                for s3, o in orbit(it, s2, r, maps, facet):
                    for s4, b in greatest(it, s3, o):
                        nxt.append((s4, reps + [o[b]], seen + o))
        todo = nxt
    for s, reps, _ in todo:
        yield from matching(it, s, got, reps)


def perm(*images):
    """one image per variable: (index, factor) pairs; the constant is mapped to itself"""
    return [list(i) for i in images] + [[(len(images), 1)]]


SWAP = perm([(1, 1)], [(0, 1)])
NEG = perm([(0, -1)], [(1, 1)])
BOTH = perm([(0, -1)], [(1, -1)])
FLIP = perm([(2, 1), (0, -1)], [(1, 1)])       # x -> 1 - x
TURN = perm([(1, 1)], [(0, -1)])
CYCLE = perm([(1, 1)], [(2, 1)], [(0, 1)])
SWAP3 = perm([(1, 1)], [(0, 1)], [(2, 1)])
CASES = [(fn + "_" + tag, t, m) for tag in ("facet", "vertex") for fn in ("vp_class", "vp_rep") for t, m in (
    ("a b 1", []), ("a b 1", [SWAP]), ("a b 1", [NEG]), ("a b 1", [SWAP, NEG]), ("a b 1", [BOTH]), ("a b 1", [TURN]), ("a b c:0:1", [SWAP]), ("1 b c", [SWAP, BOTH]), ("a b 1", [FLIP] if tag == "vertex" else [NEG, BOTH]), ("1 b c", [FLIP, SWAP] if tag == "facet" else [SWAP]),
    ("a b c 1", [CYCLE]), ("a b 0 1", [CYCLE, SWAP3]),
)] + [("vp_all_" + tag, t, m) for tag in ("facet", "vertex") for t, m in (
    ("a b 1 | c 1 1", []), ("a b 1 | c 1 1", [SWAP]), ("a b 1 | c 1 1", [NEG]), ("a 2 1 | 1 b 1 | 2 1 1", [SWAP]), ("a 2 1 | 2 b 1", [SWAP, NEG]), ("a 2 1 | 2 b 1", [TURN]), ("a b 1 | 1 a 1", [BOTH, SWAP]),
    ("a 2 3 1 | 3 b 2 1", [CYCLE]), ("a 0 1 | 0 a 1 | b 0 1", [SWAP]), ("0 1 1 | 1 0 1 | 2 0 1 | 0 2 1 | a b 1", [SWAP]), ("a 1 1 | b 1 1 | 1 1 1 | 1 2 1", [NEG]),
)]


def check(c):
    path = prog(H, "classes", FILES)
    n = 0
    with ProcessPoolExecutor(8) as ex:
        for found, und, k in ex.map(job, [(path,) + x for x in sorted(CASES, key=lambda x: -len(x[1]) * (1 + len(x[2])))], chunksize=1):
            n += k
            for what in found:
                c.violation(re.sub(r" \(.*|\[.*?\]", "", what)[:100], "src/algorithm_classes.cpp", what)
            for u in und:
                if u not in c.undecided:
                    c.undecided.append(u)
    c.coverage.update(operations=3, cases=len(CASES), paths=n, undecided_paths=len(c.undecided), rule="on every path, for all values of the symbolic entries on it: the class is the set of rows reached by the maps, the representative its lexicographically greatest row, and classes returns the representatives of the classes of its rows, each once")
    c.assumptions += ["one to five rows of three or four entries, with up to three symbolic entries (-5 to 5) and an entry one (so that all rows are in lowest terms)", "maps that permute, negate or reflect coordinates", "instantiation for int, values that do not overflow"]
    if n == 0:
        raise vp.Broken("nothing decided: %s" % c.undecided[:3])


if __name__ == "__main__":
    if len(sys.argv) > 1:
        path = prog(H, "classes", FILES)
        for k, x in enumerate(CASES):
            if sys.argv[1] == "all" or str(k) in sys.argv[1:]:
                t0 = time.time()
                r = job((path,) + x)
                print(k, x[0], x[1], len(x[2]), r[2], list(dict.fromkeys(r[0]))[:2], list(dict.fromkeys(r[1]))[:2], round(time.time() - t0, 1), flush=True)
    else:
        vp.main("C20", "abstract interpretation over polynomial forms", check)
