"""C10: conversion of rows and matrices between integer types."""
import itertools
from concurrent.futures import ProcessPoolExecutor
import vp
from absint import Program, State, Unknown, I, P, const, srange
from poly import add, addc, scale, show
from algebra import Algebra, prog
import bigint

TYPES = {"i16": "int16_t", "i64": "int64_t", "safe": "SafeInteger", "big": "BigInteger"}
H = r'''
#include <cstdint>
#include <new>
#include "cast.h"
#include "big_integer.h"
#include "safe_integer.h"
using namespace panda;
extern "C" {
''' + "\n".join('''void vp_row_%s_int(Row<int>* o, const Row<%s>* a) { new (o) Row<int>(cast<int>(*a)); }
void vp_row_int_%s(Row<%s>* o, const Row<int>* a) { new (o) Row<%s>(cast<%s>(*a)); }
void vp_mat_%s_int(Matrix<int>* o, const Matrix<%s>* a) { new (o) Matrix<int>(cast<int>(*a)); }
void vp_mat_int_%s(Matrix<%s>* o, const Matrix<int>* a) { new (o) Matrix<%s>(cast<%s>(*a)); }''' % (k, t, k, t, t, t, k, t, k, t, t, t) for k, t in TYPES.items()) + "\n}\n"
BITS = {"int": 32, "i16": 16, "i64": 64, "safe": 64}
_it = {}


class Cast(Algebra):
    lay = None

    def esize(self, ty):
        return self.lay.size if ty == "big" else BITS[ty] // 8

    def put(self, st, ty, row, at):
        """row: forms, or for big pairs (sign, word)"""
        n = self.esize(ty)
        o = st.mem[at[1]]
        off = const(at[2])
        b = st.alloc(n * len(row), name="elements") if row else None
        for k, f in enumerate(row):
            if ty != "big":
                st.mem[b].cells[n * k] = (n, I(8 * n, f))
                continue
            sgn, words = f
            w = st.alloc(8 * len(words), name="words")
            for i, x in enumerate(words):
                st.mem[w].cells[8 * i] = (8, I(64, x))
            c = st.mem[b].cells
            c[n * k + self.lay.sign] = (self.lay.signsize, I(8 * self.lay.signsize, P(self.lay.pos if sgn > 0 else self.lay.neg)))
            for d, e in ((0, 0), (8, 8 * len(words)), (16, 8 * len(words))):
                c[n * k + self.lay.vec + d] = (8, ("p", w, P(e)))
        for k, e in ((0, 0), (8, n * len(row)), (16, n * len(row))):
            o.cells[off + k] = (8, ("p", b, P(e)) if b else ("p", None, P(0)))

    def get(self, st, ty, ptr):
        """-> [(state, [values])]"""
        b, s, e = self.span(st, ptr)
        n = self.esize(ty)
        out = [(st, [])]
        for k in (range(s, e, n) if b else ()):
            nxt = []
            for st1, vs in out:
                if ty == "big":
                    for st2, sg, ws in bigint.read(self, st1, Sub(self.lay, k), ("p", b, P(0))):
                        nxt.append((st2, vs + [bigint.value(ws, sg)]))
                else:
                    c = st1.mem[b].cells.get(k)
                    if not c or c[0] != n or c[1][0] != "i":
                        raise Unknown("element not recognized")
                    for st2, v in self.norm(st1, c[1], True):
                        nxt.append((st2, vs + [v]))
            out = nxt
        return out


class Sub:
    def __init__(self, lay, k):
        self.sign, self.signsize, self.vec, self.pos, self.neg = lay.sign + k, lay.signsize, lay.vec + k, lay.pos, lay.neg


@vp.guard()
def job(j):
    path, kind, src, dst, shape = j
    if path not in _it:
        _it[path] = Program(path)
    it = Cast(_it[path], max_states=6000, max_steps=60000)
    it.lay = bigint.Layout(_it[path])
    st = State()
    found, und, cnt = vp.PARTIAL, [], 0
    vals, raw = [], []

    def elem(name, sg):
        if src == "big":
            words = [st.poly.new("%sw%d" % (name, i), (1 if (i == abs(sg) - 1 and (abs(sg) > 1 or sg < 0)) else 0), bigint.B - 1) for i in range(abs(sg))]
            s = 1 if sg > 0 else -1
            return (s, words), bigint.value(words, s)
        lo, hi = srange(BITS[src])
        f = st.poly.new(name, lo, hi)
        return f, f
    for r, row in enumerate(shape):
        es = [elem("a%d_%d" % (r, k), sg) for k, sg in enumerate(row)]
        raw.append([x for x, _ in es])
        vals.append([v for _, v in es])
    at = ("p", st.alloc(24, name="input"), P(0))
    if kind == "row":
        it.put(st, src, raw[0], at)
    else:
        it.vecs(st, raw, lambda s, r, a: it.put(s, src, r, a), at)
    out = ("p", st.alloc(24, name="out"), P(0))
    lim = None if dst == "big" else srange(BITS[dst])
    what = "cast of a %s from %s to %s" % ("row" if kind == "row" else "matrix", TYPES.get(src, "int"), TYPES.get(dst, "int"))
    for r in it.call_fn(st, "vp_%s_%s_%s" % (kind, src, dst), [out, at]):
        if r[0] == "unknown":
            und.append("%s: %s" % (what, r[2]))
            continue
        cnt += 1
        st2 = r[1]
        try:
            if r[0] == "throw":
                # some entry must be out of range
                if lim is None:
                    found.append(what + " throws although every value fits")
                    continue
                ok = [x for row in vals for v in row for x in (addc(v, -lim[0]), addc(scale(v, -1), lim[1]))]
                if st2.poly.feasible(ok):
                    found.append(what + " throws although every value fits")
                continue
            if r[0] != "ret":
                found.append("%s ends with %s" % (what, r[0]))
                continue
            rows = [out]
            if kind == "mat":
                b, s, e = it.span(st2, out)
                rows = [("p", b, P(k)) for k in range(s, e, 24)] if b else []
            if len(rows) != len(vals):
                found.append("%s yields %d rows instead of %d" % (what, len(rows), len(vals)))
                continue
            for ptr, want in zip(rows, vals):
                for st3, got in it.get(st2, dst, ptr):
                    if not st3.poly.feasible():
                        continue
                    if len(got) != len(want):
                        found.append("%s yields %d entries instead of %d" % (what, len(got), len(want)))
                        continue
                    for g, w in zip(got, want):
                        if not st3.poly.entails_eq(add(g, w, -1)):
                            found.append("%s changes the value %s to %s" % (what, show(w), show(g)))
        except Unknown as e:
            und.append("%s: %s" % (what, e))
    return found, und, cnt


def check(c):
    path = prog(H, "casts", ["cast.cpp", "big_integer.cpp", "big_integer_constructors.cpp", "big_integer_comparisons.cpp", "big_integer_arithmetics.cpp",
                             "safe_integer.cpp", "safe_integer_constructors.cpp", "safe_integer_comparisons.cpp"])
    jobs = []
    for t in TYPES:
        for src, dst in ((t, "int"), ("int", t)):
            signs = [-2, -1, 1, 2] if src == "big" else [1]
            for n in (0, 1, 2):
                for sg in itertools.product(signs, repeat=n):
                    if n == 2 and src == "big" and abs(sg[0]) + abs(sg[1]) > 3:
                        continue
                    jobs.append((path, "row", src, dst, (sg,)))
            jobs.append((path, "mat", src, dst, ()))
            jobs.append((path, "mat", src, dst, ((1,),)))
            jobs.append((path, "mat", src, dst, ((1,), (1,))))
            jobs.append((path, "mat", src, dst, ((1,), (), (1, 1))))
    n = 0
    seen = set()
    with ProcessPoolExecutor(8) as ex:
        for found, und, k in ex.map(job, jobs):
            n += k
            for what in found:
                key = what.split(" the value ")[0]
                if key not in seen:
                    seen.add(key)
                    c.violation(key, "src/cast.cpp", what)
            for u in und:
                if u not in c.undecided:
                    c.undecided.append(u)
    c.coverage.update(conversions=8, cases=len(jobs), paths=n, undecided_paths=len(c.undecided),
                      rule="every entry of the result equals the entry of the input, or an exception is thrown and some entry is out of range of the target type")
    c.assumptions += ["rows of at most 2 entries, matrices of at most 3 rows, big integers of at most 2 words; the conversion treats entries one by one"]
    if n == 0:
        raise vp.Broken("%d paths decided: %s" % (n, c.undecided[:3]))


if __name__ == "__main__":
    vp.main("C10", "abstract interpretation over affine forms and polyhedra", check)
