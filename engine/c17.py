"""C17: Fourier-Motzkin elimination."""
import itertools, math, re, sys, time
from concurrent.futures import ProcessPoolExecutor
import vp
from absint import Program, State, Unknown, I, P, const
from poly import sym, add, scale, mul, show
from algebra import Algebra, prog
from cone import dot, signs, facets, model

H = r'''
#include <new>
#include "algorithm_fourier_motzkin_elimination.h"
#include "matrix.h"
using namespace panda;
using M = Matrix<int>;
extern "C" {
void vp_all(M* o, const M* m) { new (o) M(algorithm::fourierMotzkinElimination(*m)); }
void vp_some(M* o, const M* m) { new (o) M(algorithm::fourierMotzkinEliminationHeuristic(*m)); }
}
'''
FILES = ["algorithm_fourier_motzkin_elimination.cpp", "algorithm_matrix_operations.cpp", "algorithm_row_operations.cpp", "bitset_variable_size.cpp"]
_it = {}


class Elim(Algebra):
    """unit: the greatest common divisor is replaced by the common divisor one (zero for zeros)"""

    def __init__(self, prog, unit=False, **kw):
        h = {r"^std::chrono::.*system_clock::now\(\)": lambda i, st, ins, a, dem: [(st, I(64, P(0)))]}
        if unit:
            h[r"panda::algorithm::gcd<(int|long|short)>\((int|long|short), (int|long|short)\)"] = self.h_unit
        super().__init__(prog, h, gcd=not unit, **kw)

    def h_unit(self, i, st, ins, a, dem):
        w = a[0][1]
        ks = [const(v[2]) if v[0] == "i" else None for v in a[:2]]
        if None not in ks:
            return [(st, I(w, P(math.gcd(*[k - (1 << w) if k >= 1 << (w - 1) else k for k in ks]))))]
        if any(v[0] == "i" and const(v[2]) not in (None, 0) for v in a[:2]):
            return [(st, I(w, P(1)))]
        out = []
        for s1, x in self.norm(st, a[0], True):
            for s2, y in self.norm(s1, a[1], True):
                for s3, zx in self.relation(s2.copy(), x, "=="):
                    if not const(zx[2]):
                        out.append((s3, I(w, P(1))))
                        continue
                    for s4, zy in self.relation(s3.copy(), y, "=="):
                        out.append((s4, I(w, P(0 if const(zy[2]) else 1))))
        return out


def cone(st, text):
    """rows of words: integers and names of symbols, optionally name:lo:hi"""
    env, rows = {}, []
    for line in text.split("|"):
        row = []
        for w in line.split():
            try:
                row.append(P(int(w)))
                continue
            except ValueError:
                pass
            n, lo, hi = (w.split(":") + ["-5", "5"])[:3]
            if n not in env:
                env[n] = st.poly.new(n, int(lo), int(hi))
            row.append(env[n])
        rows.append(row)
    return rows


def embed(rows, emb):
    return [[dot(r, [P(x) for x in col]) for col in emb] for r in rows]


@vp.guard()
def job(j):
    path, fn, text, emb, unit = j
    if path not in _it:
        _it[path] = Program(path)
    it = Elim(_it[path], unit, max_states=3000, max_steps=4000000)
    st = State()
    gens = cone(st, text)
    syms = list(st.poly.bounds)
    rows = embed(gens, emb) if emb else gens
    found, und, cnt = vp.PARTIAL, [], 0
    m = it.matrix(st, rows)
    out = ("p", st.alloc(24, name="out"), P(0))
    what = "%selimination of [%s]%s" % ("heuristic " if fn == "vp_some" else "", text, " embedded by %s" % (emb,) if emb else "")
    for r in it.call_fn(st, fn, [out, m]):
        if r[0] == "unknown":
            und.append("%s: %s" % (what, r[2]))
            continue
        try:
            if r[0] != "ret":
                if model(r[1], syms):
                    found.append("%s ends with %s" % (what, r[0]))
                continue
            for s, w in judge(it, r[1], fn, gens, rows, it.readm(r[1], out), unit):
                m = model(s, syms)
                if m is None:
                    continue
                found.append("%s: %s (%s)" % (what, w, ", ".join("%s = %d" % (x[2:] if x.startswith("s.") else x, v) for x, v in m.items())))
            cnt += 1
        except Unknown as e:
            und.append("%s: %s" % (what, e))
    for k, w, s in it.outside:
        if model(s, syms):
            found.append("%s: %s (%s)" % (what, k, w))
    if it.overflowed:
        und.append(what + ": the numbers become too large on some path")
    return found, und, cnt


def judge(it, st, fn, gens, rows, got, unit):
    """yields (state, complaint)"""
    raws = []
    for g in got:
        if len(g) != len(rows[0]):
            yield st, "a facet has %d entries" % len(g)
            return
        raw, q = it.descale(st, g)
        if raw is None:
            raise Unknown("a facet is divided in an unknown way")
        if any(y.startswith("q.") for x in raw for m in x for y in m):
            raise Unknown("quotients of quotients")
        if q is not None and not it.divides(st, q, raw):
            yield st, "a facet is divided by something that is not its divisor"
            return
        if not unit and q is None and not it.lowest(st, raw):
            yield st, "a facet is not in lowest terms: [%s]" % " ".join(map(show, g))
        raws.append(raw)
    n = len(rows)
    for s, fs in facets(it, st, gens):
        for s2, sg in signs(it, s, [dot(r, v) for r in raws for v in rows]):
            have = []
            for k, raw in enumerate(raws):
                x = sg[k * n:(k + 1) * n]
                if any(y > 0 for y in x):
                    yield s2, "[%s] is not valid for row %d" % (" ".join(map(show, raw)), [y > 0 for y in x].index(True))
                    break
                inc = tuple(k for k, y in enumerate(x) if y == 0)
                if inc not in fs:
                    yield s2, "[%s] is no facet (rows on it: %s)" % (" ".join(map(show, raw)), inc)
                    break
                if fn == "vp_some" and len(raw) - 1 == sum(1 for x in raw[:-1] if it.iszero(s2, x)) and (const(raw[-1]) == -1 if unit else not it.iszero(s2, raw[-1])):
                    yield s2, "the trivial inequality is reported"
                    break
                have.append(inc)
            else:
                if len(set(have)) != len(have):
                    yield s2, "a facet is reported twice"
                elif fn == "vp_all" and set(have) != set(fs):
                    yield s2, "a facet is missing (the one with rows %s)" % (sorted(set(fs) - set(have))[0],)
                elif fn == "vp_some" and not have:
                    for s3, last in signs(it, s2, [v[-1] for v in rows]):
                        if set(fs) - ({tuple(k for k, x in enumerate(last) if x == 0)} if all(x >= 0 for x in last) and any(last) else set()):
                            yield s3, "no facet is reported"


S = "1 0 1 | 0 1 1 | -1 0 1 | 0 -1 1 | "
CASES = [(fn, t, e, True) for fn in ("vp_all", "vp_some") for t, e in (
    ("1 | a", None), ("-1 | 1 | a", None),
    ("1 0 | 0 1 | a b", None), ("a b | 0 1 | 1 0", None), ("1 0 | a b | 0 1", None), ("0 0 | 1 0 | 0 1 | a b", None), ("1 0 | 1 0 | 0 1 | a b", None),
    ("2 1 | 1 1 | a 1 | b 1", None), ("1 0 | 0 1 | a 1 | b 1", None), ("1 0 | -1 0 | a b:1:5", None), ("0 1 | a 1 | 1 1 | b 1", None),
    ("1 0 | 0 1 | a b", ((1, 0), (0, 1), (0, 0))), ("1 0 | 0 1 | a b", ((0, 0), (1, 0), (0, 1))), ("1 1 | 0 1 | a b", ((1, 2), (3, -1), (1, 1), (0, 1))),
    ("1 0 | 0 1 | a b", ((1, 0), (1, 1), (0, 1))), ("1 | a", ((1,), (2,))), ("1 | a", ((2,), (0,))),
    ("1 0 0 | 0 1 0 | 0 0 1 | a b c", None), ("1 0 0 | 0 1 0 | 0 0 1 | 1 1 -1 | a b c", None), ("1 0 0 | 0 1 0 | 0 0 1 | -1 -1 -1 | a b 1", None),
    ("0 0 1 | 1 0 0 | 0 1 0 | a b 1", None), ("0 0 1 | 1 0 0 | 0 1 0 | a b 0", None), ("0 0 1 | 1 0 0 | a 1 0 | b 2 1", None),
    (S + "a 0 2", None), (S + "a b 2", None), (S + "a b 0", None), (S + "0 0 1 | a a 1", None), (S + "a b 1", ((1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1))),
    ("0 0 1 | 2 0 1 | 0 2 1 | 2 2 1 | 1 3 1 | a b:-1:2 1", None), ("0 0 1 | 2 0 1 | 0 2 1 | a 2 1 | b:-1:2 1 1", None),
    ("0 0 1 | 4 0 1 | 0 4 1 | 1 1 1 | a b:-1:5 1 | 2 2 1", None),
    ("1 0 0 0 | 0 1 0 0 | 0 0 1 0 | 0 0 0 1 | a b 1 -1", None), ("0 0 0 1 | 1 0 0 1 | 0 1 0 1 | 0 0 1 1 | 1 1 0 1 | 1 0 1 1 | 0 1 1 1 | a b 1 1", None),
    ("0 0 0 2 | 2 0 0 2 | 0 2 0 2 | 2 2 0 2 | 1 1 2 2 | 1 1 -2 2 | a 1 1 2", None), ("1 0 0 1 | -1 0 0 1 | 0 1 0 1 | 0 -1 0 1 | 0 0 1 1 | 0 0 -1 1 | a b 0 1", None),
    ("1 0 0 | -1 -1 0 | 0 0 0 | 1 2 1 | -1 1 1 | 0 a:0:2 1", None), ("0 0 0 | 1 -1 1 | 2 -1 0 | 2 1 1 | 1 0 1 | a:0:1 1 1", None), ("0 1 1 1 | -1 0 0 1 | 2 1 1 1 | 1 -1 0 1 | 1 1 -1 0 | 1 -1 0 1 | a:0:1 0 1 1", None),
    ("2 2 1 1 | 1 0 1 1 | 0 -1 0 1 | 1 0 1 1 | 0 1 1 1 | 0 -1 0 1 | 1 1 2 1 | a:0:1 2 1 1", None), ("-1 2 0 1 | 0 1 2 1 | 1 0 0 1 | 0 -1 1 1 | 1 -1 0 1 | 1 -1 1 1 | 0 0 0 0 | a:0:1 -1 0 1", None),
    ("0 2 0 -1 1 | -1 0 -1 1 1 | -1 0 -1 0 0 | 1 0 1 0 1 | 1 0 0 1 1 | 2 0 1 1 1 | 0 2 0 0 1 | 1 0 0 a:1:2 1", None), ("2 0 0 2 0 | 2 2 -1 1 1 | 0 0 0 1 0 | 1 0 0 0 0 | 1 0 -1 1 1 | 1 0 1 2 1 | 1 2 1 0 1 | -1 1 0 a:0:1 0", None),
    ("0 1 0 2 1 | 2 0 0 2 1 | 0 0 0 -1 0 | -1 2 1 1 1 | 0 0 -1 0 1 | -1 -1 2 0 1 | 0 0 -1 1 1 | 0 0 1 1 1 | 1 2 0 0 1", None),
    ("1 1 | 0 1 | 1 1 | -1 1 | a 1", ((0, 1), (1, 0), (0, 1))), ("0 0 1 | 1 1 1 | 2 1 1 | 0 1 1 | 0 1 1 | -1 0 1 | 0 2 1 | -1 a:-2:1 1", None), ("2 1 1 | 1 0 1 | 1 -1 1 | 1 -1 1 | -1 1 1 | a:0:3 0 1", None),
    ("1 0 | 0 1 | a b", ((1, 1), (1, 0), (0, 0), (0, 1), (1, 1))), ("1 | a", ((1,), (2,), (3,))), ("1 0 | 1 1 | 0 1", ((0, 0), (1, 2), (2, 1), (1, 0), (0, 0))),
    ("1 1 1 1 | 1 1 -1 1 | 1 -1 1 1 | 1 -1 -1 1 | -1 1 1 1 | -1 1 -1 1 | -1 -1 1 1 | -1 -1 -1 1 | a b 0 1", None),
)] + [(fn, t, e, False) for fn in ("vp_all", "vp_some") for t, e in (
    ("1 0 | 0 1 | a b", None), (S + "a 0 2", None), ("1 0 0 | 0 1 0 | 0 0 1 | a b 0", None), ("1 0 0 | 0 1 0 | 0 0 1 | a b 2", None), ("2 1 | 1 2 | a b", None),
)] + [("vp_all", "0 0", None, True), ("vp_all", "0 0 0 | 0 0 0", None, True),
      ("vp_all", " | ".join(["1 0", "0 1"] + ["1 %d" % -k for k in range(1, 34)] + ["1 a:-38:-31"]), None, True),
      ("vp_all", " | ".join(["1 0", "0 1"] + ["1 %d" % -k for k in range(1, 66)] + ["1 a:-70:-62"]), None, True),
      ("vp_all", " | ".join(["1 %d %d" % (k, k * k) for k in range(34)] + ["1 a:-2:-1 2"]), None, True)]
LIMITS = [32 * n + k for n in (1, 2, 3, 4, 6, 8, 10, 12, 16, 20, 30, 40, 50, 75, 100, 150, 200) for k in (0, 1)]
SOME = [x for x in LIMITS if x < 1400]


@vp.guard()
def room(j):
    """the sets made for n rows have room for them"""
    path, n = j
    if path not in _it:
        _it[path] = Program(path)
    it = Elim(_it[path], True, max_states=1000, max_steps=30000000)
    it.SECONDS = 800
    st = State()
    found, und, seen = vp.PARTIAL, [], []

    def made(i, st, ins, a, dem):
        k = re.search(r"BitsetFixedSize<(\d+)u?l?>::", dem)
        seen.append((int(k.group(1)) if k else None, const(a[1][2]) if a[1][0] == "i" else None))
        raise Unknown("reached")
    it.handlers.append((re.compile(r"Bitset(FixedSize<\d+u?l?>|VariableSize)::Bitset(Fixed|Variable)Size\(unsigned long\)"), made))
    it.call_fn(st, "vp_all", [("p", st.alloc(24, name="out"), P(0)), it.matrix(st, [[P(1)]] * n)])
    if not seen:
        return found, ["the sets for %d rows are not found" % n], 0
    for k, bits in seen:
        if bits is not None and bits < n or k is not None and 32 * k < n:
            found.append("sets of %s rows are used for %d rows" % (min(x for x in (bits, 32 * k if k else None) if x is not None), n))
    return found, und, 1


def check(c):
    path = prog(H, "fme", FILES)
    n = 0
    with ProcessPoolExecutor(8) as ex:
        rs = ex.map(room, [(path, k) for k in (LIMITS if vp.THOROUGH else SOME)], chunksize=1)
        es = ex.map(job, [(path,) + x for x in sorted(CASES, key=lambda x: -len(x[1]))], chunksize=1)
        for found, und, k in itertools.chain(rs, es):
            n += k
            for what in found:
                c.violation(re.sub(r" \(.*|\[.*?\]", "", what)[:100], "src/algorithm_fourier_motzkin_elimination.cpp", what)
            for u in und:
                if u not in c.undecided:
                    c.undecided.append(u)
    c.coverage.update(operations=2, cases=len(CASES), row_counts=len(SOME), paths=n, undecided_paths=len(c.undecided), rule="on every path, for all values of the symbolic entries on it: each row returned is a facet of the cone of the input rows, in lowest terms, reported once; the full elimination returns all of them")
    c.assumptions += ["cones of dimension one to four with up to three symbolic entries (-5 to 5), all other entries given", "greatest common divisors are symbols, or are replaced by the common divisor one", "instantiation for int, values that do not overflow"]
    if n == 0:
        raise vp.Broken("nothing decided: %s" % c.undecided[:3])


if __name__ == "__main__":
    if len(sys.argv) > 1:
        path = prog(H, "fme", FILES)
        for a in sys.argv[1:]:
            x = a.split(";")
            t0 = time.time()
            r = job((path, x[0].split()[0], x[1], eval(x[2]) if len(x) > 2 else None, " u" in x[0]))
            print(x[1], r[2], list(dict.fromkeys(r[0]))[:2], list(dict.fromkeys(r[1]))[:3], round(time.time() - t0, 1))
    else:
        vp.main("C17", "abstract interpretation over polynomial forms", check)
