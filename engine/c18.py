"""C18: bit sets of row indices."""
from concurrent.futures import ProcessPoolExecutor
import vp
from absint import Program, State, Unknown, I, P, const
from poly import sym, add, addc, scale
from algebra import Algebra, prog

SIZES = (1, 2, 3)
H = r'''
#include <new>
#include <vector>
#include "bitset_fixed_size.h"
#include "bitset_variable_size.h"
using namespace panda;
template <std::size_t N> using F = BitsetFixedSize<N>;
using V = BitsetVariableSize;
extern "C" {
''' + "".join(r'''
void vp_%(t)s_new(%(T)s* o, unsigned long n) { new (o) %(T)s(n); }
int vp_%(t)s_contains(const %(T)s& a, const %(T)s& b, const %(T)s&, unsigned long max) { return a.contains(b, max) ? 1 : 0; }
int vp_%(t)s_covers(const %(T)s& a, const %(T)s& b, const %(T)s& c, unsigned long max) { return %(T)s::unionContains(a, b, c, max) ? 1 : 0; }
unsigned long vp_%(t)s_count(const %(T)s& a, const %(T)s&, const %(T)s&, unsigned long max) { return a.count(max); }
unsigned long vp_%(t)s_ucount(const %(T)s& a, const %(T)s& b, const %(T)s&, unsigned long max) { return %(T)s::unionCount(a, b, max); }
void vp_%(t)s_merge(%(T)s* o, const %(T)s& a, const %(T)s& b, unsigned long max) { new (o) %(T)s(a.merge(b, max)); }
void vp_%(t)s_set(%(T)s& a, unsigned long k) { a.set(k); }
unsigned long vp_%(t)s_size() { return sizeof(%(T)s); }
''' % {"t": t, "T": T} for t, T in [("f%d" % n, "F<%d>" % n) for n in SIZES] + [("v", "V")]) + "}\n"
_it = {}
ZERO, ONE = frozenset(), frozenset([frozenset()])


def band(x, y):
    """polynomials over two elements: sets of products of bits"""
    r = set()
    for p in x:
        for q in y:
            r ^= {p | q}
    return frozenset(r)


def bxor(x, y):
    return x ^ y


def bor(x, y):
    return x ^ y ^ band(x, y)


def inv(x):
    return x ^ ONE


def below(x, y):
    """x implies y"""
    return band(x, inv(y)) == ZERO


def bit(name):
    return frozenset([frozenset([name])])


def integer(x):
    """the same function as an integer polynomial: {product of bits: coefficient}"""
    vs = sorted({v for p in x for v in p})
    c = [sum(1 for p in x if all(k >> vs.index(v) & 1 for v in p)) % 2 for k in range(1 << len(vs))]
    for v in range(len(vs)):
        for k in range(len(c)):
            if k >> v & 1:
                c[k] -= c[k ^ (1 << v)]
    return {frozenset(v for n, v in enumerate(vs) if k >> n & 1): x for k, x in enumerate(c) if x}


class Bits(Algebra):
    """a word is 32 truth tables, one per bit"""

    def __init__(self, prog, **kw):
        super().__init__(prog, {r"^llvm\.ctpop\.": self.h_pop}, **kw)

    def lanes(self, st, v):
        if v[0] == "zero":
            return (ZERO,) * 32
        if v[0] != "i":
            return None
        k = const(v[2])
        if k is not None:
            return tuple(ONE if k >> i & 1 else ZERO for i in range(v[1]))
        if len(v[2]) == 1:
            (m, c), = v[2].items()
            if c == 1 and len(m) == 1:
                return st.notes.get("lanes", {}).get(m[0])
        return None

    def word(self, st, lanes):
        if all(x in (ZERO, ONE) for x in lanes):
            return I(len(lanes), P(sum(1 << i for i, x in enumerate(lanes) if x)))
        d = st.notes.get("lanes", {})
        for s, l in d.items():
            if l == lanes:
                return I(len(lanes), sym(s))
        f = st.fresh("word", 0, (1 << len(lanes)) - 1)
        (m, _), = f.items()
        st.notes["lanes"] = dict(d, **{m[0]: lanes})
        return I(len(lanes), f)

    def bitop(self, st, op, w, a, b):
        x, y = self.lanes(st, a), self.lanes(st, b)
        if x is None or y is None or len(x) != len(y):
            return super().bitop(st, op, w, a, b)
        f = {"and": band, "or": bor, "xor": bxor}[op]
        return [(st, self.word(st, tuple(f(p, q) for p, q in zip(x, y))))]

    def icmp(self, st, fr, ins, a, b):
        if ins["pred"] in ("eq", "ne") and a[0] == "i" and b[0] == "i" and not (const(a[2]) is not None and const(b[2]) is not None):
            x, y = self.lanes(st, a), self.lanes(st, b)
            if x is not None and y is not None and len(x) == len(y):
                d = tuple(map(bxor, x, y))
                if ONE in d:
                    r = [(st, 0)]
                elif not any(d):
                    r = [(st, 1)]
                else:
                    r = [(st.copy(), 1), (st.copy(), 0)]
                    for s, eq in r:
                        s.notes["eqs"] = s.notes.get("eqs", ()) + ((d, eq),)
                return [(s, I(1, P(eq if ins["pred"] == "eq" else 1 - eq))) for s, eq in r]
        return super().icmp(st, fr, ins, a, b)

    def h_pop(self, i, st, ins, a, dem):
        l = self.lanes(st, a[0])
        return [(st, I(a[0][1], self.pop(st, l)))] if l is not None else None

    def pop(self, st, lanes):
        """the number of bits, as a polynomial in products of bits"""
        r = P(0)
        for x in lanes:
            for p, c in integer(x).items():
                n = "&".join(sorted(p))
                if p and n not in st.poly.bounds:
                    st.poly.new(n, 0, 1)
                r = add(r, sym(n) if p else P(1), c)
        return r

    def fill(self, st, o, off, name, words, top):
        """a set with bits below top; -> lanes"""
        out = []
        for w in range(words):
            l = tuple(bit("%s%02d.%02d" % (name, w, i)) if 32 * w + i < top else ZERO for i in range(32))
            st.mem[o].cells[off + 4 * w] = (4, self.word(st, l))
            out += l
        return out

    def words(self, st, o, off, n):
        out = []
        for w in range(n):
            v = self.load(st, ("p", o, P(off + 4 * w)), 4, "i32", {})
            l = self.lanes(st, v)
            if l is None:
                raise Unknown("a word is not recognized")
            out += l
        return out


class Case:
    def __init__(self, it, kind, words, top):
        self.it, self.kind, self.n, self.top = it, kind, words, top

    def obj(self, st, name):
        """-> (pointer, lanes)"""
        it = self.it
        if self.kind == "v":
            o = st.alloc(24, name="set")
            b = st.alloc(4 * self.n, name="words")
            l = it.fill(st, b, 0, name, self.n, self.top)
            for k, e in ((0, 0), (8, 4 * self.n), (16, 4 * self.n)):
                st.mem[o].cells[k] = (8, ("p", b, P(e)))
        else:
            o = st.alloc(4 * self.n, name="set")
            l = it.fill(st, o, 0, name, self.n, self.top)
        return ("p", o, P(0)), l

    def read(self, st, ptr):
        if self.kind == "v":
            b, s, e = self.it.span(st, ptr)
            return self.it.words(st, b, s, (e - s) // 4) if b else []
        return self.it.words(st, ptr[1], const(ptr[2]), self.n)


def implied(st, viol, want):
    """is 'no bit of viol is set' (want) resp. 'some bit is set' (not want) known on the path?"""
    if want:
        zero = [x for d, eq in st.notes.get("eqs", ()) if eq for x in d if x]
        return all(not v or any(below(v, z) for z in zero) for v in viol)
    if ONE in viol:
        return True
    return any(all(not x or any(below(x, v) for v in viol if v) for x in d) for d, eq in st.notes.get("eqs", ()) if not eq)


def consistent(st):
    zero = [x for d, eq in st.notes.get("eqs", ()) if eq for x in d if x]
    return not any(all(not x or any(below(x, z) for z in zero) for x in d) for d, eq in st.notes.get("eqs", ()) if not eq)


@vp.guard()
def job(j):
    path, kind, n, top = j
    if path not in _it:
        _it[path] = Program(path)
    it = Bits(_it[path], max_states=3000, max_steps=200000)
    found, und, cnt = vp.PARTIAL, [], 0
    t = "v" if kind == "v" else "f%d" % n
    where = "%s of %d words, rows below %d" % ("variable size" if kind == "v" else "fixed size", n, top)

    def run(fn, args, st, judge):
        nonlocal cnt
        for r in it.call_fn(st, "vp_%s_%s" % (t, fn), args):
            if r[0] == "unknown":
                und.append("%s: %s" % (fn, r[2]))
                continue
            try:
                if r[0] != "ret":
                    found.append("%s: %s ends with %s" % (where, fn, r[0]))
                    continue
                if not consistent(r[1]):
                    continue
                w = judge(r[1], r[2] if len(r) > 2 else None)
                cnt += 1
                if w:
                    found.append("%s: %s" % (where, w))
            except Unknown as e:
                und.append("%s: %s" % (fn, e))

        for k, w, s in it.outside:
            found.append("%s: %s: %s (%s)" % (where, fn, k, w))
        it.outside = []

    c = Case(it, kind, n, top)

    def operands():
        st = State()
        r = [c.obj(st, x) for x in "abc"]
        return st, [p for p, _ in r], [l for _, l in r]

    def kept(s, ps, ls):
        return [x for x, p, l in zip("abc", ps, ls) if c.read(s, p) != l]

    def boolean(fn, viol):
        st, ps, ls = operands()
        v = viol(*ls)

        def judge(s, r):
            k = const(r[2]) if r and r[0] == "i" else None
            if k is None:
                raise Unknown("the answer is not recognized")
            if kept(s, ps, ls):
                return "%s changes a set" % fn
            if implied(s, v, bool(k)):
                return
            if implied(s, v, not k):
                return "%s answers %s although that is not so" % (fn, "yes" if k else "no")
            return "%s answers %s without having looked at all rows (or at others)" % (fn, "yes" if k else "no")
        run(fn, ps + [I(64, P(top))], st, judge)

    boolean("contains", lambda a, b, cc: [band(q, inv(p)) for p, q in zip(a, b)])
    boolean("covers", lambda a, b, cc: [band(r, inv(bor(p, q))) for p, q, r in zip(a, b, cc)])

    def number(fn, lanes):
        st, ps, ls = operands()

        def judge(s, r):
            if not r or r[0] != "i":
                raise Unknown("the count is not recognized")
            exp = it.pop(s, lanes(*ls))
            if kept(s, ps, ls):
                return "%s changes a set" % fn
            if [m for m in r[2] if len(m) > 1 or (m and not all(x[:1] in "abc" for x in m[0].split("&")))]:
                raise Unknown("the count is not recognized")
            if add(r[2], exp, -1):
                return "%s is not the number of rows%s" % (fn, " in either set" if fn == "ucount" else "")
        run(fn, ps + [I(64, P(top))], st, judge)

    number("count", lambda a, b, cc: a)
    number("ucount", lambda a, b, cc: [bor(p, q) for p, q in zip(a, b)])

    size = 24 if kind == "v" else 4 * n
    st, ps, ls = operands()
    out = ("p", st.alloc(size, name="out"), P(0))

    def merged(s, r):
        if kept(s, ps, ls):
            return "merge changes an operand"
        if c.read(s, out) != [bor(p, q) for p, q in zip(ls[0], ls[1])]:
            return "merge is not the union"
    run("merge", [out] + ps[:2] + [I(64, P(top))], st, merged)
    for k in sorted({0, 1, 30, 31, 32, 33, 63, 64, 65, 95} & set(range(top))):
        st, ps, ls = operands()
        want = [ONE if i == k else x for i, x in enumerate(ls[0])]
        run("set", [ps[0], I(64, P(k))], st, lambda s, r: None if c.read(s, ps[0]) == want else "adding row %d gives another set" % k)
    st = State()
    out = ("p", st.alloc(size, name="out"), P(0))

    def fresh(s, r):
        l = c.read(s, out)
        if len(l) < top:
            return "a new set for %d rows has room for %d" % (top, len(l))
        if any(l):
            return "a new set is not empty"
    run("new", [out, I(64, P(top))], st, fresh)
    return found, und, cnt


def check(c):
    path = prog(H, "bitsets", ["bitset_variable_size.cpp"])
    jobs = [(path, k, n, t) for k in "fv" for n in SIZES for t in (1, 2, 31, 32, 33, 63, 64, 65, 94, 95, 96) if t <= 32 * n and (k == "f" or t > 32 * (n - 1))]
    n = 0
    with ProcessPoolExecutor(8) as ex:
        for found, und, k in ex.map(job, jobs):
            n += k
            for what in found:
                c.violation(what, "src/bitset_%s_size" % ("variable" if what.startswith("var") else "fixed"), what)
            for u in und:
                if u not in c.undecided:
                    c.undecided.append(u)
    c.coverage.update(operations=7, cases=len(jobs), paths=n, undecided_paths=len(c.undecided), rule="each bit of a result, as a boolean function of the bits of the operands, is that of the set operation; an answer yes or no follows from the comparisons made on the path")
    c.assumptions += ["sets of up to three words; rows below the bound given to an operation", "the number of bits of a word: the compiler's instruction"]
    if n == 0:
        raise vp.Broken("nothing decided: %s" % c.undecided[:3])


if __name__ == "__main__":
    vp.main("C18", "abstract interpretation over boolean functions of the bits", check)
