"""C12: the text written for a row means the row."""
from concurrent.futures import ProcessPoolExecutor
import itertools
import vp
from absint import Program, State, Unknown, I, P, const, srange
from poly import sym, add, addc, scale, mul, show
from algebra import prog
from text import Text, show_items

TYPES = {"i16": ("int16_t", 2), "int": ("int", 4), "i64": ("int64_t", 8)}
H = r'''
#include <cstdint>
#include <iostream>
#include "algorithm_row_operations.h"
#include "algorithm_matrix_operations.h"
#include "cast.h"
using namespace panda;
extern "C" {
''' + "\n".join('''
void vp_pretty_%(k)s(std::ostream& o, const Row<%(t)s>& r, const Names& n, const char* rel) { algorithm::prettyPrint(o, r, n, rel); }
void vp_line_%(k)s(std::ostream& o, const Row<%(t)s>& r, const Names& n, const char* rel) { algorithm::prettyPrintln(o, r, n, rel); }
void vp_frac_%(k)s(std::ostream& o, const Row<%(t)s>& r) { algorithm::printFractional(o, r); }
void vp_raw_%(k)s(std::ostream& o, const Row<%(t)s>& r) { o << r; }
void vp_mat_%(k)s(std::ostream& o, const Matrix<%(t)s>& m, const Names& n, const char* rel) { algorithm::prettyPrint(o, m, n, rel); }
void vp_rawmat_%(k)s(std::ostream& o, const Matrix<%(t)s>& m) { o << m; }
''' % dict(k=k, t=t) for k, (t, _) in TYPES.items()) + "\n}\n"
NAMES = ["x", "y1", "Z", "w"]
LIM = 1 << 30
_it = {}


class Bad(Exception):
    pass


def lex(it, st, items):
    """-> tokens: ("num", form) | ("id", text) | (" ",) | ("+",) | ("-",) | ("/",) | ("nl",) | ("op", text)"""
    out = []
    k = 0
    while k < len(items):
        x = items[k]
        if isinstance(x, tuple):
            if x[0] == "flush":
                k += 1
                continue
            if x[0] == "n":
                f = dict(x[1])
                # text next to a number of unknown digits must not be a digit
                if k + 1 < len(items) and (isinstance(items[k + 1], tuple) or 48 <= items[k + 1] <= 57):
                    raise Bad("two numbers are written next to each other")
                if k and isinstance(items[k - 1], int) and 48 <= items[k - 1] <= 57:
                    raise Bad("two numbers are written next to each other")
                out.append(("num", f))
                k += 1
                continue
            raise Unknown("token")
        if not isinstance(x, int):
            raise Unknown("symbolic character written")
        c = chr(x)
        if c in " \t":
            out.append((" ",))
            k += 1
        elif c == "\n":
            out.append(("nl",))
            k += 1
        elif c in "+-/":
            out.append((c,))
            k += 1
        elif c.isdigit():
            j = k
            while j < len(items) and isinstance(items[j], int) and chr(items[j]).isdigit():
                j += 1
            out.append(("num", P(int("".join(map(chr, items[k:j]))))))
            k = j
        elif c.isalpha():
            j = k
            while j < len(items) and isinstance(items[j], int) and (chr(items[j]).isalnum() or items[j] == 95):
                j += 1
            if j < len(items) and isinstance(items[j], tuple) and items[j][0] == "n":
                raise Bad("a number directly follows a name")
            out.append(("id", "".join(map(chr, items[k:j]))))
            k = j
        else:
            j = k
            while j < len(items) and isinstance(items[j], int) and chr(items[j]) in "<>=!":
                j += 1
            if j == k:
                raise Bad("unexpected character '%s' is written" % c)
            out.append(("op", "".join(map(chr, items[k:j]))))
            k = j
    return out


def signed(it, st, toks, k, first, what):
    """optional sign and number at position k -> (form or None, next, explicit sign?)"""
    sg, has = 1, False
    if k < len(toks) and toks[k][0] in "+-" and len(toks[k]) == 1:
        sg = -1 if toks[k][0] == "-" else 1
        has = True
        k += 1
    f = None
    if k < len(toks) and toks[k][0] == "num":
        f = toks[k][1]
        k += 1
        if has and st.poly.feasible([addc(scale(f, -1), -1)]):
            raise Bad("a sign is followed by a number that may be negative")
        if not has and not first and st.poly.feasible([f]):
            raise Bad("%s follows without a sign" % what)
    elif not has and not first:
        raise Bad("%s follows without a sign" % what)
    return (scale(f, sg) if f is not None else None), k, sg


def judge_names(it, st, toks, row, rel):
    """row: forms; toks of one line without line break"""
    coef = {}
    k = 0
    first = True
    while True:
        while k < len(toks) and toks[k] == (" ",):
            k += 1
        if k >= len(toks) or toks[k][0] == "op":
            break
        f, k, sg = signed(it, st, toks, k, first, "a term")
        if k >= len(toks) or toks[k][0] != "id":
            raise Bad("a coefficient is not followed by a name")
        nm = toks[k][1]
        k += 1
        if nm not in NAMES[:len(row) - 1]:
            raise Bad("the text '%s' is not a name" % nm)
        coef[nm] = add(coef.get(nm, P(0)), P(sg) if f is None else f)
        first = False
        if k < len(toks) and toks[k][0] == "id":
            raise Bad("two names are written next to each other")
    if k >= len(toks) or toks[k] != ("op", rel):
        raise Bad("the relation is not written as passed in")
    k += 1
    while k < len(toks) and toks[k] == (" ",):
        k += 1
    f, k, sg = signed(it, st, toks, k, True, "")
    if f is None or k != len(toks):
        raise Bad("the right hand side is not a number")
    for i, nm in enumerate(NAMES[:len(row) - 1]):
        got = coef.get(nm, P(0))
        if not st.poly.entails_eq(add(got, row[i], -1)):
            raise Bad("coefficient %d is written as %s instead of %s" % (i, show(got), show(row[i])))
    if not st.poly.entails_eq(add(f, row[-1])):
        raise Bad("the right hand side is written as %s instead of %s" % (show(f), show(scale(row[-1], -1))))


def judge_raw(it, st, toks, row):
    vals, k = [], 0
    while k < len(toks):
        sp = False
        while k < len(toks) and toks[k] == (" ",):
            k += 1
            sp = True
        if k >= len(toks):
            break
        if vals and not sp:
            raise Bad("two entries are not separated")
        f, k2, sg = signed(it, st, toks, k, True, "")
        if f is None:
            raise Bad("an entry is not a number")
        vals.append(f)
        k = k2
    if len(vals) != len(row):
        raise Bad("%d entries are written instead of %d" % (len(vals), len(row)))
    for i, (g, w) in enumerate(zip(vals, row)):
        if not st.poly.entails_eq(add(g, w, -1)):
            raise Bad("entry %d is written as %s instead of %s" % (i, show(g), show(w)))


def quotient_of(it, st, f):
    """f as a quotient: (numerator form, divisor form) by undoing a recorded exact division"""
    if const(f) is not None:
        return f, P(1), P(0)
    for key, (q, r) in st.divs.items():
        if len(key) != 3:
            continue
        for sg in (1, -1):
            if it.eq(st, f, scale(q, sg)):
                return scale(dict(key[0]), sg), dict(key[1]), r
    return f, P(1), P(0)


def judge_frac(it, st, toks, row):
    vals, k = [], 0
    while k < len(toks):
        sp = False
        while k < len(toks) and toks[k] == (" ",):
            k += 1
            sp = True
        if k >= len(toks):
            break
        if vals and not sp:
            raise Bad("two entries are not separated")
        f, k, sg = signed(it, st, toks, k, True, "")
        if f is None:
            raise Bad("an entry is not a number")
        den = P(1)
        if k < len(toks) and toks[k] == ("/",):
            den, k, sg = signed(it, st, toks, k + 1, True, "")
            if den is None:
                raise Bad("a denominator is not a number")
            if st.poly.feasible([addc(den, -1), addc(scale(den, -1), 1)]):
                raise Bad("a whole number may be written with the denominator 1")
        vals.append((f, den))
    if len(vals) != len(row) - 1:
        raise Bad("%d coordinates are written instead of %d" % (len(vals), len(row) - 1))
    w = row[-1]
    for i, (num, den) in enumerate(vals):
        if st.poly.feasible([scale(den, -1)]):
            raise Bad("the denominator of coordinate %d may be zero or negative" % i)
        n1, n2, _ = quotient_of(it, st, num)
        d1, d2, _ = quotient_of(it, st, den)
        # num/den = (n1/n2)/(d1/d2) must be row[i]/w
        lhs = mul(mul(n1, d2), w)
        rhs = mul(mul(n2, d1), row[i])
        if const(den) == 1 and const(n2) is None:
            # whole number: the last entry divided by the same divisor must be +-1
            for key, (q, r) in st.divs.items():
                if len(key) == 3 and it.eq(st, dict(key[1]), n2) and const(q) is None and any(it.eq(st, q, P(t)) for t in (1, -1)):
                    t = 1 if it.eq(st, q, P(1)) else -1
                    for u in (1, -1):
                        if it.eq(st, dict(key[0]), scale(w, u)):
                            lhs, rhs = scale(n1, u * t), row[i]
        if not it.eq(st, lhs, rhs):
            raise Bad("coordinate %d is written as (%s)/(%s) : (%s)/(%s) instead of %s/%s" % (i, show(n1), show(n2), show(d1), show(d2), show(row[i]), show(w)))
        # lowest terms: both were divided by their greatest common divisor
        if const(den) != 1 or const(n2) is None:
            d = n2
            if const(den) != 1 and not it.eq(st, n2, d2):
                raise Bad("numerator and denominator of coordinate %d are divided by different values" % i)
            need = [row[i], w]
            if const(d) == 1:
                if not it.lowest(st, need):
                    raise Bad("coordinate %d is not written in lowest terms" % i)
            elif not it.divides(st, d, need):
                raise Bad("coordinate %d is divided by something that is not a common divisor" % i)


@vp.guard()
def job(j):
    path, fn, ty, n, named = j
    if path not in _it:
        _it[path] = Program(path)
    size = TYPES[ty][1]
    bits = 8 * size
    lim = min(LIM, (1 << (bits - 1)) - 1)
    it = Text(_it[path], max_states=3000, max_steps=40000, gcd=True)
    st = State()
    rows = []
    nrows = n[1] if isinstance(n, tuple) else 1
    n = n[0] if isinstance(n, tuple) else n
    for r in range(nrows):
        rows.append([st.poly.new("r%d_%d" % (r, i), -lim, lim) for i in range(n)])
    mat = fn in ("mat", "rawmat")
    data = it.vecs(st, rows, lambda s, r, a: it.vec(s, r, a, elsize=size)) if mat else it.vec(st, rows[0], elsize=size)
    names = ("p", st.alloc(24, name="names"), P(0))
    k = n - 1 if named else 0
    b = st.alloc(32 * k, name="strings") if k else None
    for i in range(k):
        it.put_string(st, ("p", b, P(32 * i)), tuple(map(ord, NAMES[i])))
    for off, e in ((0, 0), (8, 32 * k), (16, 32 * k)):
        st.mem[names[1]].cells[off] = (8, ("p", b, P(e)) if b else ("p", None, P(0)))
    out = it.mk_stream(st)
    rel = it.c_string(st, tuple(map(ord, "<=")))
    args = {"pretty": [out, data, names, rel], "line": [out, data, names, rel], "frac": [out, data], "raw": [out, data], "mat": [out, data, names, rel], "rawmat": [out, data]}[fn]
    init = [st]
    if fn == "frac":
        init = []
        for cs in ([addc(rows[0][-1], -1)], [addc(scale(rows[0][-1], -1), -1)]):
            s = st.copy()
            for c in cs:
                s.poly.assume(c)
            init.append(s)
    found, und, cnt = vp.PARTIAL, [], 0
    what = {"pretty": "prettyPrint(row", "line": "prettyPrintln(row", "frac": "printFractional(vertex", "raw": "operator<<(row", "mat": "prettyPrint(matrix", "rawmat": "operator<<(matrix"}[fn] + " of %s)" % TYPES[ty][0]
    if fn in ("pretty", "line", "mat"):
        what += " with names" if named else " without names"
    for s0 in init:
        for r in it.call_fn(s0, "vp_%s_%s" % (fn, ty), args):
            if r[0] == "unknown":
                und.append("%s: %s" % (what, r[2]))
                continue
            s = r[1]
            if not s.poly.feasible():
                continue
            cnt += 1
            if r[0] != "ret":
                found.append("%s ends with %s although all entries fit" % (what, r[0]))
                continue
            items = s.notes["s:" + out[1]]["out"]
            try:
                toks = lex(it, s, items)
                lines, cur = [], []
                for t in toks:
                    if t[0] == "nl":
                        lines.append(cur)
                        cur = []
                    else:
                        cur.append(t)
                exp = {"pretty": 0, "frac": 0, "raw": 0, "line": 1, "mat": nrows, "rawmat": nrows}[fn]
                if len(lines) != exp:
                    raise Bad("%d line breaks are written instead of %d" % (len(lines), exp))
                if exp and cur:
                    raise Bad("text follows the line break")
                if not exp:
                    lines = [cur]
                for line, row in zip(lines, rows):
                    if fn == "frac":
                        judge_frac(it, s, line, row)
                    elif fn in ("raw", "rawmat") or not named:
                        judge_raw(it, s, line, row)
                    else:
                        judge_names(it, s, line, row, "<=")
            except Bad as e:
                found.append("%s: %s; text: %s" % (what, e, show_items(items).replace("\n", "\\n")))
            except Unknown as e:
                und.append("%s: %s" % (what, e))
    return found, und, cnt


def check(c):
    path = prog(H, "print", ["algorithm_row_operations.cpp", "algorithm_matrix_operations.cpp", "algorithm_inequality_operations.cpp", "algorithm_integer_operations.cpp", "cast.cpp"])
    jobs = []
    for ty in TYPES:
        big = vp.THOROUGH or ty == "int"
        for n in (1, 2, 3, 4) if big else (1, 2, 3):
            if n > 1:
                jobs.append((path, "pretty", ty, n, True))
            jobs.append((path, "pretty", ty, n, False))
        for n in (1, 3):
            jobs += [(path, "line", ty, n + 1, True), (path, "line", ty, n, False), (path, "raw", ty, n, False)]
        for n in (2, 3) if vp.THOROUGH or ty != "i64" else (2,):
            jobs.append((path, "frac", ty, n, False))
        for nm in (True, False):
            for sh in ((2, 0), (2, 1), (2, 2)):
                jobs.append((path, "mat", ty, sh, nm))
        jobs += [(path, "rawmat", ty, sh, False) for sh in ((2, 0), (2, 2))]
    n = 0
    seen = set()
    with ProcessPoolExecutor(8) as ex:
        for found, und, k in ex.map(job, jobs):
            n += k
            for what in found:
                key = what.split("; text")[0]
                if key not in seen:
                    seen.add(key)
                    c.violation(key[:100], "src/algorithm_row_operations.cpp", what)
            for u in und:
                if u not in c.undecided:
                    c.undecided.append(u)
    c.coverage.update(functions=6, types=len(TYPES), cases=len(jobs), paths=n, undecided_paths=len(c.undecided),
                      rule="the text written on each path is read back as a linear expression / list of numbers / fractions and must equal the row symbolically")
    c.assumptions += ["entries of magnitude below 2^30 (what the output format supports is int)", "stream in default format, no write errors", "rows of at most 4 entries, matrices of at most 2 rows"]
    if n == 0:
        raise vp.Broken("%d paths decided: %s" % (n, c.undecided[:3]))


if __name__ == "__main__":
    vp.main("C12", "abstract interpretation with a text model, reading back the written tokens", check)
