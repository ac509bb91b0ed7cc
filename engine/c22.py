"""C22: an input file is assembled into the rows, names, maps and known rows it describes."""
import re, sys, time
from concurrent.futures import ProcessPoolExecutor
import vp
from absint import Program, State, Unknown, I, P, const
from poly import add, addc, scale, show
from algebra import prog
from c20 import member, orbit
from cone import signs
from reading import Reader
from text import Text

H = r'''
#include <exception>
#include "input.h"
#include "names.h"
using namespace panda;
namespace
{
   void put(const Matrix<int>& m, int*& out)
   {
      *out++ = static_cast<int>(m.size());
      for ( const auto& row : m )
      {
         *out++ = static_cast<int>(row.size());
         for ( const auto v : row )
         {
            *out++ = v;
         }
      }
   }
   template <typename Data>
   int all(const Data& data, int* out)
   {
      put(std::get<0>(data), out);
      put(std::get<3>(data), out);
      *out++ = static_cast<int>(std::get<1>(data).size());
      for ( const auto& name : std::get<1>(data) )
      {
         *out++ = static_cast<int>(name.size());
         for ( const auto c : name )
         {
            *out++ = c;
         }
      }
      *out++ = static_cast<int>(std::get<2>(data).size());
      for ( const auto& map : std::get<2>(data) )
      {
         *out++ = static_cast<int>(map.size());
         for ( const auto& image : map )
         {
            *out++ = static_cast<int>(image.size());
            for ( const auto& term : image )
            {
               *out++ = static_cast<int>(term.first);
               *out++ = static_cast<int>(term.second);
            }
         }
      }
      return 0;
   }
}
extern "C" {
int vp_outer(int argc, char** argv, int* out)
{
   try { return all(input::inequalities<int>(argc, argv), out); }
   catch ( const std::exception& ) { return 1; }
}
int vp_inner(int argc, char** argv, int* out)
{
   try { return all(input::vertices<int>(argc, argv), out); }
   catch ( const std::exception& ) { return 1; }
}
}
'''
FILES = ["input.cpp", "input_consistency.cpp", "input_validity.cpp", "input_detection.cpp", "input_constraint.cpp", "input_constraint_named_variables.cpp", "input_constraint_unnamed_variables.cpp",
         "input_vertex.cpp", "input_map.cpp", "input_names.cpp", "input_dimension.cpp", "input_common.cpp", "input_keywords.cpp", "istream_peek_line.cpp", "algorithm_integer_operations.cpp",
         "algorithm_row_operations.cpp", "algorithm_matrix_operations.cpp", "algorithm_map_operations.cpp", "algorithm_classes.cpp", "algorithm_inequality_operations.cpp"]
_it = {}


class Files(Reader):
    files = {}

    def content(self, st, name):
        if all(isinstance(x, int) for x in name):
            return self.files.get("".join(map(chr, name)))
        raise Unknown("file name")

    def h_gcd(self, i, st, ins, a, dem):
        return Reader.h_gcd(self, i, st, ins, a, dem)


def program():
    return prog(H, "assembly", FILES, stubs=())


def row(text, env):
    r = []
    for w in text.split():
        m = re.match(r"^(-?)(\d*)([a-z]?)$", w)
        f = P(int(m.group(2) or 1))
        if m.group(3):
            f = scale(env[m.group(3)], int(m.group(2) or 1))
        r.append(scale(f, -1) if m.group(1) else f)
    return r


@vp.guard()
def job(j):
    path, fn, args, files, want = j
    if path not in _it:
        _it[path] = Program(path)
    it = Files(_it[path], max_states=20000, max_steps=4000000)
    it.check_ub = True
    st = State()
    env, syms = {}, []
    it.files = {}
    for name, text in files.items():
        items = []
        for w in re.findall(r"\$[a-z]|[^$]", text, re.S):
            if w[0] == "$":
                c = st.poly.new("d" + w[1], 48, 57)
                syms += [s for m in c for s in m]
                env[w[1]] = addc(c, -48)
                items.append(c)
            else:
                items.append(ord(w))
        it.files[name] = tuple(items)
    argv = ["panda"] + args
    n = len(argv)
    av = st.alloc(8 * (n + 1), name="argv")
    for k, x in enumerate(argv):
        st.mem[av].cells[8 * k] = (8, it.c_string(st, tuple(map(ord, x)), "argument %d" % k))
    st.mem[av].cells[8 * n] = (8, ("p", None, P(0)))
    ob = st.alloc(4 * 400, name="out")
    it.out = ob
    what = "%s description, arguments [%s], %s" % (fn[3:], " ".join(args), ", ".join("file %s '%s'" % (k, v.replace("\n", "\\n")) for k, v in files.items()))
    found, und, cnt = vp.PARTIAL, [], 0

    def values(s):
        return ", ".join("%s = %s" % (k, show_value(s, f)) for k, f in env.items())

    for r in it.call_fn(st, fn, [I(32, P(n)), ("p", av, P(0)), ("p", ob, P(0))]):
        if r[0] == "unknown":
            und.append("%s: %s" % (what, r[2]))
            continue
        s = r[1]
        if not s.poly.feasible():
            continue
        try:
            if r[0] != "ret":
                found.append("%s: ends with %s (%s)" % (what, r[0], values(s)))
                continue
            code = const(it.asint(s, r[2], 32)[2])
            cnt += 1
            if want is None or code:
                if want is None and code == 0:
                    found.append("%s: accepted, although it must be refused (%s)" % (what, values(s)))
                elif want is not None:
                    found.append("%s: refused (%s)" % (what, values(s)))
                continue
            vals, k = [], 0
            while 4 * k in s.mem[ob].cells:
                vals.append(it.asint(s, s.mem[ob].cells[4 * k][1], 32)[2])
                k += 1
            for s2, w in judge(it, s, fn, vals, want, env):
                if s2.poly.feasible():
                    found.append("%s: %s (%s)" % (what, w, values(s2)))
        except Unknown as e:
            und.append("%s: %s" % (what, e))
    for kind, where, s in it.ub:
        if s.poly.feasible():
            found.append("%s: %s (%s) (%s)" % (what, kind, where, values(s)))
    return list(dict.fromkeys(found)), und, cnt


def show_value(s, f):
    lo, hi = s.poly.range(f)
    return "%d" % lo if lo == hi else "%d to %d" % (lo, hi)


def unpack(vals):
    p = [0]

    def nxt():
        p[0] += 1
        return vals[p[0] - 1]

    def num():
        k = const(nxt())
        if k is None:
            raise Unknown("length")
        return k
    m = [[[nxt() for _ in range(num())] for _ in range(num())] for _ in range(2)]
    names = ["".join(chr(num()) for _ in range(num())) for _ in range(num())]
    maps = [[[(num(), num()) for _ in range(num())] for _ in range(num())] for _ in range(num())]
    return m[0], m[1], names, maps


def text(r):
    return "[%s]" % " ".join(map(show, r))


def pairing(it, st, got, want, once):
    """yields (state, complaint): the same rows, as often"""
    todo = [(st, list(want))]
    hit = []
    for g in got:
        nxt = []
        for s, left in todo:
            for s2, k in member(it, s, g, left):
                if k is None:
                    yield s2, "the row %s is returned" % text(g)
                else:
                    nxt.append((s2, left[:k] + left[k + 1:] if once else left))
        todo = nxt
    if once:
        for s, left in todo:
            if left:
                yield s, "the row %s is missing" % text(left[0])
        return
    for w in want:
        nxt = []
        for s, left in todo:
            for s2, k in member(it, s, w, got):
                if k is None:
                    yield s2, "the row %s is missing" % text(w)
                else:
                    nxt.append((s2, left))
        todo = nxt


def less(it, st, a, b, order):
    """-> [(state, may a stand before b?)]"""
    out = []
    todo = [st]
    if order.startswith("nz"):
        todo = []
        for s, sg in signs(it, st, a + b):
            d = sum(map(bool, sg[:len(a)])) - sum(map(bool, sg[len(a):]))
            if d:
                out.append((s, (d < 0) == (order == "nz_asc")))
            else:
                todo.append(s)
    for x, y in zip(a, b):
        rest = []
        for s in todo:
            for s2, sg in signs(it, s, [add(x, y, -1)]):
                if sg[0]:
                    out.append((s2, (sg[0] < 0) != (order == "lex_desc")))
                else:
                    rest.append(s2)
        todo = rest
    return out + [(s, True) for s in todo]


def sequence(it, st, got, want, order, what):
    """yields (state, complaint)"""
    if order in ("", "rev"):
        want = want[::-1] if order else want
        for k, (g, w) in enumerate(zip(got, want)):
            for x, y in zip(g, w):
                for s, sg in signs(it, st, [add(x, y, -1)]):
                    if sg[0]:
                        yield s, "the order of the rows is not as asked for: row %d of the %s is %s instead of %s" % (k, what, text(g), text(w))
        return
    for a, b in zip(got, got[1:]):
        for s, ok in less(it, st, a, b, order):
            if not ok:
                yield s, "the order of the rows is not as asked for: %s precedes %s" % (text(a), text(b))


def judge(it, st, fn, vals, want, env):
    rows, known, names, maps = unpack(vals)
    for key, got in (("names", names), ("maps", maps)):
        w = [[[(t[0], t[1]) for t in im] for im in m] for m in want.get("maps", [])] if key == "maps" else want.get("names", "").split()
        if got != w:
            yield st, "%s %s instead of %s" % (key, got, w)
    wk = [row(x, env) for x in want.get("known", [])]
    yield from pairing(it, st, known, wk, True)
    groups = [[row(x, env) for x in want.get(k, [])] for k in ("rays", "rows")]
    both = groups[0] + groups[1]
    trivial = []
    if fn == "vp_outer":
        trivial = [[P(0)] * (len(both[0]) - 1) + [P(-1)]]
    if "orbit" in want:
        facet = fn == "vp_outer"
        ms = [[[(i, P(f)) for i, f in im] for im in m] for m in want["maps"]]
        todo = [(st, [])]
        for r in both:
            todo = [(s2, seen + o) for s, seen in todo for s2, o in orbit(it, s, r, ms, facet)]
        extra = [row(x, env) for x in want["orbit"]]
        for s, seen in todo:
            yield from pairing(it, s, rows, seen + extra + trivial, False)
        return
    bad = False
    for s, w in pairing(it, st, rows, both + trivial, True):
        bad = bad or s.poly.feasible()
        yield s, w
    if bad:
        return
    order = want.get("order", "")
    if order in ("", "rev") and any("Equations" in t for t in it.files.values() for t in ["".join(chr(x) if isinstance(x, int) else "0" for x in t)]):
        return      # the places of the two rows of an equation are not fixed
    if fn == "vp_outer":
        # the trivial inequality may stand anywhere
        rest = [g for g in rows if not all(it.iszero(st, add(x, y, -1)) for x, y in zip(g, trivial[0]))]
        if len(rest) + 1 == len(rows):
            yield from sequence(it, st, rest, groups[1], order, "inequalities")
    else:
        n = len(groups[0])
        parts = [rows[:n], rows[n:]] if not groups[0] or all(it.iszero(st, g[-1]) for g in rows[:n]) else [[g for g in rows if it.iszero(st, g[-1])], [g for g in rows if not it.iszero(st, g[-1])]]
        for g, w, x in zip(parts, groups, ("rays", "vertices")):
            yield from sequence(it, st, g, w, order, x)


SW = [[(1, 1)], [(0, 1)], [(2, 1)]]
IE, EQ, NM, DM, MP = "Inequalities:\n", "Equations:\n", "Names:\nx y\n", "Dimension:\n2\n", "Maps:\ny x\n"
RI = "Reduced Inequalities:\n"
CH, RY, RC, RR = "Vertices:\n", "Rays:\n", "Reduced Vertices:\n", "Reduced Rays:\n"
D2 = "DIM=2\n"
XY = dict(names="x y")


def D(*a, **k):
    r = {}
    for x in a:
        r.update(x)
    r.update(k)
    return r


def outer(text, want, *args, **files):
    return ("vp_outer", ["in"] + list(args), dict(D({"in": text}, files)), want)


def inner(text, want, *args, **files):
    return ("vp_inner", ["in"] + list(args), dict(D({"in": text}, files)), want)


CASES = [
    outer(IE + "$a -1 <= $b\n1 $c <= 2\n", dict(rows=["a -1 -b", "1 c -2"])),
    outer(D2 + IE + "$a $b >= 1\n\n", dict(rows=["-a -b 1"])),
    outer(EQ + "$a 1 = $b\n" + IE + "$c 1 <= 0\n", dict(rows=["c 1 0", "a 1 -b", "-a -1 b"])),
    outer(IE + "$c 1 <= 0\n\n" + EQ + "$a 1 = $b\n2 $d = 3\n", dict(rows=["c 1 0", "a 1 -b", "-a -1 b", "2 d -3", "-2 -d 3"])),
    outer(NM + IE + "$ax - y <= $b\ny <= 1\n", D(XY, rows=["a -1 -b", "0 1 -1"])),
    outer(NM + EQ + "$ax = 1\n" + IE + "y >= -$b\nEND\n1 2 3\n", D(XY, rows=["0 -1 -b", "a 0 -1", "-a 0 1"])),
    outer(NM + MP + IE + "x + $ay <= $b\n", D(XY, maps=[SW], rows=["1 a -b"])),
    outer(NM + MP + RI + "$ax <= 1\n", D(XY, maps=[SW], rows=["a 0 -1"], orbit=[])),
    outer(NM + MP + EQ + "x + y = 2\n" + RI + "$ay <= 1\n", D(XY, maps=[SW], rows=[], orbit=["1 1 -2", "-1 -1 2", "0 a -1", "0 -a 2a"])) if False else None,
    outer("garbage\n" + DM + IE + "$a 2 <= 1\nEnd\n", dict(rows=["a 2 -1"])),
    outer(IE + "1 $a <= 2\n", dict(rows=["1 a -2"], known=["b 0 1", "1 c 0"]), "-k", "known", known=CH + "$b 0\n" + RY + "1 $c\n"),
    outer(IE + "1 $a <= 2\n", dict(rows=["1 a -2"], known=["1 2b 2"]), "--known-data=known", known="Vertices\n1/2 $b\n"),
    outer(IE + "$a 1 <= 2\n3 1 <= $b\n", dict(rows=["a 1 -2", "3 1 -b"], order="lex_asc"), "--sorting=lex_asc"),
    outer(IE + "$a 1 <= 2\n3 $b <= 5\n2 7 <= 1\n", dict(rows=["a 1 -2", "3 b -5", "2 7 -1"], order="lex_desc"), "-s", "lex_desc"),
    outer(IE + "$a 0 <= 2\n3 $b <= 0\n2 7 <= 1\n", dict(rows=["a 0 -2", "3 b 0", "2 7 -1"], order="nz_asc"), "-s", "nz_asc"),
    outer(IE + "$a 0 <= 2\n3 $b <= 0\n2 7 <= 1\n", dict(rows=["a 0 -2", "3 b 0", "2 7 -1"], order="nz_desc"), "-s", "nz_desc"),
    outer(IE + "$a 0 <= 2\n3 $b <= 0\n2 7 <= 1\n", dict(rows=["a 0 -2", "3 b 0", "2 7 -1"], order="rev"), "-s", "rev"),
    outer(EQ + "$a 1 = 4\n" + IE + "3 $b <= 0\n2 7 <= 1\n", dict(rows=["3 b 0", "2 7 -1", "a 1 -4", "-a -1 4"], order="lex_asc"), "-s", "lex_asc"),
    outer(IE + "$a 1 <= 2\n", None, "-k", "nofile"),
    outer(IE + "-1 0 0 <= 0\n1 0 0 <= $a\n0 -1 0 <= 0\n0 1 0 <= 1\n0 0 -1 <= 0\n0 $b 1 <= 2\n\n" + EQ + "1 1 0 = $c\n0 0 1 = 1\n0 1 2 = 1\n", dict(rows=["-1 0 0 0", "1 0 0 -a", "0 -1 0 0", "0 1 0 -1", "0 0 -1 0", "0 b 1 -2", "1 1 0 -c", "-1 -1 0 c", "0 0 1 -1", "0 0 -1 1", "0 1 2 -1", "0 -1 -2 1"])),
    outer(EQ + "1 1 0 = $c\n0 0 1 = 1\n" + "\n" + IE + "-1 0 0 <= 0\n1 0 0 <= $a\n0 -1 0 <= 0\n0 1 0 <= 1\n0 0 -1 <= 0\n0 $b 1 <= 2\n", dict(rows=["-1 0 0 0", "1 0 0 -a", "0 -1 0 0", "0 1 0 -1", "0 0 -1 0", "0 b 1 -2", "1 1 0 -c", "-1 -1 0 c", "0 0 1 -1", "0 0 -1 1"])),
    inner(CH + "0 0 0\n1 0 0\n0 1 $a\n1 1 0\n0 0 1\n0 $b 1\n2 2 3\n" + RY + "0 0 1\n1 0 $c\n1 1 1\n2 1 5\n3 1 1\n", dict(rays=["0 0 1 0", "1 0 c 0", "1 1 1 0", "2 1 5 0", "3 1 1 0"], rows=["0 0 0 1", "1 0 0 1", "0 1 a 1", "1 1 0 1", "0 0 1 1", "0 b 1 1", "2 2 3 1"])),
    outer("1 $a <= 2\n", None), outer("", None), outer(EQ + "$a 1 = 2\n", None), outer(NM + "\n" + EQ, None),
    outer(IE + "$a 1 <= 2\n1 2 3 <= $b\n", None), outer("DIM=3\n" + IE + "$a 1 <= 2\n", None), outer(IE + "$a 1 <= 2\n\nDIM=1\n", None), outer("DIM=1\n" + IE + "$a 1 <= 2\n", None),
    outer(EQ + "1 2 $a = 4\n" + IE + "1 $b <= 2\n", None), outer(EQ + "1 $a = 4\n1 2 3 = 4\n" + IE + "1 $b <= 2\n", None), outer("Names:\nx y z\n" + IE + "x + $ay <= $b\n", D(names="x y z", rows=["1 a 0 -b"])),
    outer("Names:\nx y z\n\n" + IE.replace(":", "") + "$a 1 <= 2\n", None), outer(IE + "$a 1 <= 2\n\nNames:\nx y z\n", None), outer(NM + MP + RI.replace("Reduced ", "") + "$ax <= $b\n", D(XY, maps=[SW], rows=["a 0 -b"])),
    outer(RI + "$a 1 <= 2\n", None), outer(NM + RI + "$ax <= 2\n\n" + MP, None),
    outer(IE + "1 $a <= 2\n", None, "-k", "known", known=CH + "$b 0 1\n"), outer(IE + "1 $a <= 2\n", None, "-k", "known", known=CH + "$b 0\n" + RY + "1 1 $c\n"), outer(IE + "1 $a <= 2\n", None, "-k"),
    inner(CH + "$a 1\n$b $c\n", dict(rows=["a 1 1", "b c 1"])), inner(CH + "$a 1\n" + RY + "1 $b\n", dict(rays=["1 b 0"], rows=["a 1 1"])), inner(RY + "$a 1\n" + CH + "0 0\n", dict(rays=["a 1 0"], rows=["0 0 1"])),
    inner(RY + "1 $b\n0 1\n", dict(rays=["1 b 0", "0 1 0"])), inner(D2 + "Vertices:\n$a/2 1\n0 $b/3\n", dict(rows=["a 2 2", "0 b 3"])),
    inner(NM + CH + "$a 1\n\n" + MP, D(XY, maps=[SW], rows=["a 1 1"])), inner(NM + MP + RC + "$a $b\n", D(XY, maps=[SW], rows=["a b 1"], orbit=[])), inner(NM + MP + RR + "1 $b\n" + RC + "$a 2\n3 4\n", D(XY, maps=[SW], rays=["1 b 0"], rows=["a 2 1", "3 4 1"], orbit=[])),
    inner(NM + MP + CH + "$a 1\n\n" + RR + "1 $b\n", D(XY, maps=[SW], rays=[], rows=["1 b 0"], orbit=["a 1 1"])),
    inner(CH + "$a 1\n$b 2\n", dict(rows=["a 1 1", "b 2 1"], order="lex_asc"), "-s", "lex_asc"), inner(CH + "$a 1\n$b 2\n" + RY + "1 $c\n1 3\n", dict(rays=["1 c 0", "1 3 0"], rows=["a 1 1", "b 2 1"], order="lex_desc"), "-s=lex_desc"),
    inner(CH + "$a 1\n2 $b\n" + RY + "1 $c\n1 3\n", dict(rays=["1 c 0", "1 3 0"], rows=["a 1 1", "2 b 1"], order="nz_asc"), "-s=nz_asc"), inner(CH + "$a 1\n2 $b\n" + RY + "1 $c\n1 3\n", dict(rays=["1 c 0", "1 3 0"], rows=["a 1 1", "2 b 1"], order="nz_desc"), "-s=nz_desc"),
    inner(CH + "$a 1\n2 $b\n0 0\n" + RY + "1 $c\n1 3\n", dict(rays=["1 c 0", "1 3 0"], rows=["a 1 1", "2 b 1", "0 0 1"], order="rev"), "-s=rev"),
    inner(CH + "$a 1\n", dict(rows=["a 1 1"], known=["1 b -2"]), "-k", "known", known=IE + "1 $b <= 2\n"), inner(CH + "$a 1\n", dict(rows=["a 1 1"], known=["-1 -b 2", "c 0 -1"]), "--known-facets=known", known=D2 + IE + "1 $b >= 2\n$c 0 <= 1\n"),
    inner(NM + CH + "$a 1\n", D(XY, rows=["a 1 1"], known=["1 b -2"]), "--known-data=known", known=IE + "x + $by <= 2\n"),
    inner(CH + "$a 1\n", None, "-k", "known", known=IE + "1 $b 1 <= 2\n"), inner(CH + "$a 1\n", None, "-k", "known", known=CH + "1 $b\n"), inner(CH + "$a 1\n", None, "-k=nofile"), inner(CH + "$a 1\n", None, "-k"),
    inner("$a 1\n", None), inner("", None), inner(NM, None), inner(CH + "$a 1\n1 2 $b\n", None), inner(CH + "$a 1\n" + RY + "1 2 $b\n", None), inner(RY + "1 $b\n1 2 3\n", None), inner("DIM=3\n" + CH + "$a 1\n", None), inner(CH + "$a 1\n\nDIM=1\n", None),
    inner("Names:\nx y z\n" + CH + "$a 1\n", None), inner("Names:\nx y z\nMaps:\ny x z\n" + CH + "$a 1\n", None), inner("Maps:\n" + CH + "$a 1\n", None) if False else None, inner(RC + "$a 1\n", None), inner(RR + "$a 1\n", None), inner(NM + RC + "$a 1\n\n" + MP, None),
    ("vp_inner", ["nofile"], {"in": CH + "$a 1\n"}, None), ("vp_outer", ["nofile"], {"in": IE + "$a 1 <= 1\n"}, None), ("vp_outer", [], {}, None),
]
CASES = [x for x in CASES if x]


def check(c):
    path = program()
    n = 0
    with ProcessPoolExecutor(8) as ex:
        for found, und, k in ex.map(job, [(path,) + x for x in sorted(CASES, key=lambda x: -sum(len(t) + 40 * t.count("$") for t in x[2].values()))], chunksize=1):
            n += k
            for what in found:
                c.violation(re.sub(r" \(.*|\[.*?\]", "", what)[:150], "src/input.cpp", what)
            for u in und:
                if u not in c.undecided:
                    c.undecided.append(u)
    c.coverage.update(functions=2, cases=len(CASES), paths=n, undecided_paths=len(c.undecided), rule="on every path, for all values of the unknown digits on it: the rows returned are the inequalities, the equations in both directions and the trivial inequality (the rays and vertices), each as often as written and in the order asked for, with the orbits of the rows of reduced sections; names, maps and known rows are those written; descriptions with inconsistent dimensions, without rows, without keywords or with reduced sections before any maps are refused")
    c.assumptions += ["%d descriptions of one to six rows in two or three dimensions with up to four unknown digits" % len(CASES), "files are given by their content; reading of single lines is the subject of C14 to C16"]
    if n == 0:
        raise vp.Broken("nothing decided: %s" % c.undecided[:3])


if __name__ == "__main__":
    if len(sys.argv) > 1:
        path = program()
        for k, x in enumerate(CASES):
            if sys.argv[1] == "all" or str(k) in sys.argv[1:]:
                t0 = time.time()
                r = job((path,) + x)
                print(k, x[0], repr(x[2].get("in"))[:50], r[2], r[0][:2], [re.sub(".*': ", "", y) for y in r[1]][:2], round(time.time() - t0, 1), flush=True)
    else:
        vp.main("C22", "abstract interpretation over texts and polynomial forms", check)
