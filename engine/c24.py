"""C24: the double description driver prints exactly what it computed, under the right headings."""
import sys
import vp
from absint import Program, State, Unknown, I, P, const
from poly import add, addc, scale
from algebra import prog
from text import Text, show_items

H = r'''
#include <exception>
#include <iostream>
#include <stdexcept>
#include "algorithm_classes.h"
#include "algorithm_row_operations.h"
#include "input.h"
#include "maps.h"
#include "method_double_description.h"
#include "names.h"
using namespace panda;
int thrown = 0;
namespace
{
   int n_equations = 0, n_maps = 0, n_rows = 0, failure = 0;
   int lasts[4];
   int id(const Matrix<int>& m) { return m.empty() ? 9 : m[0][0]; }
   void fail(int where) { if ( failure == where ) { thrown = 1; throw std::invalid_argument("x"); } }
}
extern "C" {
std::tuple<Matrix<int>, Names, Maps, Matrix<int>> vp_in_v(int, char**)
{
   fail(1);
   Maps maps;
   for ( int i = 0; i < n_maps; ++i ) maps.push_back(Map{Image{Term{0, 3 + i}}});
   return std::make_tuple(Matrix<int>{Row<int>{4, 4}}, Names{"a", "b"}, maps, Matrix<int>());
}
std::tuple<Matrix<int>, Names, Maps, Matrix<int>> vp_in_i(int, char**)
{
   fail(1);
   Maps maps;
   for ( int i = 0; i < n_maps; ++i ) maps.push_back(Map{Image{Term{0, 3 + i}}});
   return std::make_tuple(Matrix<int>{Row<int>{5, 5}}, Names{"a", "b"}, maps, Matrix<int>());
}
Matrix<int> vp_eq(const Matrix<int>& m)
{
   fail(2);
   Matrix<int> r;
   for ( int i = 0; i < n_equations; ++i ) r.push_back(Row<int>{id(m) * 1000000 + i, 1, 1});
   return r;
}
Maps vp_norm(const Maps& maps, const Matrix<int>& e)
{
   fail(3);
   Maps r;
   for ( const auto& map : maps ) r.push_back(Map{Image{Term{0, map[0][0].second + 10 * static_cast<int>(e.size())}}});
   return r;
}
Matrix<int> vp_fme(const Matrix<int>& m)
{
   fail(4);
   Matrix<int> r;
   for ( int i = 0; i < n_rows; ++i ) r.push_back(Row<int>{id(m) * 100000 + i, 1, lasts[i]});
   return r;
}
void vp_triv(Matrix<int>& m) { fail(5); for ( auto& r : m ) r[0] += 10000; }
Matrix<int> vp_cf(const Matrix<int>& m, const Maps& maps)
{
   fail(6);
   Matrix<int> r;
   for ( const auto& row : m ) { r.push_back(row); r.back()[0] += 1000 + (maps.empty() ? 0 : 10 * maps[0][0][0].second); }
   return r;
}
Matrix<int> vp_cv(const Matrix<int>& m, const Maps& maps)
{
   fail(6);
   Matrix<int> r;
   for ( const auto& row : m ) { r.push_back(row); r.back()[0] += 2000 + (maps.empty() ? 0 : 10 * maps[0][0][0].second); }
   return r;
}
std::ostream& vp_row(std::ostream& o, const Row<int>& r) { o << "<raw " << static_cast<int>(r.size()) << ' ' << r[0] << '>'; return o; }
void vp_pp(std::ostream& o, const Row<int>& r, const Names& n, const char* rel) { o << "<row " << r[0] << rel << static_cast<int>(n.size()) << '>'; }
void vp_ppl(std::ostream& o, const Row<int>& r, const Names& n, const char* rel) { o << "<row " << r[0] << rel << static_cast<int>(n.size()) << ">\n"; }
void vp_frac(std::ostream& o, const Row<int>& r) { o << "<vertex " << static_cast<int>(r.size()) << ' ' << r[0] << '>'; }
void vp_set(int e, int m, int r, int f, int a, int b, int c) { thrown = 0; n_equations = e; n_maps = m; n_rows = r; failure = f; lasts[0] = a; lasts[1] = b; lasts[2] = c; }
int vp_facets(int e, int m, int r, int f, int a, int b, int c)
{
   vp_set(e, m, r, f, a, b, c);
   char name[] = {'p', '\0'};
   char* argv[] = {name, nullptr};
   const int status = method::doubleDescription<OperationMode::FacetEnumeration>(1, argv);
   return thrown ? 1000 + status : status;
}
int vp_vertices(int e, int m, int r, int f, int a, int b, int c)
{
   vp_set(e, m, r, f, a, b, c);
   char name[] = {'p', '\0'};
   char* argv[] = {name, nullptr};
   const int status = method::doubleDescription<OperationMode::VertexEnumeration>(1, argv);
   return thrown ? 1000 + status : status;
}
}
'''
ALG = r"panda::algorithm::"
REDIRECT = [
    (r"panda::input::vertices<int>\(", "vp_in_v"), (r"panda::input::inequalities<int>\(", "vp_in_i"), (ALG + r"extractEquations<int>\((?!.*&)", "vp_eq"), (ALG + r"normalize<int>\(std::vector<std::vector<std::vector<std::pair", "vp_norm"),
    (ALG + r"fourierMotzkinElimination(Heuristic)?<int>\(", "vp_fme"), (ALG + r"removeTrivialInequality<int>\(", "vp_triv"), (ALG + r"classes<int, panda::tag::facet>\(", "vp_cf"), (ALG + r"classes<int, panda::tag::vertex>\(", "vp_cv"),
    (ALG + r"prettyPrint<int>\(std::\S*ostream\S*( std::char_traits<char> ?>)?&, std::vector<int,", "vp_pp"), (ALG + r"prettyPrintln<int>\(", "vp_ppl"), (ALG + r"printFractional<int>\(", "vp_frac"),
    (r"std::\S*ostream\S*( std::char_traits<char> ?>)?& operator<<\s?<int>\(.*, std::vector<int, std::allocator<int> ?> const&\)", "vp_row"),
]
FILES = ["method_double_description.cpp", "integer_type_detection.cpp", "algorithm_matrix_operations.cpp"]
STUBS = [r"panda::input::(vertices|inequalities)<", ALG + r"(extractEquations|normalize|fourierMotzkinElimination|fourierMotzkinEliminationHeuristic|removeTrivialInequality|classes|prettyPrintln|printFractional|gcd|lcm)<"]


def load():
    import re
    p = Program(prog(H, "ddm", FILES, stubs=(r".",)))
    for f in list(p.fn.values()):
        for b in f["blocks"]:
            for ins in b["insts"]:
                dem, name = ins.get("cdem"), ins.get("cname")
                if not dem or not name or name.startswith("vp_"):
                    continue
                for rx, to in REDIRECT:
                    if re.match("(.* )?" + rx, dem):
                        p.fn[name] = p.fn[to]
                        break
    return p


def text(st, out):
    r = ""
    for x in out:
        if isinstance(x, int):
            r += chr(x)
        elif isinstance(x, tuple) and x[0] in ("n", "u") and len(x) > 1 and isinstance(x[1], dict):
            k = const(x[1])
            if k is None:
                raise Unknown("a number is not determined")
            r += str(k)
        elif isinstance(x, tuple) and x[0] == "flush":
            pass
        else:
            raise Unknown("output not determined: %r" % (x,))
    return r


def expected(fn, e, m, r, zero):
    """text of a run whose input is given by the numbers of equations, maps and rows; zero: which rows end in 0"""
    red = "Reduced " if m else ""
    if fn == "facets":
        t = ""
        if e:
            t = "Equations:\n" + "".join("<row %d=2>\n" % (4000000 + i) for i in range(e)) + "\n"
        return t + red + "Inequalities:\n" + "".join("<row %d<=2>\n" % (411000 + i + (10 * (3 + 10 * e) if m else 0)) for i in range(r))
    t = ""
    conv, cone = [i for i in range(r) if not zero[i]], [i for i in range(r) if zero[i]]
    k = 502000 + (30 if m else 0)
    if conv:
        t += red + "Vertices:\n" + "".join("<vertex 3 %d>\n" % (k + i) for i in conv)
    if cone:
        t += red + "Rays:\n" + "".join("<raw 2 %d>\n" % (k + i) for i in cone)
    return t


def run(p, fn, e, m, r, failure=0):
    it = Text(p, {}, max_states=3000)
    it.exact = True
    st = State()
    lasts = [st.poly.new("l%d" % i, 0, 9) for i in range(3)]
    what = "%s, %d equations, %d maps, %d rows" % (fn, e, m, r) + (", failure in step %d" % failure if failure else "")
    found, und, cnt = [], [], 0
    for x in it.call_fn(st, "vp_" + fn, [I(32, P(v)) for v in (e, m, r, failure)] + [I(32, f) for f in lasts]):
        if x[0] == "unknown":
            und.append("%s: %s" % (what, x[2]))
            continue
        s = x[1]
        if not s.poly.feasible():
            continue
        cnt += 1
        if x[0] != "ret":
            found.append("%s: ends with %s" % (what, x[0]))
            continue
        rc = const(x[2][2])
        if failure:
            if rc is None:
                und.append(what + ": status not determined")
            elif rc == 1000:
                found.append("%s: the exception leads to exit status 0" % what)
            continue
        try:
            got = text(s, s.notes.get("s:@_ZSt4cout", dict(out=()))["out"])
        except Unknown as u:
            und.append("%s: %s" % (what, u))
            continue
        if rc != 0:
            found.append("%s: exit status %s" % (what, rc))
        for mask in range(1 << r) if fn == "vertices" else (0,):
            zero = [mask >> i & 1 for i in range(r)]
            extra = [scale(lasts[i], -1) if z else addc(lasts[i], -1) for i, z in enumerate(zero)] if fn == "vertices" else []
            want = expected(fn, e, m, r, zero)
            if got != want and s.poly.feasible(*[extra]):
                found.append("%s: prints %r instead of %r" % (what, got, want))
                break
    return list(dict.fromkeys(found)), und, cnt


CASES = [("facets", e, m, r) for e in (0, 1, 2) for m in (0, 1) for r in (0, 1, 2)] + [("vertices", 0, m, r) for m in (0, 1) for r in (0, 1, 2, 3)]
CASES += [(fn, 1, 1, 1, k + d) for fn in ("facets", "vertices") for k in ((1, 2, 3, 4, 5, 6) if fn == "facets" else (1, 4, 6)) for d in (0,)]


def check(c):
    p = load()
    n = 0
    for case in CASES:
        found, und, k = run(p, *case)
        n += k
        for w in found:
            c.violation(w[:150], "src/method_double_description.cpp", w)
        c.undecided += und
    c.coverage.update(cases=len(CASES), paths=n, undecided_paths=len(c.undecided), rule="with input, elimination and class reduction as opaque steps, on every path through the driver: exactly the rows that come out of the last step, in order, under the heading of their kind (Reduced exactly with maps), the equations first and only if there are any, exit status 0; after an exception of any step an exit status other than 0")
    c.assumptions += ["the steps are the ones of the other properties (C17, C20, C21, C22); up to 2 equations, 1 map and 3 rows; integer type int"]
    if n == 0:
        raise vp.Broken("nothing decided: %s" % c.undecided[:3])


if __name__ == "__main__":
    if len(sys.argv) > 1:
        p = load()
        for case in CASES:
            print(case, run(p, *case))
    else:
        vp.main("C24", "abstract interpretation over printed text and opaque steps", check)
