"""Harness for reading sections of an input file: runs a reader on a text whose characters may be
ranges of codes and yields, for each path, the rows read (as polynomials in the characters)."""
from math import gcd
import vp
from absint import Program, State, Unknown, I, P, const
from poly import add, addc, scale
from algebra import prog
from text import Text
from words import outcomes, domains

H = r'''
#include <exception>
#include <fstream>
#include <string>
#include "input_constraint.h"
#include "input_dimension.h"
#include "input_map.h"
#include "input_names.h"
#include "input_vertex.h"
#include "names.h"
using namespace panda;
using namespace panda::input::implementation;
namespace
{
   Names two() { return Names{"x", "x1"}; }
   Names owt() { return Names{"x1", "x"}; }
   int put(const Matrix<int>& m, int* out)
   {
      int n = 0;
      out[n++] = static_cast<int>(m.size());
      for ( const auto& row : m )
      {
         out[n++] = static_cast<int>(row.size());
         for ( const auto v : row )
         {
            out[n++] = v;
         }
      }
      return 0;
   }
   int other(Matrix<int> m, int* out)
   {
      for ( auto& row : m )
      {
         if ( row.size() == 3 )
         {
            std::swap(row[0], row[1]);
         }
      }
      return put(m, out);
   }
   int list(const Maps& m, int* out, bool swapped)
   {
      int n = 0;
      out[n++] = static_cast<int>(m.size());
      for ( const auto& map : m )
      {
         out[n++] = static_cast<int>(map.size());
         for ( const auto& image : map )
         {
            out[n++] = static_cast<int>(image.size());
            for ( const auto& term : image )
            {
               out[n++] = static_cast<int>(swapped && term.first < 2 ? 1 - term.first : term.first);
               out[n++] = static_cast<int>(term.second);
            }
         }
      }
      return 0;
   }
}
extern "C" {
int vp_ieq(std::istream& s, int* out)
{
   try { return put(constraints<ConstraintType::Inequality>(s, two()), out); }
   catch ( const std::exception& ) { return 1; }
}
int vp_ieqo(std::istream& s, int* out)
{
   try { return other(constraints<ConstraintType::Inequality>(s, owt()), out); }
   catch ( const std::exception& ) { return 1; }
}
int vp_eq(std::istream& s, int* out)
{
   try { return put(constraints<ConstraintType::Equation>(s, two()), out); }
   catch ( const std::exception& ) { return 1; }
}
int vp_rawieq(std::istream& s, int* out)
{
   try { return put(constraints<ConstraintType::Inequality>(s, Names{}), out); }
   catch ( const std::exception& ) { return 1; }
}
int vp_raweq(std::istream& s, int* out)
{
   try { return put(constraints<ConstraintType::Equation>(s, Names{}), out); }
   catch ( const std::exception& ) { return 1; }
}
int vp_conv(std::istream& s, int* out)
{
   try { return put(verticesConvex(s), out); }
   catch ( const std::exception& ) { return 1; }
}
int vp_cone(std::istream& s, int* out)
{
   try { return put(verticesConical(s), out); }
   catch ( const std::exception& ) { return 1; }
}
int vp_maps(std::istream& s, int* out)
{
   try { return list(maps(s, two()), out, false); }
   catch ( const std::exception& ) { return 1; }
}
int vp_mapso(std::istream& s, int* out)
{
   try { return list(maps(s, owt()), out, true); }
   catch ( const std::exception& ) { return 1; }
}
int vp_names(std::istream& s, std::string* out)
{
   try
   {
      const auto n = names(s);
      for ( std::size_t i = 0; i < n.size() && i < 8; ++i )
      {
         out[i] = n[i];
      }
      return static_cast<int>(n.size());
   }
   catch ( const std::exception& ) { return -1; }
}
int vp_dim(std::istream& s, unsigned long* out)
{
   try { *out = dimension(s); return 0; }
   catch ( const std::exception& ) { return 1; }
}
}
'''
FILES = ["input_constraint.cpp", "input_constraint_named_variables.cpp", "input_constraint_unnamed_variables.cpp", "input_vertex.cpp", "input_map.cpp", "input_names.cpp",
         "input_dimension.cpp", "input_common.cpp", "input_keywords.cpp", "istream_peek_line.cpp", "algorithm_integer_operations.cpp", "row_operations.cpp", "algorithm_row_operations.cpp", "algorithm_rational_operations.cpp"]
CLASS = {"\1": (48, 57), "\2": (33, 126), "\3": (32, 126), "\4": (48, 49)}   # digit, visible, visible or space, digit 0 or 1
_it = {}


class Reader(Text):
    """text, with divisors of few possible values"""

    def values(self, st, v):
        """-> [(state, value)]"""
        out = []
        for s, f in self.norm(st, v, True):
            f = self.fix(s, f)
            lo, hi = s.poly.range(f)
            if hi - lo > 100:
                raise Unknown("denominator of many possible values")
            for k in range(int(lo), int(hi) + 1):
                if s.poly.feasible([addc(f, -k), addc(scale(f, -1), k)]):
                    s2 = s.copy()
                    s2.poly.assume_eq(addc(f, -k))
                    if not s2.poly.empty:
                        out.append((s2, k))
        return out

    def h_gcd(self, i, st, ins, a, dem):
        return [(s2, I(a[0][1], P(gcd(x, y)))) for s, x in self.values(st, a[0]) for s2, y in self.values(s, a[1])]


def program():
    return prog(H, "reading", FILES, stubs=())


def run(path, fn, shape, max_states=60000):
    """-> (interpreter, text, results): results are (state, kind, value of the function, numbers read)"""
    if path not in _it:
        _it[path] = Program(path)
    it = Reader(_it[path], max_states=max_states, max_steps=600000)
    it.check_ub = True
    st = State()
    text = tuple(st.poly.new("c%d" % k, *CLASS[c]) if c in CLASS else ord(c) for k, c in enumerate(shape))
    stream = it.mk_stream(st, text)
    n = 200
    it.out = ob = st.alloc(4 * n, name="out")
    if fn == "names":
        for k in range(8):
            it.put_string(st, ("p", ob, P(32 * k)), ())
    res, und = [], []
    for r in it.call_fn(st, "vp_" + fn, [stream, ("p", ob, P(0))]):
        if r[0] == "unknown":
            und.append(r[2])
            continue
        s = r[1]
        if not s.poly.feasible():
            continue
        if r[0] != "ret":
            res.append((s, r[0], None, None, None))
            continue
        code = const(it.asint(s, r[2], 32)[2])
        cells = s.mem[ob].cells
        vals = []
        k = 0
        while fn not in ("names", "dim") and 4 * k in cells:
            vals.append(it.asint(s, cells[4 * k][1], 32)[2])
            k += 1
        res.append((s, "ret", code, vals, s.notes["s:" + stream[1]]))
    return it, text, res, und


# ---------------------------------------------------------------- reference reading
NAMES = ("x", "x1")
DIG, SIGN, BLANK, REL = set(range(48, 58)), {43, 45}, {32, 9, 13}, {60, 61, 62}
NUMBER_LIMIT = 2147483647


class Bad(Exception):
    """the text must be refused"""


class Open(Exception):
    """nothing is said about this text"""


class Line:
    """characters [p, e) of the text, read from the left"""

    def __init__(self, w, text, p, e):
        self.w, self.text, self.p, self.e = w, text, p, e
        self.strict = True

    def end(self):
        return self.p >= self.e

    def at(self, s, k=0):
        return self.p + k < self.e and self.w.within(self.p + k, s)

    def blanks(self):
        n = self.p
        while self.at(BLANK):
            self.p += 1
        return self.p > n

    def digits(self):
        v, n = P(0), 0
        while self.at(DIG):
            c = self.text[self.p]
            known = self.w.run.words[self.w.w][self.p]
            if len(known) == 1:
                c = min(known)
            v = addc(add(scale(v, 10), P(c) if isinstance(c, int) else c), -48)
            self.p += 1
            n += 1
        return v if n else None

    def integer(self):
        """[sign] digits"""
        neg = self.at({45})
        if self.at(SIGN):
            self.p += 1
        v = self.digits()
        if v is None:
            raise Bad("a number is missing")
        k = const(v)
        if k is not None and k > NUMBER_LIMIT:
            raise Bad("a number is too large")
        return scale(v, -1) if neg else v

    def identifier(self):
        if self.at({40}):
            while not self.end() and not self.at({41}):
                self.p += 1
            if self.end():
                raise Bad("an identifier is not closed")
            self.p += 1

    def name(self, stop):
        a = self.p
        while not self.end() and not self.at(stop):
            self.p += 1
        for i, n in enumerate(NAMES):
            if len(n) == self.p - a and all(self.w.within(a + k, {ord(c)}) for k, c in enumerate(n)):
                return i
        raise Bad("an unknown name")

    def relation(self):
        """None or '<', '>', '='"""
        for c, r in ((60, "<"), (62, ">"), (61, "=")):
            if self.at({c}):
                self.p += 1
                if self.at({61}):
                    self.p += 1
                elif r != "=":
                    raise Bad("a relation is incomplete")
                return r
        return None


def named(ln, want):
    """-> (strict, row)"""
    ln.identifier()
    rel, side, strict = None, 0, True
    forms = [{}, {}]
    sep = True
    ln.blanks()
    while not ln.end():
        if not sep:
            strict = False
        if ln.at(REL):
            if rel:
                raise Bad("two relations")
            rel = ln.relation()
            if rel == "=" and want != "=" or rel != "=" and want == "=":
                raise Bad("a relation of the wrong kind")
            side = 1
            sep = ln.blanks()
            if ln.end():
                raise Bad("nothing behind the relation")
            continue
        sg, signs, apart = 1, 0, False
        while ln.at(SIGN):
            if ln.at({45}):
                sg = -sg
            ln.p += 1
            signs += 1
            if ln.blanks():
                apart = True
        if signs and ln.end():
            raise Bad("a sign without a term")
        if signs > 1:
            strict = False
        v = ln.digits()
        if v is not None and (ln.end() or ln.at(BLANK | REL | SIGN)):
            i = 2
            if const(v) is not None and const(v) > NUMBER_LIMIT:
                raise Bad("a number is too large")
            if apart or side == 0 or 2 in forms[1]:
                strict = False
        else:
            if ln.at(REL | SIGN):
                raise Bad("a sign without a term")
            i = ln.name(BLANK | REL | SIGN)
            if v is not None and const(v) is not None and const(v) > NUMBER_LIMIT:
                raise Bad("a number is too large")
            v = P(1) if v is None else v
            if side == 1 or i in forms[0]:
                strict = False
        forms[side][i] = add(forms[side].get(i, P(0)), scale(v, sg))
        sep = ln.blanks()
    if rel is None:
        raise Bad("no relation")
    if 2 not in forms[1]:
        strict = False
    row = [add(forms[0].get(i, P(0)), forms[1].get(i, P(0)), -1) for i in range(3)]
    return strict, [scale(x, -1) for x in row] if rel == ">" else row


def raw(ln, want):
    """-> (strict, row or None)"""
    ln.identifier()
    rel, strict, row, n = None, True, [], 0
    sep = True
    ln.blanks()
    while not ln.end():
        if not sep:
            strict = False
        if ln.at(REL):
            if rel:
                raise Bad("two relations")
            rel = ln.relation()
            if rel == "=" and want != "=" or rel != "=" and want == "=":
                raise Bad("a relation of the wrong kind")
            if not row:
                strict = False
        else:
            row.append(ln.integer())
            n += rel is not None
        sep = ln.blanks()
    if rel and n != 1:
        raise Bad("not exactly one number behind the relation")
    if not row:
        return False, None
    if rel:
        row[-1] = scale(row[-1], -1)
    return strict, [scale(x, -1) for x in row] if rel == ">" else row


def fraction(ln):
    """-> (strict, [(numerator, denominator)])"""
    ln.identifier()
    strict, row, sep = True, [], True
    ln.blanks()
    while not ln.end():
        if not sep:
            strict = False
        v = ln.integer()
        sep = ln.blanks()
        d = P(1)
        if ln.at({47}):
            ln.p += 1
            if sep or ln.at(BLANK | SIGN):
                strict = False
            ln.blanks()
            at = ln.p
            d = ln.integer()
            if all(ln.w.within(k, {48, 43, 45}) for k in range(at, ln.p)):
                raise Bad("division by zero")
            sep = ln.blanks()
        row.append((v, d))
    return strict, row or None


def image(ln):
    """-> (strict, linear form)"""
    strict, form, first = True, {}, True
    while not ln.end() and not ln.at(BLANK):
        sg, signs = 1, 0
        while ln.at(SIGN):
            if ln.at({45}):
                sg = -sg
            ln.p += 1
            signs += 1
        if signs > 1 or not signs and not first:
            strict = False
        v = ln.digits()
        if ln.end() or ln.at(BLANK | SIGN):
            if v is None:
                raise Bad("a sign without a term")
            i = 2
            if const(v) is not None and const(v) > NUMBER_LIMIT:
                raise Bad("a number is too large")
        else:
            i = ln.name(BLANK | SIGN)
            if v is not None and const(v) is not None and const(v) > NUMBER_LIMIT:
                raise Bad("a number is too large")
            v = P(1) if v is None else v
        form[i] = add(form.get(i, P(0)), scale(v, sg))
        first = False
    return strict, [form.get(i, P(0)) for i in range(3)]


def images(ln):
    out, strict = [], True
    ln.blanks()
    while not ln.end():
        s, f = image(ln)
        strict = strict and s
        out.append(f)
        ln.blanks()
    if len(out) != 2:
        raise Bad("the number of images differs from the number of names")
    return strict, out


def section(text, reader):
    """the reading of a section: ('bad', why) | ('rows', strict, rows, end) where end is the position of the next keyword (behind it for END) or None"""
    from c14 import Part, is_any, is_kind

    def spec(ws):
        w = ws[0]
        ends = [k for k in range(len(w)) if w.within(k, {10})] + [len(w)]
        rows, strict, pos, end = [], True, ends[0] + 1, None
        for e in ends[1:]:
            if pos > len(w):
                break
            t = Part(w, pos, e).trim()
            if len(t) and is_any(t):
                end = min(e + 1, len(w)) if is_kind(t, "End") else pos
                break
            if len(t):
                try:
                    s, row = reader(w, text, t.a, t.b)
                except Bad as b:
                    return ("bad", str(b))
                except Open:
                    return ("open",)
                strict = strict and s
                if row is not None:
                    rows.append(row)
            pos = e + 1
        return ("rows", strict, rows, end)
    return spec


def constraint_reader(want, names=True):
    def reader(w, text, a, b):
        xs = set(map(ord, "x"))
        here = names and any(w.within(k, xs) for k in range(a, b))
        if here:
            if w.within(a, {40}):
                # a name within the identifier only: the row may be written either way
                k = a
                while k < b and not w.within(k, {41}):
                    k += 1
                if not any(w.within(j, xs) for j in range(k, b)):
                    raise Open
            return named(Line(w, text, a, b), want)
        later = names and any(w.within(k, xs) for k in range(b, len(w)))
        if later:
            raise Open
        return raw(Line(w, text, a, b), want)
    return reader


def simple(f):
    return lambda w, text, a, b: f(Line(w, text, a, b))
