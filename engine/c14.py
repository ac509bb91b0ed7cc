"""C14: section keywords are recognized exactly, and the mode of operation follows from them."""
from concurrent.futures import ProcessPoolExecutor
import vp
from absint import Program, State, Unknown, I, P, const
from poly import add
from algebra import prog
from text import Text
from words import outcomes, domains, Word

KINDS = ["ConicalHull", "ReducedConicalHull", "ConvexHull", "ReducedConvexHull", "Dimension", "Equations", "Inequalities", "ReducedInequalities", "Maps", "Names", "End"]


def colon(*ws):
    return [w + c for w in ws for c in ("", ":")]


TABLE = {
    "ConicalHull": colon("CONE_SECTION", "CONICAL_HULL", "CONICAL_HULL_SECTION", "Rays"),
    "ReducedConicalHull": colon("REDUCED_CONE_SECTION", "REDUCED_CONICAL_HULL", "REDUCED_CONICAL_HULL_SECTION", "Reduced Rays"),
    "ConvexHull": colon("CONVEX_HULL", "CONVEX_HULL_SECTION", "CONV_SECTION", "Vertices"),
    "ReducedConvexHull": colon("REDUCED_CONVEX_HULL", "REDUCED_CONVEX_HULL_SECTION", "REDUCED_CONV_SECTION", "Reduced Vertices"),
    "Dimension": ["DIM", "DIMENSION", "Dim", "Dimension"],
    "Equations": colon("EQUATIONS", "EQUATION_SECTION", "EQUATIONS_SECTION", "Equations"),
    "Inequalities": colon("INEQUALITIES", "INEQUALITY_SECTION", "INEQUALITIES_SECTION", "Inequalities"),
    "ReducedInequalities": colon("REDUCED_INEQUALITIES", "REDUCED_INEQUALITY_SECTION", "REDUCED_INEQUALITIES_SECTION", "Reduced Inequalities"),
    "Maps": colon("MAPS", "MAP_SECTION", "MAPS_SECTION", "Maps"),
    "Names": colon("INDEX", "INDICES", "INDEX_SECTION", "INDICES_SECTION", "NAMES", "NAME_SECTION", "NAMES_SECTION", "Indices", "Names"),
    "End": ["END", "End"],
}
H = r'''
#include <fstream>
#include <string>
#include "input_common.h"
#include "input_detection.h"
#include "input_keywords.h"
#include "istream_peek_line.h"
#include "position_guarded_file.h"
using namespace panda;
using namespace panda::input::implementation;
extern "C" {
''' + "\n".join("int vp_is%s(const std::string& s) { return isKeyword%s(s) ? 1 : 0; }" % (k, k) for k in KINDS) + r'''
int vp_any(const std::string& s) { return isKeyword(s) ? 1 : 0; }
int vp_advance(std::istream& s, std::string& t) { return input::advanceToNextKeyword(s, t) ? 1 : 0; }
int vp_contains(std::ifstream& f) { return containsKeywords(f) ? 1 : 0; }
int vp_peek(std::istream& s, std::string& t) { t = peekLine(s); return 0; }
int vp_mode(int c, char** v)
{
   switch ( detectOperationMode(c, v) )
   {
      case OperationMode::FacetEnumeration: return 1;
      case OperationMode::VertexEnumeration: return 2;
      case OperationMode::Invalid: return 6;
      default: return 9;
   }
}
}
'''
FILES = ["input_keywords.cpp", "input_common.cpp", "input_detection.cpp", "position_guarded_file.cpp", "istream_peek_line.cpp"]
MODES = {1: "facet enumeration", 2: "vertex enumeration", 6: "an error", 9: "another mode"}
_it = {}


def is_kind(w, k):
    if k == "Dimension" and any(w.starts(x + "=") for x in TABLE[k]):
        return True
    return w.one_of(TABLE[k])


def is_any(w):
    return w.equals("Reduced") or any(is_kind(w, k) for k in KINDS)


class Part:
    """characters [a, b) of a word"""

    def __init__(self, w, a, b):
        self.w, self.a, self.b = w, a, b

    def __len__(self):
        return self.b - self.a

    def within(self, k, s):
        return self.w.within(self.a + k, s)

    def starts(self, lit):
        return len(lit) <= len(self) and all(self.within(k, {ord(c)}) for k, c in enumerate(lit))

    equals, one_of = Word.equals, Word.one_of

    def trim(self):
        a, b = self.a, self.b
        while a < b and self.w.within(a, {32, 9, 13}):
            a += 1
        while a < b and self.w.within(b - 1, {32, 9, 13}):
            b -= 1
        return Part(self.w, a, b)


def lines(w):
    """-> [(part, position behind the line)]"""
    out, a = [], 0
    for k in range(len(w)):
        if w.within(k, {10}):
            out.append((Part(w, a, k), k + 1))
            a = k + 1
    if a < len(w):
        out.append((Part(w, a, len(w)), len(w)))
    return out


def s_advance(ws):
    pos = 0
    for part, nxt in lines(ws[0]):
        t = part.trim()
        if is_any(t):
            return ("at", pos, t.a, t.b)
        pos = nxt
    return ("none",)


def s_peek(ws):
    part, _ = lines(ws[0])[0]
    return ("line", part.a, part.b)


def s_contains(ws):
    for n, (part, nxt) in enumerate(lines(ws[0])):
        if is_any(part.trim()):
            return 1 if n < 20 else "any"
    return 0


def s_mode(ws):
    ieq = hull = False
    for part, nxt in lines(ws[0]):
        t = part.trim()
        if is_kind(t, "Inequalities") or is_kind(t, "ReducedInequalities"):
            ieq = True
        elif any(is_kind(t, k) for k in ("ConicalHull", "ReducedConicalHull", "ConvexHull", "ReducedConvexHull")):
            hull = True
    return 6 if ieq and hull else 2 if ieq else 1


class Kw(Text):
    text = None

    def content(self, st, name):
        st.notes["name"] = name
        return self.text


@vp.guard(1)
def job(j):
    path, fn, shapes = j
    if path not in _it:
        _it[path] = Program(path)
    found, und, cnt = vp.PARTIAL, [], 0
    for shape in shapes:
        u, n = one(path, fn, shape, found)
        und += u
        cnt += n
    return found, und, cnt


def one(path, fn, shape, found):
    und, cnt = [], 0
    it = Kw(_it[path], max_states=60000, max_steps=400000)
    it.check_ub = True
    st = State()
    # \0 any character, \1 a visible character, \2 visible or space
    low = {"\0": 1, "\1": 33, "\2": 32}
    text = tuple(st.poly.new("c%d" % k, low[c], 127) if c in low else ord(c) for k, c in enumerate(shape))
    out = stream = None
    if fn.startswith("is") or fn == "any":
        at = ("p", st.alloc(32, name="word"), P(0))
        it.put_string(st, at, text)
        args = [at]
        k = fn[2:]
        spec = (lambda ws: int(is_any(ws[0]))) if fn == "any" else (lambda ws: int(is_kind(ws[0], k)))
    elif fn in ("advance", "peek"):
        stream = it.mk_stream(st, text)
        out = ("p", st.alloc(32, name="token"), P(0))
        it.put_string(st, out, ())
        args = [stream, out]
        spec = s_advance if fn == "advance" else s_peek
    elif fn == "contains":
        stream = it.mk_stream(st, text)
        args = [stream]
        spec = s_contains
    else:
        it.text = text
        av = st.alloc(24, name="argv")
        st.mem[av].cells[0] = (8, it.c_string(st, tuple(map(ord, "panda"))))
        st.mem[av].cells[8] = (8, it.c_string(st, tuple(map(ord, "input"))))
        st.mem[av].cells[16] = (8, ("p", None, P(0)))
        args = [I(32, P(2)), ("p", av, P(0))]
        spec = s_mode
    name = {"any": "isKeyword", "advance": "advanceToNextKeyword", "contains": "containsKeywords", "peek": "peekLine", "mode": "detectOperationMode"}.get(fn, "isKeyword" + fn[2:])
    seen = set()
    for r in it.call_fn(st, "vp_" + fn, args):
        if r[0] == "unknown":
            und.append("%s: %s" % (name, r[2]))
            continue
        s = r[1]
        if not s.poly.feasible():
            continue
        cnt += 1
        try:
            for want, texts in outcomes([domains(s, text)], spec):
                bad = differs(it, s, fn, r, want, text, out, stream)
                if bad and bad not in seen:
                    seen.add(bad)
                    found.append("%s for '%s': %s" % (name, texts[0].replace("\n", "\\n"), bad))
                    if len(found) > 12:
                        return und, cnt
        except (Unknown, ValueError) as e:
            und.append("%s: %s" % (name, e))
    for kind, where, s in it.ub:
        if s.poly.feasible():
            found.append("%s for '%s': %s" % (name, outcomes([domains(s, text)], lambda v: None)[0][1][0], kind))
    return und, cnt


def same(s, t, u):
    return len(t) == len(u) and all(a == b or isinstance(a, dict) and isinstance(b, dict) and s.poly.entails_eq(add(a, b, -1)) for a, b in zip(t, u))


def differs(it, s, fn, r, want, text, out, stream):
    if r[0] != "ret":
        return "ends with %s" % r[0]
    got = const(it.asint(s, r[2], 32)[2])
    if fn == "advance":
        dd = s.notes["s:" + stream[1]]
        t = it.get_string(s, out)
        if want[0] == "none":
            return None if got == 0 else "a keyword is reported where there is none"
        if got == 0:
            return "the keyword is missed"
        if dd["pos"] != want[1]:
            return "the stream is at position %d instead of the beginning of the line of the keyword (%d)" % (dd["pos"], want[1])
        exp = text[want[2]:want[3]]
        if not same(s, t, exp):
            return "the token is not the keyword"
        return None
    if fn == "peek":
        dd = s.notes["s:" + stream[1]]
        t = it.get_string(s, out)
        if not same(s, t, text[want[1]:want[2]]):
            return "yields something else than the line"
        return "the position or state of the stream is not restored" if dd["pos"] != 0 or dd["bits"] != 0 else None
    if got is None:
        raise Unknown("result not determined")
    if fn == "contains":
        dd = s.notes["s:" + stream[1]]
        if dd["pos"] != 0 or dd["bits"] != 0:
            return "the position or state of the file is not restored"
        return None if want == "any" or got == want else "yields %s" % bool(got)
    if fn == "mode":
        if s.notes.get("name") != tuple(map(ord, "input")):
            return "the input file is not opened"
        return None if got == want else "yields %s instead of %s" % (MODES.get(got, got), MODES[want])
    return None if got == want else "yields %s" % ("true" if got else "false")


def U(n):
    return "\0" * n


def V(n):
    return "\1" * n if n < 3 else "\1" + "\2" * (n - 2) + "\1"


def check(c):
    path = prog(H, "keywords", FILES)
    every = sorted({w for k in KINDS for w in TABLE[k]})
    jobs = []
    for k in KINDS:
        lens = {len(w) + d for w in TABLE[k] for d in (0, 1)} | {0, 3, 5}
        if vp.THOROUGH:
            lens = set(range(0, 34))
        jobs.append((path, "is" + k, [U(n) for n in sorted(lens)]))
    lens = sorted({len(w) + d for w in every for d in (0, 1)} | {0, 2, 7, 8})
    for i in range(8):
        jobs.append((path, "any", [U(n) for n in lens[i::8]]))
    adv = ["", "\n", U(2), V(3), V(4), U(1) + V(3) + U(1), U(2) + "\nEnd\n", "abc\n" + V(4), " \t" + V(4) + " \r\n1 2 3\n", "1 2\n\nVertices \nx", "Rays", "\n\n", V(4) + U(1) + "\n", "x\nDIM=3\nMaps\n", "xMaps\nMaps x\n Maps:\r\n", "a" + U(1) + "\nEND"]
    jobs += [(path, "advance", [x]) for x in adv]
    jobs += [(path, "peek", ["\n", U(2), U(3) + "\nx", " \t" + V(2) + " \r\nyz\n", V(4), "\nx", "abc"])]
    jobs += [(path, "contains", [x]) for x in adv] + [(path, "contains", ["1\n" * n + "Maps\n" for n in (1, 5, 19, 22)] + ["\n" * 25])]
    hull = "Vertices\n0 0\n"
    ieq = "Inequalities\n1 0\n"
    nums = sorted({len(w) for k in KINDS if "Hull" in k or "Ineq" in k for w in TABLE[k]})
    shp = ["", "1 2 3\n", "Names\nx y\n", "Reduced\n"] + [V(n) for n in nums] + [hull + V(n) for n in nums] + [ieq + V(n) + "\n" for n in nums] + \
        ["Names\nx\n" + V(4) + " \r\n1 1", "\t" + V(8) + "\n", hull + "Rays\n1 1\n", hull + "END\n" + ieq, ieq + "END\n" + hull, "Equations\n1 0\n", "Maps\n", "Reduced Rays:\n", " CONV_SECTION\r\n",
         "INEQUALITIES_SECTION\r\n", "DIM=3\n" + ieq, "DIM=3\n" + hull, "\n" * 30 + ieq, "1 1\n" * 30 + hull]
    k = 16
    jobs += [(path, "mode", shp[i::k]) for i in range(k)]
    n = 0
    seen = {}
    with ProcessPoolExecutor(8) as ex:
        for (_, fn, _), (found, und, k) in zip(jobs, ex.map(job, jobs)):
            n += k
            for what in found:
                key = what.rsplit(": ", 1)[-1]
                if seen.setdefault((fn, key), 0) < 2:
                    seen[(fn, key)] += 1
                    c.violation(what[:140], "src/" + ("input_detection.cpp" if fn == "mode" else "input_common.cpp" if fn in ("advance", "peek") else "input_keywords.cpp"), what)
            for u in und:
                if u not in c.undecided:
                    c.undecided.append(u)
    c.coverage.update(functions=len(KINDS) + 4, keywords=len(every), texts=sum(len(j[2]) for j in jobs), paths=n, undecided_paths=len(c.undecided),
                      rule="on each path the characters are known as ranges; the table of keywords, evaluated over these ranges, must agree with the result of the path")
    c.assumptions += ["ASCII text", "files of few lines with at most one line of unknown characters"]
    if n == 0:
        raise vp.Broken("%d paths decided: %s" % (n, c.undecided[:3]))


if __name__ == "__main__":
    vp.main("C14", "abstract interpretation over symbolic characters, against the table of keywords", check)
