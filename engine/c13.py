"""C13: command line options mean what the documentation says."""
from concurrent.futures import ProcessPoolExecutor
import vp
from absint import Program, State, Unknown, I, P, const
from poly import add, addc, scale, show
from algebra import prog
from text import Text
from words import outcomes, domains

H = r'''
#include <iostream>
#include <string>
#include "concurrency.h"
#include "help.h"
#include "input_detection.h"
#include "input_method.h"
#include "input_validity.h"
#include "integer_type_selection.h"
using namespace panda;
extern "C" {
int vp_type(int c, char** v)
{
   switch ( integerType(c, v) )
   {
      case IntegerType::Fixed16: return 16;
      case IntegerType::Fixed32: return 32;
      case IntegerType::Fixed64: return 64;
      case IntegerType::Safe: return 1;
      case IntegerType::Variable: return 2;
      case IntegerType::Default: return 3;
   }
   return -1;
}
int vp_method(int c, char** v)
{
   switch ( input::method(c, v) )
   {
      case Method::AdjacencyDecomposition: return 1;
      case Method::DoubleDescription: return 2;
   }
   return -1;
}
int vp_order(int c, char** v)
{
   switch ( getInputOrder(c, v) )
   {
      case InputOrder::NoSorting: return 1;
      case InputOrder::LexicographicAscending: return 2;
      case InputOrder::LexicographicDescending: return 3;
      case InputOrder::NonZeroEntriesAscending: return 4;
      case InputOrder::NonZeroEntriesDescending: return 5;
      case InputOrder::Reverse: return 6;
   }
   return -1;
}
int vp_mode(int c, char** v)
{
   switch ( detectOperationMode(c, v) )
   {
      case OperationMode::FacetEnumeration: return 1;
      case OperationMode::VertexEnumeration: return 2;
      case OperationMode::HelpCommand: return 3;
      case OperationMode::Help: return 4;
      case OperationMode::Version: return 5;
      case OperationMode::Invalid: return 6;
      case OperationMode::Undecided: return 7;
   }
   return -1;
}
int vp_threads(int c, char** v) { return concurrency::numberOfThreads(c, v); }
int vp_help(int c, char** v) { return help::command(c, v); }
int vp_check(int c, char** v) { return input::checkValidity(c, v) ? 1 : 0; }
int vp_filter(int c, char** v) { return input::filterInvalidInput(c, v) ? 1 : 0; }
void vp_file(int c, char** v, std::string& out) { out = getFilename(c, v); }
}
'''
FILES = ["concurrency.cpp", "help.cpp", "input_common.cpp", "input_detection.cpp", "input_keywords.cpp", "input_method.cpp", "input_validity.cpp", "integer_type_detection.cpp",
         "position_guarded_file.cpp", "istream_peek_line.cpp"]
THROW = "an exception"
ANY = "anything"
WS = {9, 10, 11, 12, 13, 32}
DIG = set(range(48, 58))
NAMES = {
    "type": {16: "16 bit", 32: "32 bit", 64: "64 bit", 1: "checked integers", 2: "arbitrary precision", 3: "the default type"},
    "method": {1: "adjacency decomposition", 2: "double description"},
    "order": {1: "no sorting", 2: "lexicographic ascending", 3: "lexicographic descending", 4: "nonzero ascending", 5: "nonzero descending", 6: "reverse"},
    "mode": {1: "facet enumeration", 2: "vertex enumeration", 3: "help on a command", 4: "help", 5: "version", 6: "invalid", 7: "undecided"},
    "check": {0: "off", 1: "on"}, "filter": {0: "off", 1: "on"}, "help": {0: "exit code 0", 1: "exit code 1"},
}
WHERE = {"type": "integer_type_detection.cpp", "method": "input_method.cpp", "order": "input_detection.cpp", "mode": "input_detection.cpp", "threads": "concurrency.cpp",
         "check": "input_validity.cpp", "filter": "input_validity.cpp", "help": "help.cpp", "file": "input_detection.cpp"}
FN = {"type": "integerType", "method": "input::method", "order": "getInputOrder", "mode": "detectOperationMode", "threads": "numberOfThreads", "check": "checkValidity",
      "filter": "filterInvalidInput", "help": "help::command", "file": "getFilename"}
DIR = {"asc": 0, "ascending": 0, "up": 0, "desc": 1, "descending": 1, "down": 1}
ORDERS = {"lex": 2, "lexicographic": 2, "nz": 4, "nonzero": 4, "rev": 6, "reverse": 6}
for _b, _v in (("lex", 2), ("lexicographic", 2), ("nz", 4), ("nonzero", 4)):
    for _d, _k in DIR.items():
        ORDERS[_b + "_" + _d] = _v + _k
TYPES = {"16": 16, "32": 32, "64": 64, "safe": 1, "inf": 2}
METHODS = {"dd": 2, "double-description": 2, "double_description": 2, "ad": 1, "adjacency-decomposition": 1, "adjacency_decomposition": 1}
HELP = ["c", "check", "h", "help", "i", "integer-type", "k", "known-facets", "known-vertices", "known-data", "m", "method", "s", "sorting", "t", "threads", "v", "version",
        "-c", "--check", "-h", "--h", "-help", "--help", "?", "-i", "--integer-type", "-k", "--known-facets", "--known-vertices", "--known-data", "-m", "--method",
        "-s", "--sorting", "-t", "--threads", "-v", "-version", "--version"]


def option(argv, c, long, value, default):
    """the first argument that begins with -c or --c decides"""
    for i, a in enumerate(argv):
        if a.equals("-" + c):
            return value(argv[i + 1]) if i + 1 < len(argv) else THROW
        if a.starts("-" + c + "="):
            return value(a.sub(3))
        if a.starts("--" + long + "="):
            return value(a.sub(len(long) + 3))
        if a.starts("-" + c) or a.starts("--" + c):
            return THROW
    return default


def table(t, other=THROW):
    def value(w):
        for k, v in t.items():
            if w.equals(k):
                return v
        return other(w) if callable(other) else other
    return value


def number(w):
    k = 0
    while k < len(w) and w.within(k, WS):
        k += 1
    if k == len(w):
        return THROW
    if w.at(k, "-"):
        return THROW
    if w.at(k, "+"):
        k += 1
    b = k
    while k < len(w) and w.within(k, DIG):
        k += 1
    if k == b:
        return THROW
    e = k
    while k < len(w):
        if not w.within(k, WS):
            return THROW
        k += 1
    return ("number", w.w, w.off + b, w.off + e)


def filename(argv):
    name = None
    i = 0
    while i < len(argv):
        a = argv[i]
        if a.starts("--"):
            i += 1
            continue
        if a.starts("-"):
            i += 1 if a.equals("-c") or a.equals("-f") or a.has("=") else 2
            continue
        if len(a) == 0:
            return ANY
        if name is not None:
            return THROW
        name = ("text", a.w)
        i += 1
    return name if name is not None else ("text", None)


def mode(argv):
    if not argv:
        return 4
    for i, a in enumerate(argv):
        if (a.equals("-h") and i + 1 < len(argv)) or a.starts("-h=") or a.starts("--help=") or a.starts("--help-command="):
            return 3
        if a.one_of(("?", "-h", "--h", "-help", "--help")):
            return 4
        if a.one_of(("-v", "--v", "-version", "--version")):
            return 5
    f = filename(argv)
    return f if f in (THROW, ANY) else 1


def helpcmd(argv):
    for i, a in enumerate(argv):
        w = None
        if a.equals("-h"):
            if i + 1 >= len(argv):
                return 1
            w = argv[i + 1]
        elif a.starts("-h="):
            w = a.sub(3)
        elif a.starts("--help="):
            w = a.sub(7)
        elif a.starts("--help-command="):
            w = a.sub(15)
        if w is not None:
            if w.one_of(HELP):
                return 0
            # other spellings may or may not be known
            return ANY
    return 1


def flag(short, long):
    return lambda argv: int(any(a.equals(short) or a.equals(long) for a in argv))


def order_other(w):
    return ANY if w.starts("lex") or w.starts("n") or w.starts("rev") else THROW


SPEC = {
    "type": lambda v: option(v, "i", "integer-type", table(TYPES), 3),
    "method": lambda v: option(v, "m", "method", table(METHODS), 1),
    "order": lambda v: option(v, "s", "sorting", table(ORDERS, order_other), 1),
    "threads": lambda v: option(v, "t", "threads", number, ("default",)),
    "mode": mode, "file": filename, "help": helpcmd,
    "check": flag("-c", "--check"), "filter": flag("-f", "--filter"),
}
_it = {}


class Cli(Text):
    def h_hw(self, i, st, ins, a, dem):
        k = st.poly.new("hw", 0, 4096)
        st.notes["hw"] = k
        return [(st, I(32, k))]


@vp.guard(1)
def job(j):
    path, fn, shapes = j
    if path not in _it:
        _it[path] = Program(path)
    found, und, cnt = vp.PARTIAL, [], 0
    for shape in shapes:
        f, u, n = one(path, fn, shape, found)
        und += u
        cnt += n
    return found, und, cnt


def one(path, fn, shape, found):
    """shape: one text per argument; a \\x00 in it is an unknown character"""
    und, cnt = [], 0
    it = Cli(_it[path], {r"hardware_concurrency": lambda *a: Cli.h_hw(it, *a)}, max_states=60000, max_steps=400000)
    it.check_ub = True
    st = State()
    args = []
    for i, s in enumerate(shape):
        args.append(tuple(st.poly.new("c%d_%d" % (i, k), 1, 127) if c == "\0" else ord(c) for k, c in enumerate(s)))
    n = len(args) + 1
    av = st.alloc(8 * (n + 1), name="argv")
    st.mem[av].cells[0] = (8, it.c_string(st, tuple(map(ord, "panda")), "program name"))
    for k, x in enumerate(args):
        st.mem[av].cells[8 * (k + 1)] = (8, it.c_string(st, x, "argument %d" % (k + 1)))
    st.mem[av].cells[8 * n] = (8, ("p", None, P(0)))
    call = [I(32, P(n)), ("p", av, P(0))]
    out = None
    if fn == "file":
        out = ("p", st.alloc(32, name="filename"), P(0))
        b = st.mem[out[1]]
        it.put_string(st, out, ())
        call.append(out)
    name = FN[fn]
    seen = set()
    for r in it.call_fn(st, "vp_" + fn, call):
        if r[0] == "unknown":
            und.append("%s: %s" % (name, r[2]))
            continue
        s = r[1]
        if not s.poly.feasible():
            continue
        cnt += 1
        if r[0] not in ("ret", "throw"):
            found.append("%s ends with %s" % (name, r[0]))
            continue
        try:
            ws = [domains(s, x) for x in args]
            for want, texts in outcomes(ws, SPEC[fn]):
                if want == ANY:
                    continue
                bad = differs(it, s, fn, r, want, args, out)
                if bad:
                    key = (bad, tuple(len(t) for t in texts))
                    if key in seen:
                        continue
                    seen.add(key)
                    found.append("%s for the arguments [%s]: %s" % (name, " ".join("'%s'" % t for t in texts), bad))
                    if len(found) > 12:
                        return found, und, cnt
        except (Unknown, ValueError) as e:
            und.append("%s: %s" % (name, e))
    for kind, where, s in it.ub:
        if s.poly.feasible():
            ws = [domains(s, x) for x in args]
            texts = outcomes(ws, lambda v: None)[0][1]
            found.append("%s for the arguments [%s]: %s" % (name, " ".join("'%s'" % t for t in texts), kind))
    return found, und, cnt


def differs(it, s, fn, r, want, args, out):
    if want == THROW:
        return None if r[0] == "throw" else "accepted%s although the arguments are invalid" % shown(fn, r)
    if r[0] == "throw":
        # a number too large for int is refused
        if isinstance(want, tuple) and want[0] == "number":
            v = value(args, want)
            if not s.poly.feasible([addc(v, -1), addc(scale(v, -1), (1 << 31) - 1)]):
                return None
        return "refused although the arguments are valid"
    if isinstance(want, tuple) and want[0] == "number":
        v = value(args, want)
        got = it.asint(s, r[2], 32)[2]
        if s.poly.feasible([scale(v, -1)]):
            return "zero is accepted as a number of threads"
        if s.poly.entails_eq(add(v, got, -1)):
            return None
        return "the result is %s instead of the number given" % show(got)
    if isinstance(want, tuple) and want[0] == "default":
        got = it.asint(s, r[2], 32)[2]
        hw = s.notes.get("hw")
        if hw is None:
            return "the default is %s whatever the machine offers" % show(got)
        if s.poly.entails(addc(got, -1)) and (s.poly.entails_eq(add(got, hw, -1)) or not s.poly.feasible([addc(hw, -1)])):
            return None
        return "the default is %s" % show(got)
    if isinstance(want, tuple) and want[0] == "text":
        got = it.get_string(s, out)
        exp = () if want[1] is None else args[want[1]]
        if len(got) == len(exp) and all(same(it, s, x, y) for x, y in zip(got, exp)):
            return None
        return "the file name is %s" % ("empty" if not got else "not argument %d" % (want[1] + 1) if want[1] is not None else "not empty")
    got = const(it.asint(s, r[2], 32)[2])
    if got is None:
        raise Unknown("result not determined")
    if got == want:
        return None
    t = NAMES[fn]
    return "yields %s instead of %s" % (t.get(got, got), t.get(want, want))


def shown(fn, r):
    v = const(r[2][2]) if r[2] and r[2][0] == "i" else None
    return "" if v is None else " as %s" % NAMES.get(fn, {}).get(v, v)


def value(args, want):
    v = P(0)
    for x in args[want[1]][want[2]:want[3]]:
        v = addc(add(scale(v, 10), P(x) if isinstance(x, int) else x), -48)
    return v


def same(it, s, x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    if isinstance(x, tuple) or isinstance(y, tuple):
        return x == y
    return s.poly.entails_eq(add(P(x) if isinstance(x, int) else x, P(y) if isinstance(y, int) else y, -1))


def U(n):
    return "\0" * n


def shapes(fn):
    """argument lists to analyse"""
    r = [()]
    if fn in ("type", "method", "order", "threads"):
        c, long, vals = {"type": ("i", "integer-type", TYPES), "method": ("m", "method", METHODS), "order": ("s", "sorting", ORDERS),
                         "threads": ("t", "threads", {"1": 1, "24": 1, "0" * 3: 1})}[fn]
        lens = sorted({len(v) + d for v in vals for d in (-1, 0, 1)} | {0, 1})
        if fn == "threads":
            lens = [0, 1, 2, 3]
        pre = [("-" + c, 1), ("-" + c + "=", 0), ("--" + long + "=", 0)]
        for p, sep in pre:
            for n in lens:
                r.append((p, U(n)) if sep else (p + U(n),))
        for n in (range(0, len(long) + 5) if vp.THOROUGH else (0, 1, 2, 3, 4, len(long) + 2, len(long) + 3)):
            r.append((U(n),))
            if n < 5:
                r.append(("x", U(n)))
                r.append((U(n), "-" + c, max(vals, key=len)))
        v = sorted(vals)
        two = [v[0], v[-1]]
        r += [("-" + c, two[0], "-" + c, two[1]), ("-%s=%s" % (c, two[0]), "--%s=%s" % (long, two[1])), ("--%s=%s" % (long, two[0]), "-" + c, two[1]),
              (U(2), two[0], "-" + c, two[1]), (two[0], "-" + c, U(len(two[1]))), ("-" + c, two[0], "-" + c), ("f", "-" + c)]
        if fn == "threads":
            r += [("-t", "2147483647"), ("-t", "2147483648"), ("-t=99999999999999999999",), ("-t", "4294967297"), ("-t", "-2147483648"), ("-t", "1" + U(1) + "0"), ("-t", "007"), ("-t", "0x10"), ("-t", "1e3")]
    elif fn in ("check", "filter"):
        o, l = {"check": ("-c", "--check"), "filter": ("-f", "--filter")}[fn]
        r += [(U(n),) for n in range(len(l) + 2)] + [(U(2), U(2)), (U(2), U(len(l))), (U(len(l)), U(2)), ("f", "x", U(2)), ("f", U(len(l)), "x")]
    elif fn == "file":
        r += [(U(n),) for n in range(5)] + [(a, U(n)) for a in ("-i", "-c", "-f", "-k", "-i=", "--check", "--integer-type=16", "x") for n in range(3)]
        r += [(U(2), U(1)), (U(1), U(2)), (U(2), "f"), (U(3), "f"), (U(2), "x", "f"), ("f", U(2)), ("f", U(2), "x"), (U(2), "-c", "f"), ("-k=" + U(2), "f"), (U(2), "", "f")]
    elif fn == "mode":
        r += [(U(n),) for n in range(1, 17 if vp.THOROUGH else 9)] + [(p + U(n),) for p in ("-", "--", "--help", "--version", "-version", "--help-command") for n in (0, 1, 2)]
        r += [(U(2), U(1)), (U(1), U(2)), ("f", U(2)), (U(2), "f"), ("f", U(6)), ("-c", U(2)), ("-h", U(1)), ("-v", "-h"), ("-h", "-v"), ("?", "-h"), ("f", "-h", "x"), (U(3), "x", "f")]
    elif fn == "help":
        r = []
        lens = sorted({len(x) for x in HELP})
        for p in ("-h=", "--help=", "--help-command="):
            r += [(p + U(n),) for n in lens]
        r += [("-h", U(n)) for n in lens] + [("-h",), ("f", "-h"), ("f", "-h", U(1)), ("f", "--help-command=" + U(1)), ("-h", "i", "-h"), ("-c", "-h=t")]
    return r


def check(c):
    path = prog(H, "cli", FILES)
    jobs = []
    for fn in FN:
        sh = shapes(fn)
        k = 6 if fn in ("file", "mode", "help", "order", "method") else 10
        jobs += [(path, fn, sh[i::max(1, len(sh) // k)]) for i in range(max(1, len(sh) // k))]
    n = 0
    seen = {}
    with ProcessPoolExecutor(8) as ex:
        for (_, fn, _), (found, und, k) in zip(jobs, ex.map(job, jobs)):
            n += k
            for what in found:
                key = what.split(": ", 1)[-1]
                if seen.setdefault((fn, key), 0) < 2:
                    seen[(fn, key)] += 1
                    c.violation(what[:140], "src/" + WHERE[fn], what)
            for u in und:
                if u not in c.undecided:
                    c.undecided.append(u)
    c.coverage.update(functions=len(FN), argument_lists=sum(len(j[2]) for j in jobs), paths=n, undecided_paths=len(c.undecided),
                      rule="on each path the characters of the arguments are known as ranges; the documented meaning, evaluated over these ranges, must agree with the result of the path in every case")
    c.assumptions += ["ASCII arguments", "at most 3 arguments with unknown characters only in some of them", "the input file cannot be opened (its content is the subject of another property)"]
    if n == 0:
        raise vp.Broken("%d paths decided: %s" % (n, c.undecided[:3]))


if __name__ == "__main__":
    vp.main("C13", "abstract interpretation over symbolic characters, against a decision table", check)
