"""C16: vertices, rays, maps, names and the dimension are read as written, or refused."""
from math import gcd
import vp
from absint import Unknown, const, P
from poly import add, mul, scale
from words import outcomes, domains
import c15
from c15 import drive, eq, unpack, line_of
from reading import program, run, section, simple, fraction, images
from c14 import Part, is_any


def common(row):
    l = 1
    for _, d in row:
        k = const(d)
        if k is None:
            return None
        l = l * k // gcd(l, k)
    return abs(l)


def points(cone):
    def judge(s, r, want):
        kind, code, vals, stream = r
        if kind != "ret":
            return "the reader ends with %s" % kind
        if want[0] != "rows":
            return "accepted, although it must be refused (%s)" % want[1] if code == 0 and want[0] == "bad" else None
        _, strict, rows, end = want
        if code:
            return "refused" if strict else None
        got = unpack(s, vals)
        if len(got) != len(rows):
            return "%d rows are read instead of %d" % (len(got), len(rows))
        for g, w in zip(got, rows):
            if len(g) != len(w) + 1:
                return "a row of length %d is read instead of %d" % (len(g), len(w) + 1)
            last = const(g[-1])
            if cone:
                if last != 0:
                    return "the last entry of a ray is not zero"
                last = common(w)
                if last is None:
                    raise Unknown("denominators that are not determined")
            elif last is not None and last <= 0:
                return "the common denominator of a vertex is not positive"
            f = g[-1] if last is None else P(last)
            for k, (x, (n, d)) in enumerate(zip(g, w)):
                if not eq(s, mul(x, d), mul(n, f)):
                    return "coordinate %d differs from the one written" % k
        if end is not None and stream["pos"] != end:
            return "reading ends at position %d instead of %d (next section)" % (stream["pos"], end)
        return None
    return judge


def maps(s, r, want):
    kind, code, vals, stream = r
    if kind != "ret":
        return "the reader ends with %s" % kind
    if want[0] != "rows":
        return "accepted, although it must be refused (%s)" % want[1] if code == 0 and want[0] == "bad" else None
    _, strict, rows, end = want
    if code:
        return "refused" if strict else None
    k = 1
    n = const(vals[0])
    if n != len(rows):
        return "%d maps are read instead of %d" % (n, len(rows))
    for w in rows:
        m = const(vals[k])
        k += 1
        if m != 3:
            return "a map has %d images instead of 2 and the one of the constant" % m
        for i in range(m):
            form = [P(0)] * 3
            t = const(vals[k])
            k += 1
            for _ in range(t):
                v = const(vals[k])
                if v is None:
                    raise Unknown("variable not determined")
                if not 0 <= v < 3:
                    return "a term refers to variable %d of 2" % v
                form[v] = add(form[v], vals[k + 1])
                k += 2
            ref = w[i] if i < 2 else [P(0), P(0), P(1)]
            if not all(eq(s, a, b) for a, b in zip(form, ref)):
                return "image %d of a map differs from the one written" % i if i < 2 else "the constant is not mapped to itself"
    if end is not None and stream["pos"] != end:
        return "reading ends at position %d instead of %d (next section)" % (stream["pos"], end)
    return None


# ---------------------------------------------------------------- names and dimension
def words_of(w, a):
    out, k = [], a
    sp = {32, 9, 13, 10, 11, 12}
    while True:
        while k < len(w) and w.within(k, sp):
            k += 1
        if k >= len(w):
            return out, None
        b = k
        while k < len(w) and not w.within(k, sp):
            k += 1
        if is_any(Part(w, b, k)):
            return out, b
        out.append((b, k))


def one_names(path, shape, found):
    it, text, res, und = run(path, "names", shape)
    cnt, seen = 0, set()
    for s, kind, code, vals, stream in res:
        cnt += 1
        try:
            for (names, end), texts in outcomes([domains(s, text)], lambda ws: words_of(ws[0], shape.index("\n") + 1)):
                bad = None
                if kind != "ret" or code is None or code < 0:
                    bad = "refused"
                elif code != len(names):
                    bad = "%d names are read instead of %d" % (code, len(names))
                else:
                    for i, (a, b) in enumerate(names[:8]):
                        t = it.get_string(s, ("p", it.out, P(32 * i)))
                        if len(t) != b - a or not all(x == y or isinstance(x, dict) and isinstance(y, dict) and eq(s, x, y) for x, y in zip(t, text[a:b])):
                            bad = "name %d differs from the one written" % i
                            break
                    if not bad and end is not None and not (stream["pos"] <= end and all(isinstance(x, int) and x in (32, 9, 10, 13) for x in text[stream["pos"]:end]) and stream["bits"] == 0):
                        bad = "reading does not end before the next section"
                if bad and bad not in seen:
                    seen.add(bad)
                    found.append(("names", line_of(texts[0]), bad))
        except (Unknown, ValueError) as e:
            und.append("%s" % e)
    return und, cnt


def one_dim(path, shape, found):
    it, text, res, und = run(path, "dim", shape)
    cnt, seen = 0, set()

    def spec(ws):
        from reading import Line, Bad, BLANK, DIG
        w = ws[0]
        k = shape.index("=") + 1
        e = shape.index("\n") if "\n" in shape else len(w)
        ln = Line(w, text, k, e)
        ln.blanks()
        if ln.at({43}):
            ln.p += 1
        if ln.at({45}):
            return ("open",)
        if ln.end() or not ln.at(DIG):
            return ("open",) if ln.end() else ("bad",)
        at = ln.p
        v = ln.digits()
        if ln.p - at > 18:
            return ("open",)
        ln.blanks()
        return ("value", v, ln.end())
    for s, kind, code, vals, stream in res:
        cnt += 1
        try:
            for want, texts in outcomes([domains(s, text)], spec):
                bad = None
                if kind != "ret":
                    bad = "the reader ends with %s" % kind
                elif want[0] == "bad":
                    bad = "accepted, although it is not a number" if code == 0 else None
                elif want[0] == "value":
                    if code:
                        bad = "refused" if want[2] else None
                    elif not eq(s, it.asint(s, s.mem[it.out].cells[0][1], 64)[2], want[1]):
                        bad = "the number differs from the one written"
                if bad and bad not in seen:
                    seen.add(bad)
                    found.append(("dim", texts[0], bad))
        except (Unknown, ValueError) as e:
            und.append("%s" % e)
    return und, cnt


@vp.guard(1, quick=200)
def work(j):
    path, fn, shapes = j
    found, und, cnt = vp.PARTIAL, [], 0
    for shape in shapes:
        if fn == "names":
            u, n = one_names(path, shape, found)
        elif fn == "dim":
            u, n = one_dim(path, shape, found)
        else:
            u, n = c15.one(path, fn, shape, simple(images if fn[:4] == "maps" else fraction), found, judge=maps if fn[:4] == "maps" else points(fn == "cone"))
        und += u
        cnt += n
    return found, und, cnt


POINTS = ["1/-2 \1\n", "\1 -1/-3\n", "\3\3\3\n", "\1 \3\3 \1\n", "\1/2 -\1/3 \1\1/6\n", "1/2\3 1\n", "-1/\2 3\n", "\1/3 +\1\r\n\1 \1\r\n\r\nEND\nx", "(\3\3 1 \1\n", "(a) \1/4 \1/6 \n()0 1\n", "1/\n2 3\n", "1/ \n2 3\n", "1 2/\r\n3 4\n",
          "\1 \1\n\2\2\2\n1 \1\n", "\1\1 1/\3\n0 0\n", "1/-2 -3/-4 \1\n", "1 1/0\n", "/2 1\n", "1.5 2\n", "99999999999 1\n", "1/99999999999 1\n", "-\1\t\1\n  \n\n+\1 5\nRays\n1 1\n", "\1 -\3\1", "1 2 \3 4\n", "\1/5", "1 x\n", "2/4 \1\n1/3 1/9\n0 0",
          "1 - 2\n", "1 2 3\nEnd \nfoo", "\1/2 \1/2\nDIM=2\n", "\1/1 \1/7 \1/11 \1/13\n", "1/2 /3\n", "(a\n1 2\n", "-\1 -\1/2 0/3\n"]
MAPS = ["x x1 x1 x\n", "x1 x x\1\n", "\3\3 x\n", "x \3\3\n", "x1 x\n\1x-\1x1 x+\1\n", "x+\2 x1\n", "x\2\1 x\n", "-x1 \2x\r\n \r\nx1 \1-\1x\r\n\r\nEND\n", "x\n", "x x1 x\n", "x+-x1 x\n", "x- x\n", "- x\n", "x x1\nE\2\2\nx1 x\n", "x+x x1-x1+\1\n", "\1\1x1 +\1x",
        "1 -1\n", "x  \t x1 \nMaps\n", "x-\2x1 x\n", "2+x \1-x1+x\n", "x1+ x\n", "x1++x x\n", "\3 x x1\n", "99999999999x x\n", "x x1+\1\1\n+x1 -x\nNames\n", "x \2\2\n"]
NAMES = ["\2\2 y\n", "x \2\2\2\nMaps\n", "x\n\2\2\n\nVertices\n1 2\n", "a b\r\nc \t d\r\n\r\nEND\n", "x y Reduced Vertices\n", "\2 \2\2\n", "x1 x2 x3\n1 0 0\n", "x\3y z\nDIM=\1\n", "", "\2", "Na\2\2s x\n", "x \2\2 Rays:\n"]
DIM = ["\1", " \1\1\n", "\1\1 \nVertices\n", " \2\n", "\2\1\n", " \t\1\r\n1 2 3\n", "x\n", "+\1\n", "99999999999999999999999\n"]


def check(c):
    path = program()
    more = dict(conv=["\3\3\3\3\n", "1 \3\3\3 \1\n"], maps=["\3\3\3 x\n", "x+\2\2\2 x\n"]) if vp.THOROUGH else {}
    jobs = []
    for x in POINTS + more.get("conv", []):
        jobs.append((path, "conv", [("Vertices\n", " CONV_SECTION\r\n", "Reduced Vertices\n")[len(jobs) % 3] + x]))
        jobs.append((path, "cone", [("Rays\n", "CONE_SECTION:\n", "Reduced Rays \n")[len(jobs) % 3] + x]))
    for x in MAPS + more.get("maps", []):
        jobs.append((path, "maps", ["Maps\n" + x]))
        if "\3" not in x:
            jobs.append((path, "mapso", ["Maps\n" + x]))
    jobs += [(path, "names", ["Names\n" + x]) for x in NAMES] + [(path, "dim", [p + "=" + x]) for p in ("DIM", "Dimension ") for x in DIM]
    jobs.sort(key=lambda j: -sum((9 if ch == "\3" else 6 if ch == "\2" else 1) for ch in j[2][0] if ch < " "))
    lines = dict(conv="vertex", cone="ray", maps="map", mapso="map", names="names", dim="dimension")
    where = dict(conv="input_vertex.cpp", cone="input_vertex.cpp", maps="input_map.cpp", mapso="input_map.cpp", names="input_names.cpp", dim="input_dimension.cpp")
    drive(c, 9, jobs, lines, where, "on each path the values read are polynomials in the characters of the text; they must equal those of the reference reading, malformed text must be refused and well-formed text accepted", work)
    c.assumptions += ["ASCII text", "two variables, named x and x1 in either order (maps)", "lines with at most three characters of unknown kind and any digits; denominators given"]


if __name__ == "__main__":
    vp.main("C16", "abstract interpretation over symbolic characters, against a reference reading", check)
