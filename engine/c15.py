"""C15: a line of a constraint section is read as the constraint it denotes, or refused."""
from concurrent.futures import ProcessPoolExecutor
import vp
from absint import Unknown
from poly import add, scale
from words import outcomes, domains
from reading import program, run, section, constraint_reader

D = "\1"


def unpack(s, v):
    """rows of the flat output"""
    from absint import const
    out, k = [], 1
    for _ in range(const(v[0])):
        n = const(v[k])
        out.append(v[k + 1:k + 1 + n])
        k += 1 + n
    return out


def line_of(t):
    t = t.split("\\x0a", 1)[-1]
    return t[:-4] if t.endswith("\\x0a") else t


def eq(s, a, b):
    d = add(a, b, -1)
    if s.poly.entails_eq(d):
        return True
    if any(not v.startswith("c") for m in d for v in m):
        raise Unknown("a value that is not a polynomial in the characters")
    return False


def judge(s, r, want):
    """None or what is wrong"""
    kind, code, vals, stream = r
    if kind != "ret":
        return "the reader ends with %s" % kind
    if want[0] == "open":
        return None
    if want[0] == "bad":
        return "accepted, although it must be refused (%s)" % want[1] if code == 0 else None
    _, strict, rows, end = want
    if code:
        return "refused" if strict else None
    got = unpack(s, vals)
    if len(got) != len(rows):
        return "%d rows are read instead of %d" % (len(got), len(rows))
    for g, w in zip(got, rows):
        if len(g) != len(w):
            return "a row of length %d is read instead of %d" % (len(g), len(w))
        for k, (x, y) in enumerate(zip(g, w)):
            if not eq(s, x, y):
                return "entry %d of a row differs from the one written" % k
    if end is not None and stream["pos"] != end:
        return "reading ends at position %d instead of %d (next section)" % (stream["pos"], end)
    return None


@vp.guard(1, quick=200)
def job(j):
    path, fn, shapes, reader = j
    found, und, cnt = vp.PARTIAL, [], 0
    for shape in shapes:
        u, n = one(path, fn, shape, reader, found)
        und += u
        cnt += n
    return found, und, cnt


def one(path, fn, shape, reader, found, judge=judge):
    it, text, res, und = run(path, fn, shape)
    spec = section(text, reader)
    cnt, seen = 0, set()
    for s, *r in res:
        cnt += 1
        try:
            for want, texts in outcomes([domains(s, text)], spec):
                bad = judge(s, r, want)
                if bad and bad not in seen:
                    seen.add(bad)
                    found.append((fn, line_of(texts[0]), bad))
        except (Unknown, ValueError) as e:
            und.append("%s" % e)
    for kind, where, s in it.ub:
        if s.poly.feasible():
            t = outcomes([domains(s, text)], lambda v: None)[0][1][0]
            found.append((fn, line_of(t), "%s at %s" % (kind, where)))
    return und, cnt


def drive(c, fns, jobs, lines, where, rule, rerun=None):
    """runs the jobs and reports"""
    n, seen, texts = 0, {}, 0
    with ProcessPoolExecutor(8) as ex:
        for (j, (found, und, k)) in zip(jobs, ex.map(rerun or job, jobs)):
            n += k
            texts += len(j[2])
            for fn, text, bad in found:
                key = (fn, bad.split(" (")[0])
                if seen.setdefault(key, 0) < 2:
                    seen[key] += 1
                    what = "%s '%s': %s" % (lines[fn], text, bad)
                    c.violation(what[:150], "src/" + where[fn], what)
            for u in und:
                if u not in c.undecided:
                    c.undecided.append(u)
    c.coverage.update(functions=fns, texts=texts, paths=n, undecided_paths=len(c.undecided), rule=rule)
    if n == 0:
        raise vp.Broken("%d paths decided: %s" % (n, c.undecided[:3]))


NAMED = ["\2x \2x <= \1\n", "-x x1 +\1x <= 1", "- x1 - \1x1 >= 1\n", "-\1x + x1 x <= \1\n", "x \3\3 x1 <= 1", "\3\3 + x1 <= 2\n", "x <= \3\3\n", "x <= \3\3", "-x <= 1\3\3\n", "x \3\3 1\n", "x + x1 \2= \1\n", "\1x + \1x1 >= -\1\1\n", "x\3x1 <= 1", "x - x1 \2\2 0\n",
         "(\3\3 x <= 1\n", "(a\3) -\1x <= \1\n", "x <= \3\nx1 <= 2\n", "x <= 1 \n\2\2\2\nx1 <= 2\n", "\3x <= 1\r\n \t\nx1 >= \1\1\r\n\r\nEND\nfoo", "x + \2 <= 1\nVertices\n1 1\n", "-\1x1 <= \1\1\1\n x >= -\1\n",
         "x1 \3 \2x >= 3", "\1\1x1 - \1x >= +\1 \n", "+\1x -\1x1 <= -\1\nMaps\n", "x1 + x1 <= 1", "x <= 99999999999\n", "x <= -\nx1 <= 3\n", "x +\nx1 <= 3\n", "x <= -\3\n", "- x + \1 x1 >= \1",
         "x <= x1 + 1", "x >= x1 2\n", "x + 1 <= 3\n", "<= 1 x\n", "x <= 1 <=\n", "x\t>=\t\1\t\r\nx1 <= \1", "\1x <= \1 \2", "x x1 <= \1\n\n\n  \nx <= 1\nEnd\n", "x == 1\n", "x <= 1\n1 0 -\1\n", "x1 >= 0\nx >= 0\n2 \1 -1\nDIM=2\n",
         "()x <= 1\n", "(a b\3 c) x <= 1", "x >= 1 \n(\2)\n", "0x + \1x1 <= 2"]
RAW = ["\3\3\3\n", "1 \3\3 2\n", "\1 \1\1 -\1\n+\1 0 \1\n", "(\3) 1 \1\n", "1 \1 <= \3\3\n", "1 2 \3= \1\n", "1 -\1 >= -\1\r\n2 \1 <= +\1 \r\n\r\nEND\n1 1", "1 \1 \2 \1\n", "\1\3\1 >= 1\n", "1 1 1\n\2\2\2\n0 1 \1\n",
       "<= \1\n", "1 2 <=\n", "1 2 <= 3 4\n", "1 <= 2 <= 3", "1.5 2\n", "99999999999 1\n", "1 \1 \1\nNames\nx x1\n", "-\1\t+\1\n \r\n\n0 0\nInequalities:\n", "(a\2b\n", "1 0 \1", "\1 - 1 2", "1 2 = \1\n", "1 2 == \1\n", "1 2 < \1\n", "1 2 =\1\n"]


def other(s):
    """the same with an equation in place of an inequality"""
    return s.replace("<=", "=").replace(">=", "=")


def check(c):
    path = program()
    jobs = []
    more = ["x \3\3\3x1 <= 1", "x <= \3\3\3\n", "\3\3\3 <= 2\n", "x - x1 \3\3\3 1\n", "\3\3x1 \2= \3\n", "(\3\3\3 x <= 1\n"] if vp.THOROUGH else []
    rmore = ["\3\3\3\3\n", "1 \3\3\3 2\n", "1 \1 \2\2\3\1\n"] if vp.THOROUGH else []
    for x in NAMED + more:
        jobs.append((path, "ieq", ["Inequalities\n" + x], ("<", True)))
        jobs.append((path, "eq", [" EQUATIONS:\r\n" + (other(x) if jobs.__len__() % 3 else x)], ("=", True)))
    for x in [x for x in NAMED if "\n" not in x[:-1]][::2]:
        jobs.append((path, "ieqo", ["Inequalities\n" + x], ("<", True)))
    for x in RAW + rmore:
        jobs.append((path, "rawieq", ["Reduced Inequalities\n" + x], ("<", False)))
        jobs.append((path, "raweq", ["Equations\n" + (other(x) if jobs.__len__() % 3 else x)], ("=", False)))
    for x in ("1 2 -\1\n0 \1 1\n", "1 \1 <= 3\n", "\2 \1 1\n"):
        jobs.append((path, "ieq", ["Inequalities\n" + x], ("<", True)))
    jobs.sort(key=lambda j: -sum((9 if ch == "\3" else 6 if ch == "\2" else 1) for ch in j[2][0] if ch < " "))
    lines = {"ieq": "inequality", "ieqo": "inequality", "eq": "equation", "rawieq": "inequality without names", "raweq": "equation without names"}
    where = dict.fromkeys(("ieq", "ieqo", "eq"), "input_constraint_named_variables.cpp")
    where.update(dict.fromkeys(("rawieq", "raweq"), "input_constraint_unnamed_variables.cpp"))
    drive(c, 8, jobs, lines, where, "on each path the rows are polynomials in the characters of the text; they must equal the rows of the reference reading of the text, malformed text must be refused and well-formed text accepted", work)
    c.assumptions += ["ASCII text", "two variables, named x and x1 in either order, or none", "lines with at most three characters of unknown kind and any digits"]


def work(j):
    path, fn, shapes, (want, names) = j
    return job((path, fn, shapes, constraint_reader(want, names)))


if __name__ == "__main__":
    vp.main("C15", "abstract interpretation over symbolic characters, against a reference reading", check)
