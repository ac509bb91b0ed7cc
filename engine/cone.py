"""Cones with symbolic generators: reference facets and the meaning of rows, decided on the path of a state."""
import itertools, math
from absint import Unknown, P, const
from poly import add, scale, mul


def dot(a, b):
    r = P(0)
    for x, y in zip(a, b):
        r = add(r, mul(x, y))
    return r


def signs(it, st, forms):
    """-> [(state, (sign, ...))]: the signs of all forms, splitting the path where needed"""
    todo = [(st, ())]
    for f in forms:
        nxt = []
        for s, got in todo:
            g = it.fix(s, f)
            k = const(g)
            if k is not None:
                nxt.append((s, got + ((k > 0) - (k < 0),)))
                continue
            for s1, le in it.relation(s.copy(), g, "<="):
                if not const(le[2]):
                    nxt.append((s1, got + (1,)))
                    continue
                for s2, z in it.relation(s1.copy(), g, "=="):
                    nxt.append((s2, got + (0 if const(z[2]) else -1,)))
        todo = nxt
        if len(todo) > 400:
            raise Unknown("too many cases")
    return todo


def det(m):
    if not m:
        return P(1)
    r = P(0)
    for c, x in enumerate(m[0]):
        if x:
            r = add(r, mul(x, det([q[:c] + q[c + 1:] for q in m[1:]])), -1 if c % 2 else 1)
    return r


def normal(rows, d):
    """generalized cross product of d - 1 rows"""
    return [scale(det([r[:c] + r[c + 1:] for r in rows]), -1 if c % 2 else 1) for c in range(d)]


def facets(it, st, gens):
    """-> [(state, {tuple of incident generators}, full dimensional?)]: the facets of the cone of the generators"""
    d = len(gens[0])
    out = [(st, frozenset())]
    if d == 1:
        r = []
        for s, sg in signs(it, st, [g[0] for g in gens]):
            fs = set()
            for o in (1, -1):
                if all(x * o <= 0 for x in sg) and any(sg):
                    fs.add(tuple(k for k, x in enumerate(sg) if x == 0))
            r.append((s, frozenset(fs)))
        return r
    for sub in itertools.combinations(range(len(gens)), d - 1):
        n = normal([gens[k] for k in sub], d)
        nxt = []
        for s, fs in out:
            if any(set(sub) <= set(f) for f in fs):
                nxt.append((s, fs))
                continue
            for s2, sg in signs(it, s, [dot(n, g) for g in gens]):
                if any(sg) and (all(x <= 0 for x in sg) or all(x >= 0 for x in sg)):
                    nxt.append((s2, fs | {tuple(k for k, x in enumerate(sg) if x == 0)}))
                else:
                    nxt.append((s2, fs))
        out = nxt
    return out


def value(f, env):
    r = 0
    for m, c in f.items():
        for x in m:
            c *= env[x]
        r += c
    return r


def derived(st):
    """how the other symbols follow from the free ones: [(symbol, "gcd", forms) or (symbol, "quotient", (a, b))]"""
    out = []
    for g, prov in st.notes.get("gcd", {}).items():
        out.append((g, "gcd", [dict(t) for t in prov]))
    for k, (q, r) in st.divs.items():
        if len(k) == 3 and len(q) == 1:
            (m, c), = q.items()
            if c == 1 and len(m) == 1:
                out.append((m[0], "quotient", (dict(k[0]), dict(k[1]))))
    return out


def close(env, rules):
    """values for the symbols that follow from those in env; None: there are none"""
    env, rest = dict(env), rules
    while rest:
        nxt = []
        for r in rest:
            s, kind, fs = r
            if s in env:
                continue
            if not all(x in env for f in fs for m in f for x in m):
                nxt.append(r)
                continue
            vs = [value(f, env) for f in fs]
            if kind == "gcd":
                env[s] = math.gcd(*vs) if vs else 1
            elif vs[1] == 0:
                return None
            else:
                env[s] = abs(vs[0]) // abs(vs[1]) * (1 if (vs[0] < 0) == (vs[1] < 0) else -1)
        if len(nxt) == len(rest):
            break
        rest = nxt
    return env


def model(st, syms):
    """integers for the symbols that agree with everything known about them on this path, or None"""
    ranges = [range(st.poly.bounds[x][0], st.poly.bounds[x][1] + 1) for x in syms]
    direct = [f for f in st.poly.cons if all(x in syms for m in f for x in m)]
    others = [f for f in st.poly.cons if f not in direct]
    rules = derived(st)
    n = 1
    for r in ranges:
        n *= len(r)
    if n > 500000:
        raise Unknown("too many values")
    for t in itertools.product(*ranges):
        env = dict(zip(syms, t))
        if not all(value(f, env) >= 0 for f in direct):
            continue
        full = close(env, rules)
        if full is None:
            continue
        if any(not st.poly.bounds[x][0] <= v <= st.poly.bounds[x][1] for x, v in full.items() if x in st.poly.bounds):
            continue
        if all(value(f, full) >= 0 for f in others if all(x in full for m in f for x in m)):
            return env
    return None
