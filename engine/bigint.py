"""C02, C03, C04: operations of the arbitrary precision integer, decided over all operand
values of a bounded number of words (see DESIGN.md)."""
import itertools
import vp
from absint import Program, Interp, State, I, srange, where, Unknown
from poly import P, sym, add, addc, scale, mul, const, show

BIN = {"mul": "*", "div": "/", "add": "+", "sub": "-", "mod": "%"}
CMP = {"eq": "==", "ne": "!=", "lt": "<", "gt": ">", "le": "<=", "ge": ">="}
INTS = {"i16": ("int16_t", 16, True), "i32": ("int32_t", 32, True), "i64": ("int64_t", 64, True),
        "u16": ("uint16_t", 16, False), "u32": ("uint32_t", 32, False), "u64": ("uint64_t", 64, False)}
B = 1 << 64
ILO, IHI = srange(32)
import os
import sys
THOROUGH = os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv


def wrappers():
    w = ['#include "big_integer.h"', "#include <cstdint>", "#include <new>", "using panda::BigInteger;", 'extern "C" {']
    for n, o in BIN.items():
        w.append("void vp_assign_%s(BigInteger* a, const BigInteger* b, BigInteger* out) { BigInteger& r = (*a %s= *b); new (out) BigInteger(r); }" % (n, o))
        w.append("void vp_binary_%s(BigInteger* a, const BigInteger* b, BigInteger* out) { new (out) BigInteger(*a %s *b); }" % (n, o))
    w.append("void vp_neg(BigInteger* a, BigInteger* out) { new (out) BigInteger(-*a); }")
    w.append("void vp_abs(BigInteger* a, BigInteger* out) { new (out) BigInteger(abs(*a)); }")
    w.append("int vp_toint(BigInteger* a) { return *a; }")
    w.append("void vp_default(BigInteger* out) { new (out) BigInteger(); }")
    for n, o in CMP.items():
        w.append("bool vp_cmpi_%s(BigInteger* a, int b) { return *a %s b; }" % (n, o))
        w.append("bool vp_cmps_%s(BigInteger* a, const BigInteger* b) { return *a %s *b; }" % (n, o))
    for n, (t, _, _) in INTS.items():
        w.append("void vp_from_%s(%s v, BigInteger* out) { new (out) BigInteger(v); }" % (n, t))
    w.append("}")
    return "\n".join(w)


class Layout:
    def __init__(self, prog):
        cls = [c for c in prog.classes.values() if c["name"] == "BigInteger" and not c["enum"]]
        if not cls:
            raise vp.Broken("class BigInteger not found")
        c = cls[0]
        self.size = c["size"]
        vec = [m for m in c["members"] if m[3].startswith("vector")]
        sg = [m for m in c["members"] if not m[3].startswith("vector")]
        if len(vec) != 1 or len(sg) != 1:
            raise vp.Broken("representation of BigInteger is not a sign and a vector of words: %s" % c["members"])
        self.vec = vec[0][1]
        self.sign = sg[0][1]
        self.signsize = sg[0][2]
        en = [c for c in prog.classes.values() if c["enum"] and any(m[0].lower().startswith("pos") for m in c["members"])]
        if not en:
            raise vp.Broken("sign enumeration not found")
        self.pos = [m[1] for m in en[0]["members"] if m[0].lower().startswith("pos")][0]
        self.neg = [m[1] for m in en[0]["members"] if m[0].lower().startswith("neg")][0]


class Big:
    """an operand of the analysis: words are symbols"""
    def __init__(self, st, lay, name, words, sgn):
        self.words = []
        for i in range(words):
            lo = 1 if (i == words - 1 and (words > 1 or sgn < 0)) else 0
            self.words.append(st.poly.new("%s%d" % (name, i), lo, B - 1))
        self.sgn = sgn
        buf = st.alloc(8 * words, name=name + "words")
        for i, w in enumerate(self.words):
            st.mem[buf].cells[8 * i] = (8, I(64, w))
        o = st.alloc(lay.size, name=name)
        st.mem[o].cells[lay.sign] = (lay.signsize, I(8 * lay.signsize, P(lay.pos if sgn > 0 else lay.neg)))
        st.mem[o].cells[lay.vec] = (8, ("p", buf, P(0)))
        st.mem[o].cells[lay.vec + 8] = (8, ("p", buf, P(8 * words)))
        st.mem[o].cells[lay.vec + 16] = (8, ("p", buf, P(8 * words)))
        self.ptr = ("p", o, P(0))
        self.value = value(self.words, sgn)


def value(words, sgn):
    v = P(0)
    for i, w in enumerate(words):
        v = add(v, w, sgn * B ** i)
    return v


def read(it, s, lay, ptr):
    """-> list of (state, sign, words) of a stored BigInteger; raises Unknown"""
    o = s.mem[ptr[1]]

    def cell(off, n):
        c = o.cells.get(off)
        if c is None or c[0] != n:
            raise Unknown("result not determined")
        return c[1]
    sg = cell(lay.sign, lay.signsize)
    k = const(sg[2]) if sg[0] == "i" else 0
    if k not in (lay.pos, lay.neg):
        raise Unknown("sign not determined")
    b, e = cell(lay.vec, 8), cell(lay.vec + 8, 8)
    if b[0] != "p" or e[0] != "p" or b[1] != e[1]:
        raise Unknown("words not determined")
    n0, n1 = const(b[2]), const(e[2])
    if n0 is None or n1 is None or (n1 - n0) % 8:
        raise Unknown("number of words not determined")
    buf = s.mem[b[1]]
    states = [(s, [])]
    for off in range(n0, n1, 8):
        nxt = []
        for st, ws in states:
            c = st.mem[b[1]].cells.get(off)
            if c is None or c[0] != 8:
                if st.mem[b[1]].zero and c is None:
                    nxt.append((st, ws + [P(0)]))
                    continue
                raise Unknown("word not determined")
            v = c[1] if c[1][0] == "i" else I(64, P(0))
            for s2, p in it.norm(st, v, False):
                nxt.append((s2, ws + [p]))
        states = nxt
    return [(st, 1 if k == lay.pos else -1, ws) for st, ws in states]


def check_value(it, s, lay, ptr, want, what="result"):
    """want: exact value (form).  Returns None or (kind, text)"""
    try:
        rs = read(it, s, lay, ptr)
    except Unknown as e:
        return ("unknown", str(e))
    for st, sg, ws in rs:
        if not st.poly.feasible():
            continue
        if not ws:
            return ("no words", "%s has no words" % what)
        v = value(ws, sg)
        d = add(v, want, -1)
        if not (const(d) == 0 or st.poly.entails_eq(d)):
            return ("wrong " + what, "%s %s is not the exact value %s" % (what, show(v), show(want)))
        # canonical: no leading zero word, zero is positive
        if len(ws) > 1 and st.poly.feasible([scale(ws[-1], -1)]):
            return ("not canonical", "%s may have a leading zero word" % what)
        if sg < 0 and len(ws) == 1 and st.poly.feasible([scale(ws[0], -1)]):
            return ("negative zero", "%s may be a negative zero" % what)
    return None


def run(c, groups):
    files = [f for f in vp.units() if vp.os.path.basename(f).startswith("big_integer")]
    prog = Program(vp.link([vp.harness(wrappers())], [vp.os.path.basename(f) for f in files]))
    lay = Layout(prog)
    tot = dict(obligations=0, discharged=0, paths=0, wrappers=0, delegated=0)
    fns = set()
    samples = []

    def analyse(name, setup, judge, label, handlers=None, need=True, limit=6000):
        st = State()
        args, ctx = setup(st)
        it = Interp(prog, handlers=handlers, max_states=limit, max_steps=30000)
        outs = it.call_fn(st, name, args)
        tot["wrappers"] += 1
        tot["paths"] += len(outs)
        tot["obligations"] += it.obligations
        tot["discharged"] += it.discharged
        fns.update(prog.fn[f]["dem"] for f, _ in it.visited if prog.fn[f]["project"])
        for kind, w, s in it.ub:
            if s.poly.feasible():
                c.violation("%s:%s" % (label[0], kind), w, "%s: %s is possible" % (label[0], kind))
        live = 0
        for o in outs:
            if o[0] == "delegated":
                tot["delegated"] += 1
                live += 1
                bad = judge(it, o, ctx)
                if bad:
                    c.violation("%s:%s" % (label[0], bad[0]), last(o[1], name), "%s: %s" % (" ".join(label), bad[1]))
                continue
            if o[0] == "unknown":
                c.undecided.append("%s: %s" % (" ".join(label), o[2]))
                continue
            if not o[1].poly.feasible():
                continue
            live += 1
            tot["obligations"] += 1
            bad = judge(it, o, ctx)
            if bad and bad[0] == "unknown":
                c.undecided.append("%s: %s" % (" ".join(label), bad[1]))
            elif bad:
                c.violation("%s:%s" % (label[0], bad[0]), last(o[1], name), "%s: %s" % (" ".join(label), bad[1]))
            else:
                tot["discharged"] += 1
        if not live and need:
            c.undecided.append("no path of %s could be analysed: %s" % (label, c.undecided[-1:]))
            return
        if len(samples) < 8:
            samples.append("%s: %d paths" % (" ".join(label), len(outs)))

    def last(s, name):
        t = [w for w, _ in s.trace if "/src/" in w]
        return t[-1] if t else name

    maxw = 4 if THOROUGH else 3
    shapes = [(k, s) for k in range(1, maxw + 1) for s in (1, -1)]
    sname = lambda sh: "%s%d word%s" % ("-" if sh[1] < 0 else "+", sh[0], "s" if sh[0] > 1 else "")

    def single(it, s, po):
        try:
            rs = read(it, s, lay, po)
        except Unknown as e:
            return ("unknown", str(e))
        out = []
        for st, sg, ws in rs:
            if not st.poly.feasible():
                continue
            v = value(ws, sg)
            bad = check_value(it, st, lay, po, v)
            if bad:
                return bad
            out.append((st, v))
        return out

    def quotient(it, s, po, av, bv):
        r = single(it, s, po)
        if isinstance(r, tuple):
            return r
        for st, v in r:
            rem = add(av, mul(v, bv), -1)
            for sb in (1, -1):
                for sa in (1, -1):
                    p = st.poly.copy()
                    p.assume(addc(bv, -1) if sb > 0 else addc(scale(bv, -1), -1))
                    p.assume(av if sa > 0 else addc(scale(av, -1), -1))
                    if p.empty or not p.feasible():
                        continue
                    rr = scale(rem, sa)
                    if not (p.entails(rr) and p.entails(addc(add(scale(bv, sb), rr, -1), -1))):
                        return ("wrong result", "the result is not the truncated quotient")
        return None

    def remainder(it, s, po, av, bv):
        r = single(it, s, po)
        if isinstance(r, tuple):
            return r
        for st, v in r:
            if not st.poly.entails(v) or not st.poly.entails(addc(add(bv, v, -1), -1)):
                return ("wrong result", "the remainder is not in the range from zero to the modulus")
            d = add(av, v, -1)
            ok = False
            for q in [P(0)] + [x[0] for x in st.divs.values()]:
                for k in (-1, 0, 1):
                    for sg in (1, -1):
                        if st.poly.entails_eq(add(d, mul(addc(scale(q, sg), k), bv), -1)):
                            ok = True
            if not ok:
                return ("wrong result", "the remainder is not congruent to the dividend")
        return None
    for n in ("add", "sub") if "sum" in groups else ():
        for form in ("assign", "binary"):
            for sa in shapes:
                for sb in shapes + ["same"]:
                    def setup(st, sa=sa, sb=sb):
                        a = Big(st, lay, "a", *sa)
                        b = a if sb == "same" else Big(st, lay, "b", *sb)
                        out = st.alloc(lay.size, name="out")
                        return [a.ptr, b.ptr, ("p", out, P(0))], (a, b, ("p", out, P(0)))

                    def judge(it, o, ctx, n=n, form=form, same=sb == "same"):
                        kind, s = o[0], o[1]
                        a, b, po = ctx
                        if kind != "ret":
                            return ("does not return", "ends by %s" % kind)
                        want = add(a.value, b.value, 1 if n == "add" else -1)
                        r = check_value(it, s, lay, po, want)
                        if not r and form == "assign":
                            r = check_value(it, s, lay, a.ptr, want, "left operand")
                        if not r and form == "binary":
                            r = check_value(it, s, lay, a.ptr, a.value, "left operand")
                        if not r and not same:
                            r = check_value(it, s, lay, b.ptr, b.value, "right operand")
                        return r
                    analyse("vp_%s_%s" % (form, n), setup, judge,
                            ("a %s b" % (BIN[n] + "=" if form == "assign" else BIN[n]), "(%s, %s)" % (sname(sa), sb if sb == "same" else sname(sb))))
    # products, quotients and remainders: values small enough for the machine integer short cut
    def cut(it, st, ins, args, dem):
        return [("delegated", st, None)]
    for n in ("mul", "div", "mod") if "product" in groups else ():
        for form in ("assign", "binary"):
            for sa in (1, -1):
                for sb in (1, -1, "same"):
                    def setup(st, sa=sa, sb=sb):
                        a = Big(st, lay, "a", 1, sa)
                        b = a if sb == "same" else Big(st, lay, "b", 1, sb)
                        out = st.alloc(lay.size, name="out")
                        return [a.ptr, b.ptr, ("p", out, P(0))], (a, b, ("p", out, P(0)))

                    def judge(it, o, ctx, n=n, form=form, same=sb == "same"):
                        kind, s = o[0], o[1]
                        a, b, po = ctx
                        av, bv = a.value, b.value
                        if kind == "delegated":
                            # the general algorithm has to start from the unchanged operands
                            r = None
                            if form == "assign":
                                r = check_value(it, s, lay, a.ptr, av, "left operand at the start of the general algorithm")
                            if not r and not same:
                                r = check_value(it, s, lay, b.ptr, bv, "right operand at the start of the general algorithm")
                            return r
                        if kind == "throw":
                            bad = {"mul": [[]], "div": [[addc(bv, -1)], [addc(scale(bv, -1), -1)]], "mod": [[addc(bv, -1)]]}[n]
                            for cs in bad:
                                if s.poly.feasible(cs):
                                    return ("unexpected exception", "throws although the result is defined")
                            return None
                        if kind != "ret":
                            return ("does not return", "ends by %s" % kind)
                        if n == "mul":
                            r = check_value(it, s, lay, po, mul(av, bv))
                            if not r and form == "assign":
                                r = check_value(it, s, lay, a.ptr, mul(av, bv), "left operand")
                        elif n == "div":
                            if s.poly.feasible([bv, scale(bv, -1)]):
                                return ("missing exception", "returns for a zero divisor")
                            r = quotient(it, s, po, av, bv)
                        else:
                            if s.poly.feasible([scale(bv, -1)]):
                                return ("missing exception", "returns for a modulus that is not positive")
                            r = remainder(it, s, po, av, bv)
                        if not r and form == "binary":
                            r = check_value(it, s, lay, a.ptr, av, "left operand")
                        if not r and not same:
                            r = check_value(it, s, lay, b.ptr, bv, "right operand")
                        return r
                    analyse("vp_%s_%s" % (form, n), setup, judge,
                            ("a %s b" % (BIN[n] + "=" if form == "assign" else BIN[n]),
                             "(%s, %s)" % (sname((1, sa)), sb if sb == "same" else sname((1, sb)))),
                            handlers={"^__cxa_begin_catch$": cut}, limit=400)

    # negation, absolute value
    for n in ("neg", "abs") if "sum" in groups else ():
        for sa in shapes:
            def setup(st, sa=sa):
                a = Big(st, lay, "a", *sa)
                out = st.alloc(lay.size, name="out")
                return [a.ptr, ("p", out, P(0))], (a, ("p", out, P(0)))

            def judge(it, o, ctx, n=n, sa=sa):
                a, po = ctx
                if o[0] != "ret":
                    return ("does not return", "ends by %s" % o[0])
                want = scale(a.value, -1) if n == "neg" or sa[1] < 0 else a.value
                return check_value(it, o[1], lay, po, want) or check_value(it, o[1], lay, a.ptr, a.value, "operand")
            analyse("vp_" + n, setup, judge, ("-a" if n == "neg" else "abs(a)", "(%s)" % sname(sa)))
    # conversion to int
    for sa in shapes if "compare" in groups else ():
        def setup(st, sa=sa):
            a = Big(st, lay, "a", *sa)
            return [a.ptr], a

        def judge(it, o, a):
            s = o[1]
            inr = [addc(a.value, -ILO), addc(scale(a.value, -1), IHI)]
            if o[0] == "throw":
                return ("unexpected exception", "throws although the value fits into int") if s.poly.feasible(inr) else None
            if o[0] != "ret":
                return ("does not return", "ends by %s" % o[0])
            if not all(s.poly.entails(k) for k in inr):
                return ("missing exception", "returns although the value does not fit into int")
            for s2, v in it.norm(s, o[2], True):
                if s2.poly.feasible() and not s2.poly.entails_eq(add(v, a.value, -1)):
                    return ("wrong result", "int value differs from the number")
            return None
        analyse("vp_toint", setup, judge, ("conversion to int", "(%s)" % sname(sa)))
    # comparisons
    rels = {"eq": (lambda d: [[d, scale(d, -1)]]), "ne": (lambda d: [[addc(d, -1)], [addc(scale(d, -1), -1)]]),
            "lt": (lambda d: [[addc(scale(d, -1), -1)]]), "gt": (lambda d: [[addc(d, -1)]]),
            "le": (lambda d: [[scale(d, -1)]]), "ge": (lambda d: [[d]])}
    opp = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}
    for n, o in CMP.items() if "compare" in groups else ():
        for sa in shapes:
            for sb in ["int"] + shapes + ["same"]:
                def setup(st, sa=sa, sb=sb):
                    a = Big(st, lay, "a", *sa)
                    if sb == "int":
                        b = st.poly.new("b", ILO, IHI)
                        return [a.ptr, I(32, b)], (a.value, b)
                    b = a if sb == "same" else Big(st, lay, "b", *sb)
                    return [a.ptr, b.ptr], (a.value, b.value)

                def judge(it, o, ctx, n=n):
                    s = o[1]
                    a, b = ctx
                    if o[0] != "ret":
                        return ("does not return", "ends by %s" % o[0])
                    d = add(a, b, -1)
                    for val in (0, 1):
                        p = s.poly.copy()
                        p.assume_eq(addc(o[2][2], -val))
                        if p.empty:
                            continue
                        for cs in rels[opp[n] if val else n](d):
                            if p.feasible(cs):
                                return ("wrong result", "comparison yields %s although the opposite holds" % bool(val))
                    return None
                analyse("vp_cmp%s_%s" % ("i" if sb == "int" else "s", n), setup, judge,
                        ("a %s %s" % (o, "int" if sb == "int" else "b"), "(%s, %s)" % (sname(sa), sb if isinstance(sb, str) else sname(sb))))
    # construction
    for n, (t, w, sg) in INTS.items() if "compare" in groups else ():
        def setup(st, w=w, sg=sg):
            lo, hi = srange(w) if sg else (0, (1 << w) - 1)
            v = st.poly.new("v", lo, hi)
            out = st.alloc(lay.size, name="out")
            return [I(w, v), ("p", out, P(0))], (v, ("p", out, P(0)))

        def judge(it, o, ctx):
            if o[0] != "ret":
                return ("does not return", "ends by %s" % o[0])
            return check_value(it, o[1], lay, ctx[1], ctx[0])
        analyse("vp_from_" + n, setup, judge, ("BigInteger(%s)" % t, ""))

    def setup(st):
        out = st.alloc(lay.size, name="out")
        return [("p", out, P(0))], ("p", out, P(0))

    def judge(it, o, po):
        return check_value(it, o[1], lay, po, P(0)) if o[0] == "ret" else ("does not return", "")
    if "compare" in groups:
        analyse("vp_default", setup, judge, ("BigInteger()", ""))

    c.coverage = {"explanation": "abstract interpretation (affine forms over polyhedra; trace partitioning by sign, number of words and branch) of the public "
                  "operations of the arbitrary precision integer; rule: every returning path entails that the canonical result equals the exact value",
                  "operand_shapes": len(shapes), "max_words": maxw,
                  "wrappers_analysed": tot["wrappers"], "paths": tot["paths"], "paths_delegated_to_general_algorithm": tot["delegated"],
                  "obligations": tot["obligations"], "discharged": tot["discharged"], "undecided_paths": len(c.undecided),
                  "project_functions": sorted(fns), "samples": samples}
    c.assumptions += ["operands are canonical (no leading zero word, zero is positive) and have at most %d words" % maxw,
                      "memory allocation does not fail"]
    if "product" in groups:
        c.assumptions.append("the general multiplication and division algorithms are not analysed (see DESIGN.md)")


GROUPS = {"C02": {"sum"}, "C03": {"compare"}, "C04": {"product"}}


def main(pid):
    vp.main(pid, "abstract interpretation over polyhedra", lambda c: run(c, GROUPS[pid]))
