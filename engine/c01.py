"""C01: checked 64 bit arithmetic is exact or throws.

For every operation of SafeInteger a wrapper is compiled against /repo's header and the
wrapper's intermediate representation is interpreted over affine forms and polyhedra:
both operands are symbols ranging over all 64 bit values, once as distinct objects and once
as the same object.  On every returning path the stored value must be *entailed* to be the
exact result and no operation may leave its machine range; a path that throws must be
infeasible for operands whose exact result is representable (and defined)."""
import vp
from absint import Program, Interp, State, I, srange, where
from poly import P, sym, add, addc, scale, mul, const, show

H = """
#include "safe_integer.h"
using panda::SafeInteger;
extern "C" {
%s
}
"""
BIN = {"mul": "*", "div": "/", "add": "+", "sub": "-", "mod": "%"}
CMP = {"eq": "==", "ne": "!=", "lt": "<", "gt": ">", "le": "<=", "ge": ">="}
INTS = {"i16": ("int16_t", 16, True), "i32": ("int32_t", 32, True), "i64": ("int64_t", 64, True),
        "u16": ("uint16_t", 16, False), "u32": ("uint32_t", 32, False), "u64": ("uint64_t", 64, False)}
LO, HI = srange(64)


def wrappers():
    w = []
    for n, o in BIN.items():
        w.append("void vp_assign_%s(SafeInteger* a, const SafeInteger* b, SafeInteger* out) { SafeInteger& r = (*a %s= *b); *out = r; }" % (n, o))
        w.append("void vp_binary_%s(SafeInteger* a, const SafeInteger* b, SafeInteger* out) { *out = *a %s *b; }" % (n, o))
    w.append("void vp_neg(SafeInteger* a, SafeInteger* out) { *out = -*a; }")
    w.append("void vp_abs(SafeInteger* a, SafeInteger* out) { *out = abs(*a); }")
    w.append("int vp_toint(SafeInteger* a) { return *a; }")
    for n, o in CMP.items():
        w.append("bool vp_cmpi_%s(SafeInteger* a, int b) { return *a %s b; }" % (n, o))
        w.append("bool vp_cmps_%s(SafeInteger* a, const SafeInteger* b) { return *a %s *b; }" % (n, o))
    for n, (t, _, _) in INTS.items():
        w.append("void vp_from_%s(%s v, SafeInteger* out) { *out = SafeInteger(v); }" % (n, t))
    return H % "\n".join(w)


def in_range(p, lo=LO, hi=HI):
    return [addc(p, -lo), addc(scale(p, -1), hi)]


def congruent(s, a, v, b):
    """a - v is a multiple of b: a - v - k*b == 0 for k among the quotients seen (+-1) and 0"""
    d = add(a, v, -1)
    cands = [P(0)]
    for key, qr in s.divs.items():
        cands.append(qr[0])
    for q in cands:
        for k in (-1, 0, 1):
            for sg in (1, -1):
                e = add(d, mul(addc(scale(q, sg), k), b), -1)
                if s.poly.entails_eq(e):
                    return True
    return False

def signed(s, v):
    if all(s.poly.entails(k) for k in in_range(v)):
        return v
    for t in (1 << 64, -(1 << 64)):
        w = addc(v, t)
        if all(s.poly.entails(k) for k in in_range(w)):
            return w
    return v



def run(c):
    prog = Program(vp.link([vp.harness(wrappers())], []))
    tot = {"functions": set(), "paths": 0, "obligations": 0, "discharged": 0, "wrappers": 0}
    samples = []

    def analyse(name, setup, judge, label):
        st = State()
        args, ctx = setup(st)
        it = Interp(prog)
        outs = it.call_fn(st, name, args)
        tot["wrappers"] += 1
        tot["paths"] += len(outs)
        tot["obligations"] += it.obligations
        tot["discharged"] += it.discharged
        tot["functions"] |= {prog.fn[f]["dem"] for f, _ in it.visited if prog.fn[f]["project"]}
        for kind, w, s in it.ub:
            c.violation("%s:%s" % (label, kind), w, "%s: %s is possible" % (label, kind))
        live = 0
        for o in outs:
            if o[0] == "unknown":
                c.undecided.append("%s: %s" % (label, o[2]))
                continue
            if not o[1].poly.feasible():
                continue
            live += 1
            tot["obligations"] += 1
            bad = judge(o, ctx)
            if bad:
                c.violation("%s:%s" % (label, bad[0]), last(o[1], prog, name), "%s: %s" % (label, bad[1]))
            else:
                tot["discharged"] += 1
        if not live:
            c.undecided.append("no path of %s could be analysed: %s" % (label, c.undecided[-1:]))
            return
        if len(samples) < 6:
            samples.append("%s: %d paths (%s)" % (label, len(outs), ", ".join(sorted({o[0] for o in outs}))))

    def last(s, prog, name):
        t = [w for w, _ in s.trace]
        return s.notes.get("throw_at") or (t[-1] if t else name)

    def cell(st, name, p):
        o = st.alloc(8, name=name)
        st.mem[o].cells[0] = (8, I(64, p))
        return ("p", o, P(0))

    def stored(s, ptr):
        v = s.mem[ptr[1]].cells.get(0)
        if not v or v[0] != 8 or v[1][0] not in ("i", "zero"):
            return None
        if v[1][0] == "zero":
            return P(0)
        return v[1][2]

    def equal64(s, v, want):
        """v is congruent to the wanted (representable) value modulo 2^64"""
        if v is None:
            return False
        d = add(v, want, -1)
        k = const(d)
        if k is not None:
            return k % (1 << 64) == 0
        if s.poly.entails_eq(d):
            return True
        for t in (1 << 64, -(1 << 64)):
            if s.poly.entails_eq(addc(d, t)):
                return True
        return False

    for n, o in BIN.items():
        for form in ("assign", "binary"):
            for alias in (False, True):
                label = "%s%s%s" % ("a %s= b" % o if form == "assign" else "a %s b" % o, "", " (same object)" if alias else "")

                def setup(st, alias=alias):
                    a = st.poly.new("a", LO, HI)
                    pa = cell(st, "a", a)
                    if alias:
                        b, pb = a, pa
                    else:
                        b = st.poly.new("b", LO, HI)
                        pb = cell(st, "b", b)
                    po = cell(st, "out", P(0))
                    return [pa, pb, po], (a, b, pa, pb, po)

                def judge(out, ctx, n=n, form=form, alias=alias):
                    kind, s = out[0], out[1]
                    a, b, pa, pb, po = ctx
                    poly = s.poly
                    if kind == "terminate":
                        return ("terminates", "terminates the program")
                    if kind == "throw":
                        # must be impossible for a defined, representable result
                        if n in ("add", "sub", "mul"):
                            r = add(a, b) if n == "add" else add(a, b, -1) if n == "sub" else mul(a, b)
                            if poly.feasible(in_range(r)):
                                return ("spurious exception", "throws although the exact result is representable")
                        elif n == "div":
                            for cs in ([addc(b, -1)], [addc(scale(b, -1), -2)], [addc(b, 1), addc(scale(b, -1), -1), addc(a, -LO - 1)]):
                                if poly.feasible(cs):
                                    return ("spurious exception", "throws although the quotient is representable")
                        elif poly.feasible([addc(b, -1)]):
                            return ("spurious exception", "throws for a positive modulus")
                        return None
                    v = stored(s, po)
                    if form == "assign" and (v is None or not equal64(s, stored(s, pa), v)):
                        return ("returned reference", "the returned object does not hold the assigned value")
                    if form == "binary" and not equal64(s, stored(s, pa), a):
                        return ("operand changed", "changes its first operand")
                    if not alias and not equal64(s, stored(s, pb), b):
                        return ("operand changed", "changes its second operand")
                    if n in ("add", "sub", "mul"):
                        r = add(a, b) if n == "add" else add(a, b, -1) if n == "sub" else mul(a, b)
                        if not all(poly.entails(k) for k in in_range(r)):
                            return ("missing exception", "returns although the exact result may not be representable")
                        if not equal64(s, v, r):
                            return ("wrong result", "result %s is not the exact value %s" % (v is not None and show(v), show(r)))
                        return None
                    if v is None:
                        return ("wrong result", "result not determined")
                    v = signed(s, v)
                    if n == "div":
                        if poly.feasible([b, scale(b, -1)]):
                            return ("missing exception", "returns for a zero divisor")
                        if poly.feasible([addc(b, 1), addc(scale(b, -1), -1), addc(scale(a, -1), LO)]):
                            return ("missing exception", "returns although the quotient is not representable")
                        # a - v*b in the open interval of the divisor, with the sign of a
                        rem = add(a, mul(v, b), -1)
                        for sb in (1, -1):
                            for sa in (1, -1):
                                p = poly.copy()
                                p.assume(addc(b, -1) if sb > 0 else addc(scale(b, -1), -1))
                                p.assume(a if sa > 0 else addc(scale(a, -1), -1))
                                if p.empty or not p.feasible():
                                    continue
                                rr = scale(rem, sa)
                                ok = p.entails(rr) and p.entails(addc(add(scale(b, sb), rr, -1), -1))
                                if not ok:
                                    return ("wrong result", "the result is not the truncated quotient")
                        return None
                    # mod: defined for positive moduli only; result in [0, b), congruent
                    if poly.feasible([scale(b, -1)]):
                        return ("missing exception", "returns for a modulus that is not positive")
                    if not poly.entails(v):
                        return ("wrong result", "the remainder may be negative")
                    if not poly.entails(addc(add(b, v, -1), -1)):
                        return ("wrong result", "the remainder may reach the modulus")
                    if not congruent(s, a, v, b):
                        return ("wrong result", "the remainder is not congruent to the dividend")
                    return None
                analyse("vp_%s_%s" % (form, n), setup, judge, label)

    for n in ("neg", "abs"):
        def setup(st):
            a = st.poly.new("a", LO, HI)
            pa = cell(st, "a", a)
            po = cell(st, "out", P(0))
            return [pa, po], (a, pa, po)

        def judge(out, ctx, n=n):
            kind, s = out[0], out[1]
            a, pa, po = ctx
            if kind == "terminate":
                return ("terminates", "terminates the program")
            if kind == "throw":
                if s.poly.feasible([addc(a, -LO - 1)]):
                    return ("spurious exception", "throws although the result is representable")
                return None
            if s.poly.feasible([addc(scale(a, -1), LO)]):
                return ("missing exception", "returns although the result is not representable")
            v = stored(s, po)
            for sg in (1, -1):
                p = s.copy()
                p.poly.assume(a if sg > 0 else addc(scale(a, -1), -1))
                if p.poly.empty or not p.poly.feasible():
                    continue
                want = scale(a, -1) if n == "neg" else scale(a, sg)
                if not equal64(p, v, want):
                    return ("wrong result", "result %s instead of %s" % (v is not None and show(v), show(want)))
            return None
        analyse("vp_" + n, setup, judge, "-a" if n == "neg" else "abs(a)")

    def setup(st):
        a = st.poly.new("a", LO, HI)
        return [cell(st, "a", a)], a

    def judge(out, a):
        kind, s = out[0], out[1]
        lo, hi = srange(32)
        if kind == "terminate":
            return ("terminates", "terminates the program")
        if kind == "throw":
            return ("spurious exception", "throws although the value fits into int") if s.poly.feasible(in_range(a, lo, hi)) else None
        if not all(s.poly.entails(k) for k in in_range(a, lo, hi)):
            return ("missing exception", "returns although the value does not fit into int")
        d = add(out[2][2], a, -1)
        if not (const(d) is not None and const(d) % (1 << 32) == 0) and not s.poly.entails_eq(d):
            return ("wrong result", "int value differs")
        return None
    analyse("vp_toint", setup, judge, "conversion to int")

    rels = {"eq": (lambda d: [[d, scale(d, -1)]]), "ne": (lambda d: [[addc(d, -1)], [addc(scale(d, -1), -1)]]),
            "lt": (lambda d: [[addc(scale(d, -1), -1)]]), "gt": (lambda d: [[addc(d, -1)]]),
            "le": (lambda d: [[scale(d, -1)]]), "ge": (lambda d: [[d]])}
    opp = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}
    for n, o in CMP.items():
        for form in ("i", "s"):
            def setup(st, form=form):
                a = st.poly.new("a", LO, HI)
                pa = cell(st, "a", a)
                if form == "i":
                    b = st.poly.new("b", *srange(32))
                    return [pa, I(32, b)], (a, b)
                b = st.poly.new("b", LO, HI)
                return [pa, cell(st, "b", b)], (a, b)

            def judge(out, ctx, n=n):
                kind, s = out[0], out[1]
                a, b = ctx
                if kind != "ret":
                    return ("throws", "comparison does not return")
                d = add(a, b, -1)
                for val in (0, 1):
                    p = s.poly.copy()
                    p.assume_eq(addc(out[2][2], -val))
                    if p.empty:
                        continue
                    # the wrong relation must be infeasible
                    for cs in rels[opp[n] if val else n](d):
                        if p.feasible(cs):
                            return ("wrong result", "comparison yields %s although the opposite holds" % bool(val))
                return None
            analyse("vp_cmp%s_%s" % (form, n), setup, judge, "a %s b (%s)" % (o, "int" if form == "i" else "SafeInteger"))

    for n, (t, w, sg) in INTS.items():
        def setup(st, w=w, sg=sg):
            lo, hi = srange(w) if sg else (0, (1 << w) - 1)
            v = st.poly.new("v", lo, hi)
            return [I(w, v), cell(st, "out", P(0))], (v, None)

        def judge(out, ctx):
            kind, s = out[0], out[1]
            v = ctx[0]
            if kind == "terminate":
                return ("terminates", "terminates the program")
            if kind == "throw":
                return ("spurious exception", "throws although the value is representable") if s.poly.feasible(in_range(v)) else None
            if not all(s.poly.entails(k) for k in in_range(v)):
                return ("missing exception", "returns although the value is not representable")
            got = [x for x in s.mem if x.startswith("out")]
            r = s.mem[got[0]].cells.get(0)
            if not r or r[1][0] not in ("i", "zero") or not equal64(s, r[1][2] if r[1][0] == "i" else P(0), v):
                return ("wrong result", "the stored value differs from the given one")
            return None
        analyse("vp_from_" + n, setup, judge, "SafeInteger(%s)" % t)

    if c.undecided:
        c.assumptions.append("%d paths could not be decided and are listed" % len(c.undecided))
    c.coverage = {"explanation": "abstract interpretation (affine forms over polyhedra, trace partitioning) of every public operation of the checked "
                  "64 bit integer for all operand values; rule: every returning path entails the exact result, no machine operation "
                  "overflows, no throwing path is feasible for representable results",
                  "wrappers_analysed": tot["wrappers"], "paths": tot["paths"], "obligations": tot["obligations"], "discharged": tot["discharged"],
                  "project_functions": sorted(tot["functions"]), "samples": samples}
    c.assumptions += ["64 bit int64_t in two's complement, int of 32 bit (the analysed target)", "memory allocation inside the error message does not fail"]


vp.main("C01", "abstract interpretation over polyhedra", run)
