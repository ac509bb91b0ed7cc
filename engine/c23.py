"""C23: scope guards and delayed actions run their action at most once, exactly when due."""
import re, sys
import vp
from absint import Program, State, Unknown, I, P, const
from poly import add, addc, scale
from algebra import prog
from text import Text

H = r'''
#include "delayed_action.h"
#include "scope_guard.h"
#include <chrono>
#include <utility>
using namespace panda;
extern "C" { void vp_hit(int); }
namespace { void fail() { throw 5; } struct F { int n; void operator()() const { vp_hit(n); } }; }
using std::chrono::seconds; using std::chrono::milliseconds; using std::chrono::nanoseconds;
extern "C" {
void vp_g_end(int) { { auto g = makeScopeGuard([]() { vp_hit(2); }); vp_hit(1); } vp_hit(3); }
void vp_g_dismissed(int) { { auto g = makeScopeGuard([]() { vp_hit(2); }); vp_hit(1); g.dismiss(); } vp_hit(3); }
void vp_g_moved(int) { { auto g = makeScopeGuard([]() { vp_hit(2); }); auto h = std::move(g); vp_hit(1); } vp_hit(3); }
void vp_g_inner(int) { { auto g = makeScopeGuard([]() { vp_hit(2); }); { auto h = std::move(g); vp_hit(1); } vp_hit(4); } vp_hit(3); }
void vp_g_chain(int) { { auto g = makeScopeGuard([]() { vp_hit(2); }); auto h = std::move(g); auto i = std::move(h); auto j = std::move(i); vp_hit(1); } vp_hit(3); }
void vp_g_dismissed_moved(int) { { auto g = makeScopeGuard([]() { vp_hit(2); }); g.dismiss(); auto h = std::move(g); vp_hit(1); } vp_hit(3); }
void vp_g_moved_dismissed(int) { { auto g = makeScopeGuard([]() { vp_hit(2); }); auto h = std::move(g); h.dismiss(); vp_hit(1); } vp_hit(3); }
void vp_g_source_dismissed(int) { { auto g = makeScopeGuard([]() { vp_hit(2); }); auto h = std::move(g); g.dismiss(); vp_hit(1); } vp_hit(3); }
void vp_g_thrown(int) { try { auto g = makeScopeGuard([]() { vp_hit(2); }); vp_hit(1); fail(); vp_hit(9); } catch ( ... ) { vp_hit(5); } vp_hit(3); }
void vp_g_thrown_moved(int) { try { auto g = makeScopeGuard([]() { vp_hit(2); }); auto h = std::move(g); vp_hit(1); fail(); vp_hit(9); } catch ( ... ) { vp_hit(5); } vp_hit(3); }
void vp_g_two(int) { { auto g = makeScopeGuard([]() { vp_hit(6); }); auto h = makeScopeGuard([]() { vp_hit(2); }); vp_hit(1); } vp_hit(3); }
void vp_g_if(int n) { { auto g = makeScopeGuard([]() { vp_hit(2); }); if ( n > 3 ) g.dismiss(); vp_hit(1); } vp_hit(3); }
void vp_d_s(int n) { { auto d = makeDelayedAction(F{2}, seconds(n)); vp_hit(1); } vp_hit(3); }
void vp_d_ms(int n) { { auto d = makeDelayedAction(F{2}, milliseconds(n)); vp_hit(1); } vp_hit(3); }
void vp_d_ns(int n) { { auto d = makeDelayedAction(F{2}, nanoseconds(n)); vp_hit(1); } vp_hit(3); }
void vp_d_dismissed(int n) { { auto d = makeDelayedAction(F{2}, milliseconds(n)); d.dismiss(); vp_hit(1); } vp_hit(3); }
void vp_d_moved(int n) { { auto d = makeDelayedAction(F{2}, nanoseconds(n)); auto e = std::move(d); vp_hit(1); } vp_hit(3); }
void vp_d_inner(int n) { { auto d = makeDelayedAction(F{2}, nanoseconds(n)); { auto e = std::move(d); vp_hit(1); } vp_hit(4); } vp_hit(3); }
void vp_d_dismissed_moved(int n) { { auto d = makeDelayedAction(F{2}, nanoseconds(n)); d.dismiss(); auto e = std::move(d); vp_hit(1); } vp_hit(3); }
void vp_d_moved_dismissed(int n) { { auto d = makeDelayedAction(F{2}, nanoseconds(n)); auto e = std::move(d); e.dismiss(); vp_hit(1); } vp_hit(3); }
void vp_d_thrown(int n) { try { auto d = makeDelayedAction(F{2}, nanoseconds(n)); vp_hit(1); fail(); vp_hit(9); } catch ( ... ) { vp_hit(5); } vp_hit(3); }
void vp_d_thrown_dismissed(int n) { try { auto d = makeDelayedAction(F{2}, nanoseconds(n)); vp_hit(1); d.dismiss(); fail(); vp_hit(9); } catch ( ... ) { vp_hit(5); } vp_hit(3); }
}
'''
# function -> (events, unit of the delay in nanoseconds or None); 2 is the action
CASES = {
    "g_end": (1, 2, 3), "g_dismissed": (1, 3), "g_moved": (1, 2, 3), "g_inner": (1, 2, 4, 3), "g_chain": (1, 2, 3), "g_dismissed_moved": (1, 3), "g_moved_dismissed": (1, 3), "g_source_dismissed": (1, 2, 3),
    "g_thrown": (1, 2, 5, 3), "g_thrown_moved": (1, 2, 5, 3), "g_two": (1, 2, 6, 3), "g_if": (1, 2, 3),
    "d_s": (1, 2, 3), "d_ms": (1, 2, 3), "d_ns": (1, 2, 3), "d_dismissed": (1, 3), "d_moved": (1, 2, 3), "d_inner": (1, 2, 4, 3), "d_dismissed_moved": (1, 3), "d_moved_dismissed": (1, 3),
    "d_thrown": (1, 2, 5, 3), "d_thrown_dismissed": (1, 5, 3),
}
UNIT = dict(d_s=10**9, d_ms=10**6)


class Guards(Text):
    def __init__(self, p):
        super().__init__(p, {r"^vp_hit$|^vp_hit\(": self.h_hit, r"^std::chrono::.*(system|steady)_clock::now\(\)": self.h_now}, max_states=2000)

    def h_hit(self, i, st, ins, a, dem):
        k = const(a[0][2])
        if k is None:
            k = next((x for x in range(10) if st.poly.entails_eq(addc(a[0][2], -x))), None)
            if k is None:
                raise Unknown("event not recognized")
        st.notes["hits"] = st.notes.get("hits", ()) + (k,)
        return [(st, None)]

    def h_now(self, i, st, ins, a, dem):
        last = st.notes.get("clock")
        k = st.notes["readings"] = st.notes.get("readings", 0) + 1
        t = st.poly.new("t%d" % k, 0, 10**16)
        if last is not None:
            st.poly.assume(add(t, last, -1))
        else:
            st.notes["start"] = t
        st.notes["clock"] = t
        return [(st, I(64, t))]


def run(path, fn):
    it = Guards(Program(path))
    st = State()
    n = st.poly.new("n", 0, 1000)
    found, und, cnt = [], [], 0
    want = CASES[fn]
    what = dict(g="scope guard", d="delayed action")[fn[0]] + ", " + (fn[2:].replace("_", ", then ") or "end of scope")
    for r in it.call_fn(st, "vp_" + fn, [I(32, n)]):
        if r[0] == "unknown":
            und.append("%s: %s" % (what, r[2]))
            continue
        s = r[1]
        if not s.poly.feasible():
            continue
        cnt += 1
        if r[0] != "ret":
            found.append("%s: ends with %s" % (what, r[0]))
            continue
        got = s.notes.get("hits", ())
        due, not_due = [[]], []
        if fn == "g_if":
            due, not_due = [[addc(scale(n, -1), 3)]], [[addc(n, -4)]]
        elif fn[0] == "d" and 2 in want:
            if "start" not in s.notes:
                found.append("%s: no start is taken" % what)
                continue
            d = add(add(s.notes["clock"], s.notes["start"], -1), scale(n, UNIT.get(fn, 1)), -1)     # elapsed - minimum
            due, not_due = [[addc(d, -1)]], [[addc(scale(d, -1), -1)]]
        for extra, w in [(x, want) for x in due] + [(x, tuple(k for k in want if k != 2)) for x in not_due]:
            if got != w and s.poly.feasible(extra):
                found.append("%s: the events are %s instead of %s (2 is the action%s)" % (what, got, w, "" if fn[0] == "g" else ", which is %sdue" % ("" if 2 in w else "not ")))
    return list(dict.fromkeys(found)), und, cnt


def check(c):
    path = prog(H, "guards", ["scope_guard.cpp", "delayed_action.cpp"], stubs=())
    n = 0
    for fn in CASES:
        found, und, k = run(path, fn)
        n += k
        for w in found:
            c.violation(w[:150], "src/scope_guard.tpp" if fn[0] == "g" else "src/delayed_action.tpp", w)
        c.undecided += und
    c.coverage.update(cases=len(CASES), paths=n, undecided_paths=len(c.undecided), rule="on every path: the action of a scope guard runs exactly once at the end of its scope (also if it is left by an exception), after moves at the end of the scope of the last owner, never after dismiss of the owner; that of a delayed action likewise, exactly if the time between construction and the end exceeds the given one, not if it is less")
    c.assumptions += ["the clock is monotonic and arbitrary otherwise", "delays of 0 to 1000 units"]
    if n == 0:
        raise vp.Broken("nothing decided: %s" % c.undecided[:3])


if __name__ == "__main__":
    if len(sys.argv) > 1:
        path = prog(H, "guards", ["scope_guard.cpp", "delayed_action.cpp"], stubs=())
        for fn in CASES:
            print(fn, run(path, fn))
    else:
        vp.main("C23", "abstract interpretation over events and polynomial forms", check)
