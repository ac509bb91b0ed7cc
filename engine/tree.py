"""The three operations of the C++ library on search trees, without rebalancing (order and membership are unaffected)."""
from absint import Unknown, I, P, const
PATTERN = r"^std::_Rb_tree_(insert_and_rebalance|increment|decrement|rebalance_for_erase)"
NULL = ("p", None, P(0))


def key(p):
    return (p[1], None if p[1] is None else const(p[2]))


def tree(i, st, ins, a, dem):
    def rd(p, off):
        o = st.mem[p[1]]
        c = o.cells.get(const(p[2]) + off)
        v = NULL if c is None else c[1]
        return NULL if v[0] == "zero" else v

    def wr(p, off, v):
        st.mem[p[1]].cells[const(p[2]) + off] = (8, v)
    if any(q[0] != "p" or q[1] is None or const(q[2]) is None for q in a if q[0] != "i"):
        raise Unknown("tree")
    if "insert_and_rebalance" in dem:
        left = const(a[0][2])
        x, p, h = a[1:4]
        if left is None:
            raise Unknown("tree")
        wr(x, 8, p)
        wr(x, 16, NULL)
        wr(x, 24, NULL)
        st.mem[x[1]].cells[const(x[2])] = (4, I(32, P(1)))
        if left:
            wr(p, 16, x)
            if key(p) == key(h):
                wr(h, 8, x)
                wr(h, 24, x)
            elif key(p) == key(rd(h, 16)):
                wr(h, 16, x)
        else:
            wr(p, 24, x)
            if key(p) == key(rd(h, 24)):
                wr(h, 24, x)
        return [(st, None)]
    if "rebalance_for_erase" in dem:
        z, h = a[:2]
        first, last = rd(h, 16), rd(h, 24)

        def step(x, one, two):
            if rd(x, one)[1] is not None:
                x = rd(x, one)
                while rd(x, two)[1] is not None:
                    x = rd(x, two)
                return x
            y = rd(x, 8)
            while key(y) != key(h) and key(x) == key(rd(y, one)):
                x, y = y, rd(y, 8)
            return y
        nfirst = step(z, 24, 16) if key(first) == key(z) else first
        nlast = step(z, 16, 24) if key(last) == key(z) else last

        def replace(old, new):
            p = rd(old, 8)
            if key(p) == key(h):
                wr(h, 8, new)
            elif key(rd(p, 16)) == key(old):
                wr(p, 16, new)
            else:
                wr(p, 24, new)
            if new[1] is not None:
                wr(new, 8, p)
        l, r = rd(z, 16), rd(z, 24)
        if l[1] is None:
            replace(z, r)
        elif r[1] is None:
            replace(z, l)
        else:
            y = r
            while rd(y, 16)[1] is not None:
                y = rd(y, 16)
            if key(y) != key(r):
                replace(y, rd(y, 24))
                wr(y, 24, r)
                wr(r, 8, y)
            replace(z, y)
            l = rd(z, 16)
            wr(y, 16, l)
            wr(l, 8, y)
        wr(h, 16, nfirst)
        wr(h, 24, nlast)
        return [(st, z)]
    x = a[0]
    one, two = (24, 16) if "increment" in dem else (16, 24)
    # (the end of a tree is the header, whose parent is the root)
    colour = st.mem[x[1]].cells.get(const(x[2]))
    if (colour is None or colour[1] != I(32, P(1))) and rd(x, 8)[1] is not None and key(rd(rd(x, 8), 8)) == key(x):
        return [(st, rd(x, two))]
    if rd(x, one)[1] is not None:
        x = rd(x, one)
        while rd(x, two)[1] is not None:
            x = rd(x, two)
        return [(st, x)]
    y = rd(x, 8)
    while key(x) == key(rd(y, one)):
        x, y = y, rd(y, 8)
    if key(rd(x, one)) != key(y):
        x = y
    return [(st, x)]
