"""Model of std::string, C strings and character streams for the abstract interpreter.
A string lives in memory: {pointer to buffer, length, capacity}; the buffer has one cell per
character; a cell may also hold a token ("t", ...) standing for a piece of text that is not
looked into (a printed number, an opaque word). Characters may be symbolic; comparisons split."""
import re
import tree
from absint import Unknown, I, P, const, State, srange
from poly import sym, add, addc, scale
from algebra import Algebra

STRT = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
NPOS = (1 << 64) - 1
SPACE = (9, 10, 11, 12, 13, 32)


def normal(dem):
    d = dem.replace("> >", ">>").replace(STRT, "STR")
    d = re.sub(r"std::basic_(istream|ostream|iostream|ios)<char, std::char_traits<char>>", r"std::\1", d)
    d = re.sub(r"std::__cxx11::basic_(\w*stringstream)<char, std::char_traits<char>, std::allocator<char>>", r"\1", d)
    return d.replace("std::string", "STR").replace("[abi:cxx11]", "")


def params(d):
    """top level parameter list of a normalized demangled name"""
    i = len(d)
    d2 = re.sub(r"\)( const)?$", ")", d)
    depth = 0
    for k in range(len(d2) - 1, -1, -1):
        if d2[k] == ")":
            depth += 1
        elif d2[k] == "(":
            depth -= 1
            if depth == 0:
                i = k
                break
    inner = d2[i + 1:-1]
    out, dep, cur = [], 0, ""
    for ch in inner:
        if ch in "<({[":
            dep += 1
        if ch in ">)}]":
            dep -= 1
        if ch == "," and dep == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Text(Algebra):
    def __init__(self, prog, handlers=None, **kw):
        h = dict(handlers or {})
        h.update({
            r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::(?!_Alloc)": self.h_string,
            r"^(.*::__type |bool |std::__cxx11::basic_string<char.*>> |auto )?std::operator(==|!=|<|>|<=|>=|\+)<?.*basic_string<char": self.h_strop,
            r"^(std::)?(__cxx11::)?(to_string|stoi|stol|stoul|stoll)(\[abi:cxx11\])?\(": self.h_conv,
            r"^std::__cxx11::(to_string|stoi|stol|stoul|stoll)": self.h_conv,
            r"^(strlen|strcmp|strncmp|strchr|strstr|atoi|atol|isdigit|isspace|isalpha|isalnum|ispunct|islower|isupper|isprint|isgraph|isxdigit|toupper|tolower|strtol|strncpy)$": self.h_c,
            r"^std::(ios|basic_ios|ios_base)": self.h_ios,
            r"std::(basic_)?(io|i|o)stream": self.h_stream,
            r"basic_\w*stringstream": self.h_sstream,
            r"^std::basic_ifstream<": self.h_ifstream,
            tree.PATTERN: tree.tree,
        })
        kw.setdefault("opaque", re.compile(r"^_ZNK?SaIcE"))   # std::allocator<char>; everything else has a transfer function or is refused
        super().__init__(prog, h, **kw)
        self.ndem = {}

    def indirect(self, st, ins, args):
        # the text of an exception
        if len(args) == 1 and args[0][0] == "p" and args[0][1] in st.mem and st.mem[args[0][1]].name in ("caught", "exception") and ins["ty"] == "ptr":
            return [(st, self.c_string(st, (69,)))]
        return None

    def nd(self, dem):
        r = self.ndem.get(dem)
        if r is None:
            d = normal(dem)
            r = self.ndem[dem] = (d, params(d))
        return r

    # ---------- text in memory
    def mk_buffer(self, st, items, nul=True, name="text"):
        b = st.alloc(len(items) + (1 if nul else 0), name=name)
        o = st.mem[b]
        for k, x in enumerate(items):
            o.cells[k] = (1, self.cell(x))
        if nul:
            o.cells[len(items)] = (1, I(8, P(0)))
        return b

    @staticmethod
    def cell(x):
        if isinstance(x, int):
            return I(8, P(x if x < 128 else x - 256))
        if isinstance(x, str):
            return I(8, P(ord(x)))
        if isinstance(x, dict):
            return I(8, x)
        return ("t", x)

    def put_string(self, st, at, items):
        items = tuple(items)
        o = st.mem[at[1]]
        off = const(at[2])
        b = self.mk_buffer(st, items)
        o.cells[off] = (8, ("p", b, P(0)))
        o.cells[off + 8] = (8, I(64, P(len(items))))
        o.cells.pop(off + 16, None)
        o.cells[off + 16] = (8, I(64, P(len(items))))
        return at

    def c_string(self, st, items, name="cstring"):
        return ("p", self.mk_buffer(st, items, name=name), P(0))

    def get_string(self, st, at):
        """-> tuple of items (int | dict | token)"""
        if at[0] != "p" or at[1] not in st.mem:
            raise Unknown("string not determined")
        o = st.mem[at[1]]
        off = const(at[2])
        if off is None:
            raise Unknown("string not determined")
        c, n = o.cells.get(off), o.cells.get(off + 8)
        if not o.alive:
            self.report("use of freed string", {}, st)
        if c is None or n is None or c[1][0] != "p" or n[1][0] != "i":
            raise Unknown("string not determined")
        k = const(n[1][2])
        if k is None:
            raise Unknown("length of string not determined")
        return self.items(st, c[1], k)

    def items(self, st, ptr, n):
        if n == 0:
            return ()
        if ptr[0] != "p" or ptr[1] is None:
            raise Unknown("text not determined")
        if ptr[1].startswith("@") and ptr[1] not in st.mem:
            self.globobj(st, ptr[1][1:])
        o = st.mem.get(ptr[1])
        off = const(ptr[2])
        if o is None or off is None:
            raise Unknown("text not determined")
        r = []
        for k in range(off, off + n):
            if k < 0 or (o.size is not None and k >= o.size):
                self.report("read outside of text %s (offset %d, size %s)" % (o.name, k, o.size), self.cur or {}, st)
                raise Unknown("text outside of object")
            c = o.cells.get(k)
            if c is None:
                if o.zero:
                    r.append(0)
                    continue
                raise Unknown("character not determined")
            if c[0] != 1:
                raise Unknown("character not determined")
            v = c[1]
            if v[0] == "t":
                r.append(v[1])
            elif v[0] in ("i", "zero"):
                f = P(0) if v[0] == "zero" else v[2]
                x = const(f)
                r.append(f if x is None else x & 255)
            else:
                raise Unknown("character not determined")
        return tuple(r)

    cur = None

    def scan(self, st, ptr, limit=4096):
        """C string at ptr -> list of (state, items)"""
        if ptr[0] == "p" and ptr[1] is None:
            self.report("null pointer used as a string", self.cur or {}, st)
            raise Unknown("null string")
        if ptr[0] != "p":
            raise Unknown("text not determined")
        work, out = [(st, ())], []
        while work:
            s, r = work.pop()
            x, = self.items(s, ("p", ptr[1], addc(ptr[2], len(r))), 1)
            for s2, z in self.eqc(s, x, 0):
                if z:
                    out.append((s2, r))
                else:
                    if len(r) > limit:
                        raise Unknown("long text")
                    work.append((s2, r + (x,)))
        return out

    def eqc(self, st, a, b):
        """compare two characters -> list of (state, bool)"""
        if isinstance(a, int) and isinstance(b, int):
            return [(st, a == b)]
        if isinstance(a, tuple) or isinstance(b, tuple):
            if a == b:
                return [(st, True)]
            t, o = (a, b) if isinstance(a, tuple) else (b, a)
            if isinstance(o, int) and self.token_excludes(st, t, o):
                return [(st, False)]
            raise Unknown("comparison with opaque text")
        fa = P(a if a < 128 else a - 256) if isinstance(a, int) else a
        fb = P(b if b < 128 else b - 256) if isinstance(b, int) else b
        d = add(fa, fb, -1)
        if st.poly.entails_eq(d):
            return [(st, True)]
        out = []
        for sg, eq in ((0, True), (1, False), (-1, False)):
            cs = [d, scale(d, -1)] if sg == 0 else [addc(scale(d, sg), -1)]
            if st.poly.feasible(cs):
                s = st.copy()
                for x in cs:
                    s.poly.assume(x)
                if not s.poly.empty:
                    out.append((s, eq))
        return out

    def token_excludes(self, st, t, ch):
        """an opaque token never starts with / equals this character"""
        return ch == 0

    def compare(self, st, a, b):
        """lexicographic comparison -> list of (state, -1/0/1)"""
        out = []
        work = [(st, 0)]
        while work:
            s, k = work.pop()
            if k == len(a) or k == len(b):
                out.append((s, 0 if len(a) == len(b) else (-1 if k == len(a) else 1)))
                continue
            for s2, e in self.eqc(s, a[k], b[k]):
                if e:
                    work.append((s2, k + 1))
                elif isinstance(a[k], int) and isinstance(b[k], int):
                    out.append((s2, -1 if a[k] < b[k] else 1))
                else:
                    # order of symbolic characters: not tracked; any sign different from zero
                    x, y = (P(v) if isinstance(v, int) else v for v in (a[k], b[k]))
                    if isinstance(x, tuple) or isinstance(y, tuple):
                        raise Unknown("order of opaque text")
                    out.append((s2, -1 if s2.poly.entails(addc(add(y, x, -1), -1)) else 1))
        return out

    # ---------- strings
    @staticmethod
    def u64(v):
        k = const(v[2]) if v[0] == "i" else None
        return None if k is None else k % (1 << 64)

    def h_string(self, i, st, ins, a, dem):
        d, ps = self.nd(dem)
        if "_Alloc_hider" in d or not d.startswith("STR::"):
            return None
        self.cur = ins
        m = re.match(r"^STR::(operator\s?(?:\[\]|\+=|==|=|!=|<|>)|~?[A-Za-z_]\w*)", d)
        if not m:
            raise Unknown("string function " + d)
        name = m.group(1).replace(" ", "")
        G = self.get_string
        ret = lambda v: [(st, v)]
        if name in ("basic_string", "assign", "operator=", "operator+=", "append"):
            this = a[0]
            old = () if name == "basic_string" else None
            outs = []
            for s, new in self.source(st, ps, a[1:], d):
                base = () if name in ("basic_string", "assign", "operator=") else G(s, this)
                if new == "oor":
                    outs.append((s, "throw:_ZTISt12out_of_range"))
                    continue
                self.put_string(s, this, base + tuple(new))
                if ps and ps[0].endswith("&&") and name in ("basic_string", "assign", "operator="):
                    if (a[1][1], self.u64(a[1])) != (this[1], const(this[2])):
                        self.put_string(s, a[1], ())
                outs.append((s, this if ins["ty"] == "ptr" else None))
            return outs
        if name == "~basic_string":
            return ret(None)
        if name == "push_back":
            self.put_string(st, a[0], G(st, a[0]) + (self.char(a[1]),))
            return ret(None)
        if name == "pop_back":
            self.put_string(st, a[0], G(st, a[0])[:-1])
            return ret(None)
        if name in ("size", "length"):
            return ret(I(64, P(self.length(st, a[0]))))
        if name == "empty":
            return ret(I(1, P(1 if self.length(st, a[0]) == 0 else 0)))
        if name in ("c_str", "data", "_M_data"):
            return ret(self.buffer(st, a[0]))
        if name in ("begin", "cbegin", "end", "cend"):
            b = self.buffer(st, a[0])
            p = b if "begin" in name else ("p", b[1], addc(b[2], self.length(st, a[0])))
            return ret(p)
        if name in ("front", "operator[]", "at", "back"):
            n = self.length(st, a[0])
            b = self.buffer(st, a[0])
            if name == "front":
                k = 0
            elif name == "back":
                k = n - 1
            else:
                k = self.u64(a[1])
                if k is None:
                    raise Unknown("string index not determined")
                k = k if k < 1 << 63 else k - (1 << 64)
                if name == "at" and not 0 <= k < n:
                    return ret("throw:_ZTISt12out_of_range")
                if not 0 <= k <= n:
                    self.report("string index %d outside of a string of length %d" % (k, n), ins, st)
            if name in ("front", "back") and n == 0:
                self.report("%s of an empty string" % name, ins, st)
            return ret(("p", b[1], addc(b[2], k)))
        if name == "clear":
            self.put_string(st, a[0], ())
            return ret(None)
        if name in ("reserve", "shrink_to_fit"):
            return ret(None)
        if name == "resize":
            t = G(st, a[0])
            n = self.u64(a[1])
            if n is None:
                raise Unknown("resize")
            fill = self.char(a[2]) if len(a) > 2 else 0
            self.put_string(st, a[0], t[:n] + (fill,) * (n - len(t)))
            return ret(None)
        if name == "swap":
            x, y = G(st, a[0]), G(st, a[1])
            self.put_string(st, a[0], y)
            self.put_string(st, a[1], x)
            return ret(None)
        if name == "substr":
            t = G(st, a[1])
            p, n = self.u64(a[2]), self.u64(a[3])
            if p is None or n is None:
                raise Unknown("substr")
            if p > len(t):
                return ret("throw:_ZTISt12out_of_range")
            self.put_string(st, a[0], t[p:p + n] if n < 1 << 62 else t[p:])
            return ret(None)
        if name == "erase":
            t = G(st, a[0])
            if ps and ps[0].startswith("unsigned long"):
                p, n = self.u64(a[1]), self.u64(a[2])
                if p is None or n is None:
                    raise Unknown("erase")
                if p > len(t):
                    return ret("throw:_ZTISt12out_of_range")
                self.put_string(st, a[0], t[:p] + (t[p + n:] if n < 1 << 62 else ()))
                return ret(a[0])
            b = self.buffer(st, a[0])
            ks = [const(add(x[2], b[2], -1)) for x in a[1:]]
            if any(k is None for k in ks):
                raise Unknown("erase")
            e = ks[1] if len(ks) > 1 else ks[0] + 1
            self.put_string(st, a[0], t[:ks[0]] + t[e:])
            return ret(("p", self.buffer(st, a[0])[1], P(ks[0])))
        if name == "insert" and ps[0].startswith("unsigned long"):
            t = G(st, a[0])
            p = self.u64(a[1])
            outs = []
            for s, new in self.source(st, ps[1:], a[2:], d):
                if p is None or p > len(t):
                    raise Unknown("insert")
                self.put_string(s, a[0], t[:p] + tuple(new) + t[p:])
                outs.append((s, a[0]))
            return outs
        if name == "replace" and ps[0].startswith("unsigned long"):
            t = G(st, a[0])
            p, n = self.u64(a[1]), self.u64(a[2])
            outs = []
            for s, new in self.source(st, ps[2:], a[3:], d):
                self.put_string(s, a[0], t[:p] + tuple(new) + t[p + n:])
                outs.append((s, a[0]))
            return outs
        if name in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
            return self.find(st, name, ps, a, d)
        if name == "compare":
            t = G(st, a[0])
            rest, pp = a[1:], ps
            if pp[0].startswith("unsigned long"):
                p, n = self.u64(a[1]), self.u64(a[2])
                if p > len(t):
                    return ret("throw:_ZTISt12out_of_range")
                t = t[p:p + n] if n < 1 << 62 else t[p:]
                rest, pp = a[3:], ps[2:]
            outs = []
            for s, u in self.source(st, pp, rest, d):
                for s2, r in self.compare(s, t, tuple(u)):
                    outs.append((s2, I(32, P(r))))
            return outs
        if name in ("get_allocator", "_M_get_allocator"):
            return None
        raise Unknown("string function " + d)

    def char(self, v):
        if v[0] == "zero":
            return 0
        if v[0] != "i":
            raise Unknown("character not determined")
        k = const(v[2])
        return v[2] if k is None else k & 255

    def length(self, st, at):
        o = st.mem.get(at[1]) if at[0] == "p" else None
        off = const(at[2]) if o is not None else None
        n = o.cells.get(off + 8) if off is not None else None
        k = const(n[1][2]) if n and n[1][0] == "i" else None
        if k is None:
            raise Unknown("length of string not determined")
        return k

    def buffer(self, st, at):
        o = st.mem.get(at[1]) if at[0] == "p" else None
        off = const(at[2]) if o is not None else None
        c = o.cells.get(off) if off is not None else None
        if not c or c[1][0] != "p":
            raise Unknown("string not determined")
        return c[1]

    def source(self, st, ps, a, d):
        """text given by an argument list of a constructor / assign / append -> [(state, items)]"""
        ps = [p for p in ps if "std::allocator<char>" not in p or "STR" in p]
        if not ps:
            return [(st, ())]
        p0 = ps[0]
        if p0.startswith("STR"):
            t = self.get_string(st, a[0])
            if len(ps) > 1:
                k = self.u64(a[1])
                n = self.u64(a[2]) if len(ps) > 2 else NPOS
                if k is None or n is None:
                    raise Unknown("part of a string")
                if k > len(t):
                    return [(st, "oor")]
                t = t[k:k + n] if n < 1 << 62 else t[k:]
            return [(st, t)]
        if p0 == "char const*" and len(ps) == 1:
            return self.scan(st, a[0])
        if (p0 == "char const*" or p0 == "char*") and ps[1].startswith("unsigned long"):
            n = self.u64(a[1])
            if n is None:
                raise Unknown("length of text not determined")
            return [(st, self.items(st, a[0], n))]
        if p0 == "char":
            return [(st, (self.char(a[0]),))]
        if p0.startswith("unsigned long") and len(ps) > 1 and ps[1] == "char":
            n = self.u64(a[0])
            if n is None:
                raise Unknown("length of text not determined")
            return [(st, (self.char(a[1]),) * n)]
        if p0.startswith("std::initializer_list<char>"):
            n = self.u64(a[1])
            return [(st, self.items(st, a[0], n))]
        if len(a) >= 2 and a[0][0] == "p" and a[1][0] == "p" and a[0][1] == a[1][1] and ("iterator" in p0 or "char" in p0):
            n = const(add(a[1][2], a[0][2], -1))
            if n is None:
                raise Unknown("range of text")
            return [(st, self.items(st, a[0], n))]
        raise Unknown("text from " + d)

    def find(self, st, name, ps, a, d):
        t = self.get_string(st, a[0])
        pos = self.u64(a[2]) if len(a) > 2 else (0 if "last" not in name and name != "rfind" else NPOS)
        if pos is None:
            raise Unknown(name)
        outs = []
        for s0, pat in self.source(st, ps[:1] if len(ps) < 3 else ps[:1] + ps[2:], a[1:2] if len(ps) < 3 else [a[1], a[3]], d):
            n = len(pat)
            if name in ("find", "rfind"):
                cand = [k for k in range(len(t) - n + 1) if (k >= pos if name == "find" else k <= pos)]
                if name == "rfind":
                    cand.reverse()
                test = lambda s, k: self.match(s, t[k:k + n], pat)
            else:
                last = "last" in name
                cand = [k for k in range(len(t)) if (k <= pos if last else k >= pos)]
                if last:
                    cand.reverse()
                neg = "not" in name

                def test(s, k):
                    # a character whose possible codes are all inside (or all outside) of the set
                    if all(isinstance(x, int) for x in pat) and isinstance(t[k], dict):
                        lo, hi = s.poly.range(t[k])
                        if hi - lo < 300:
                            ins_ = [c in pat for c in range(int(lo), int(hi) + 1)]
                            if all(ins_) or not any(ins_):
                                return [(s, ins_[0] != neg)]
                    work, res = [(s, 0)], []
                    while work:
                        s1, j = work.pop()
                        if j == len(pat):
                            res.append((s1, neg))
                            continue
                        for s2, e in self.eqc(s1, t[k], pat[j]):
                            if e:
                                res.append((s2, not neg))
                            else:
                                work.append((s2, j + 1))
                    return res
            work = [s0]
            for k in cand:
                nxt = []
                for s in work:
                    for s2, hit in test(s, k):
                        if hit:
                            outs.append((s2, I(64, P(k))))
                        else:
                            nxt.append(s2)
                work = nxt
            outs += [(s, I(64, P(-1))) for s in work]
        return outs

    def match(self, st, x, y):
        return [(s, r == 0) for s, r in self.compare_eq(st, x, y)]

    def compare_eq(self, st, a, b):
        if len(a) != len(b):
            return [(st, 1)]
        work, out = [(st, 0)], []
        while work:
            s, k = work.pop()
            if k == len(a):
                out.append((s, 0))
                continue
            for s2, e in self.eqc(s, a[k], b[k]):
                if e:
                    work.append((s2, k + 1))
                else:
                    out.append((s2, 1))
        return out

    def h_strop(self, i, st, ins, a, dem):
        d, ps = self.nd(dem)
        m = re.search(r"std::operator(==|!=|<=|>=|<|>|\+)(?=[<(])", d.replace("operator< <", "operator<<").replace("operator<<<", "operator<< <"))
        m = re.search(r"std::operator(==|!=|<=|>=|\+)", d) or re.search(r"std::operator(<|>)", d)
        if not m or "operator<<" in d.replace("operator< <", "OPLT<") or "operator>>" in d:
            return None
        op = m.group(1)
        if not any("STR" in p for p in ps):
            return None
        self.cur = ins

        def src(s, p, v):
            return self.source(s, [p], [v], d)
        outs = []
        if op == "+":
            for s, x in src(st, ps[0], a[1]):
                for s2, y in src(s, ps[1], a[2]):
                    self.put_string(s2, a[0], tuple(x) + tuple(y))
                    outs.append((s2, None))
            return outs
        for s, x in src(st, ps[0], a[0]):
            for s2, y in src(s, ps[1], a[1]):
                if op in ("==", "!="):
                    for s3, r in self.compare_eq(s2, tuple(x), tuple(y)):
                        outs.append((s3, I(1, P(int((r == 0) == (op == "=="))))))
                else:
                    for s3, r in self.compare(s2, tuple(x), tuple(y)):
                        outs.append((s3, I(1, P(int({"<": r < 0, ">": r > 0, "<=": r <= 0, ">=": r >= 0}[op])))))
        return outs

    def number(self, st, f, kind="n"):
        k = const(f)
        if k is not None:
            return tuple(ord(c) for c in str(k))
        return ((kind, tuple(sorted(f.items()))),)

    def h_conv(self, i, st, ins, a, dem):
        d, ps = self.nd(dem)
        self.cur = ins
        if "to_string" in d:
            v = self.asint(st, a[1], 32 if ps[0] in ("int", "unsigned int") else 64)
            outs = []
            for s, f in self.norm(st, v, not ps[0].startswith("unsigned")):
                self.put_string(s, a[0], self.number(s, f))
                outs.append((s, None))
            return outs
        t = self.get_string(st, a[0])
        return self.parse_number(st, t, 32 if "stoi" in d else 64, True, a)

    def parse_number(self, st, t, bits, throws, a):
        if not all(isinstance(x, int) for x in t):
            raise Unknown("number from symbolic text")
        s = "".join(map(chr, t))
        m = re.match(r"^[ \t\n\v\f\r]*([+-]?\d+)", s)
        if not m:
            return [(st, "throw:_ZTISt16invalid_argument" if throws else I(bits, P(0)))]
        v = int(m.group(1))
        lo, hi = srange(bits)
        if not lo <= v <= hi:
            if throws:
                return [(st, "throw:_ZTISt12out_of_range")]
            v = min(max(v, lo), hi)
        if throws and len(a) > 1 and a[1][0] == "p" and a[1][1] is not None:
            st.mem[a[1][1]].cells[const(a[1][2])] = (8, I(64, P(m.end())))
        return [(st, I(bits, P(v)))]

    # ---------- C library
    def h_c(self, i, st, ins, a, dem):
        self.cur = ins
        n = dem.split("(")[0]
        outs = []
        if n == "strlen":
            return [(s, I(64, P(len(t)))) for s, t in self.scan(st, a[0])]
        if n in ("strcmp", "strncmp"):
            lim = const(a[2][2]) if n == "strncmp" else None
            if n == "strncmp" and lim is None:
                raise Unknown("strncmp")
            work = [(st, 0)]
            while work:
                s, k = work.pop()
                if lim is not None and k >= lim:
                    outs.append((s, I(32, P(0))))
                    continue
                x, = self.items(s, ("p", a[0][1], addc(a[0][2], k)), 1) if a[0][1] is not None else self.scan(s, a[0])
                y, = self.items(s, ("p", a[1][1], addc(a[1][2], k)), 1) if a[1][1] is not None else self.scan(s, a[1])
                for s2, e in self.eqc(s, x, y):
                    if not e:
                        r = 1
                        if isinstance(x, int) and isinstance(y, int):
                            r = 1 if x > y else -1
                        outs.append((s2, I(32, P(r))))
                        continue
                    for s3, z in self.eqc(s2, x, 0):
                        if z:
                            outs.append((s3, I(32, P(0))))
                        else:
                            work.append((s3, k + 1))
            return outs
        if n == "strchr":
            for s, t in self.scan(st, a[0]):
                c = self.char(a[1])
                work = [s]
                for k, x in enumerate(t + (0,)):
                    nxt = []
                    for s1 in work:
                        for s2, e in self.eqc(s1, x, c):
                            (outs if e else nxt).append((s2, ("p", a[0][1], addc(a[0][2], k))) if e else s2)
                    work = nxt
                outs += [(s1, ("p", None, P(0))) for s1 in work]
            return outs
        if n in ("atoi", "atol"):
            for s, t in self.scan(st, a[0]):
                outs += self.parse_number(s, t, 32 if n == "atoi" else 64, False, a)
            return outs
        if n.startswith("is") or n.startswith("to"):
            v = self.asint(st, a[0], 32)
            if n in ("toupper", "tolower"):
                k = const(v[2])
                if k is None:
                    raise Unknown(n)
                c = chr(k & 255)
                return [(st, I(32, P(ord(c.upper() if n == "toupper" else c.lower()))))]
            return self.classify(st, n, v[2])
        raise Unknown("library function " + n)

    CLASSES = {"isdigit": [(48, 57)], "isspace": [(9, 13), (32, 32)], "isupper": [(65, 90)], "islower": [(97, 122)], "isalpha": [(65, 90), (97, 122)],
               "isalnum": [(48, 57), (65, 90), (97, 122)], "isxdigit": [(48, 57), (65, 70), (97, 102)], "isprint": [(32, 126)], "isgraph": [(33, 126)],
               "ispunct": [(33, 47), (58, 64), (91, 96), (123, 126)]}

    def classify(self, st, n, f):
        outs = []
        cls = self.CLASSES[n]
        edges = []
        lo = -(1 << 31)
        for x, y in cls:
            edges += [(lo, x - 1, 0), (x, y, 1)]
            lo = y + 1
        edges.append((lo, (1 << 31) - 1, 0))
        for x, y, r in edges:
            cs = [addc(f, -x), addc(scale(f, -1), y)]
            if st.poly.feasible(cs):
                s = st.copy()
                for c in cs:
                    s.poly.assume(c)
                outs.append((s, I(32, P(r))))
        return outs

    # ---------- streams
    # notes["s:<object>"] = {"out": items, "in": items or None, "pos": int, "state": bits}
    def stream(self, st, ptr, create=False):
        if ptr[0] != "p" or ptr[1] is None:
            raise Unknown("stream not determined")
        k = "s:" + ptr[1]
        if k not in st.notes:
            if ptr[1] in ("@_ZSt4cout", "@_ZSt4cerr", "@_ZSt4clog") or create:
                st.notes[k] = dict(out=(), inp=None, pos=0, bits=0)
            else:
                raise Unknown("stream not determined")
        return k

    def mk_stream(self, st, text=None, name="stream"):
        b = st.alloc(512, name=name)
        self.init_stream(st, b, text)
        return ("p", b, P(0))

    def init_stream(self, st, b, text=None):
        vt = st.alloc(128, name="vtable")
        for k in range(0, 128, 8):
            st.mem[vt].cells[k] = (8, I(64, P(112)))
        for off in (0, 16, 112):
            st.mem[b].cells[off] = (8, ("p", vt, P(64)))
        st.notes["s:" + b] = dict(out=(), inp=text, pos=0, bits=0)

    def upd(self, st, k, **kw):
        d = dict(st.notes[k])
        d.update(kw)
        st.notes[k] = d

    def emit(self, st, k, items):
        d = st.notes[k]
        if d["bits"] & 5:
            return
        self.upd(st, k, out=d["out"] + tuple(items))

    EOF, FAIL, BAD = 2, 4, 1

    def h_ios(self, i, st, ins, a, dem):
        d, ps = self.nd(dem)
        if not a or a[0][0] != "p" or a[0][1] is None or not ("s:" + a[0][1]) in st.notes and a[0][1] not in ("@_ZSt4cout", "@_ZSt4cerr"):
            return None
        k = self.stream(st, a[0])
        b = st.notes[k]["bits"]
        m = re.search(r"::(operator bool|operator!|operator void\*|\w+)\(", d)
        n = m.group(1) if m else "?"
        B = lambda x: [(st, I(1, P(int(bool(x)))))]
        if n == "operator bool":
            return B(not b & 5)
        if n in ("operator!", "fail"):
            return B(b & 5)
        if n == "good":
            return B(b == 0)
        if n == "eof":
            return B(b & 2)
        if n == "bad":
            return B(b & 1)
        if n == "rdstate":
            return [(st, I(32, P(b)))]
        if n in ("clear", "setstate"):
            v = const(a[1][2])
            if v is None:
                raise Unknown(n)
            self.upd(st, k, bits=v if n == "clear" else b | v)
            return [(st, None)]
        if n in ("exceptions", "rdbuf", "tie", "imbue", "flags", "setf", "unsetf", "width", "precision", "fill", "copyfmt"):
            raise Unknown("stream setting " + n)
        return None

    def h_sstream(self, i, st, ins, a, dem):
        d, ps = self.nd(dem)
        m = re.match(r"^(\w*stringstream)::(~?\w+)\(", d)
        if not m:
            return None
        n = m.group(2)
        self.cur = ins
        if n.startswith("~"):
            return [(st, None)]
        if n == m.group(1) or n.startswith("basic_"):
            text = () if "istring" in d or n in ("stringstream", "basic_stringstream") else None
            if ps and "STR" in ps[0]:
                text = self.get_string(st, a[1])
            self.init_stream(st, a[0][1], text)
            return [(st, None)]
        if n == "str":
            if ps and "STR" in ps[0]:
                k = self.stream(st, a[0])
                self.upd(st, k, inp=self.get_string(st, a[1]), pos=0, out=())
                return [(st, None)]
            k = self.stream(st, a[1])
            dd = st.notes[k]
            self.put_string(st, a[0], (dd["inp"] or ()) + dd["out"])
            return [(st, None)]
        raise Unknown("stream function " + d)

    # files: path text -> content (items), or None if it cannot be opened
    def content(self, st, name):
        return None

    def h_ifstream(self, i, st, ins, a, dem):
        d, ps = self.nd(dem)
        m = re.match(r"^std::basic_ifstream<.*?>>?::(~?\w+)\(", d)
        if not m:
            return None
        self.cur = ins
        n = m.group(1)
        if n.startswith("~") or n == "close":
            if n.startswith("~"):
                st.notes["closed"] = st.notes.get("closed", ()) + (a[0][1],)
            return [(st, None)]
        if n in ("basic_ifstream", "ifstream", "open"):
            if n != "open":
                self.init_stream(st, a[0][1], None)
            if len(a) < 2:
                self.upd(st, "s:" + a[0][1], bits=0)
                return [(st, None)]
            outs = []
            for s, t in ([(st, self.get_string(st, a[1]))] if "STR" in ps[0] else self.scan(st, a[1])):
                c = self.content(s, t)
                s.notes["opened"] = s.notes.get("opened", ()) + (t,)
                self.upd(s, "s:" + a[0][1], inp=() if c is None else tuple(c), pos=0, bits=4 if c is None else 0)
                outs.append((s, None))
            return outs
        if n == "is_open":
            k = self.stream(st, a[0])
            return [(st, I(1, P(int(not st.notes[k]["bits"] & 4 or bool(st.notes[k]["inp"])))))]
        raise Unknown("file operation " + n)

    def h_stream(self, i, st, ins, a, dem):
        d, ps = self.nd(dem)
        self.cur = ins
        if dem.startswith("llvm.") or "ios_base" in d.split("(")[0]:
            return None
        if "basic_iostream" in dem and "stringstream" in dem and "<<" not in d and ">>" not in d:
            return None
        m = re.match(r"^std::(istream|ostream|iostream)::(operator\s?(?:<<|>>)|~?\w+)(<[^(]*>)?\(", d)
        if m:
            n = m.group(2).replace(" ", "")
            return self.stream_member(st, ins, n, ps, a, d)
        m = re.search(r"std::(operator\s?(?:<<|>>)|getline|ws|endl|flush|ends|__ostream_insert)\s?<", d)
        if m and any("stream" in p for p in ps[:1]):
            n = m.group(1).replace(" ", "")
            return self.stream_free(st, ins, n, ps, a, d)
        return None

    def stream_member(self, st, ins, n, ps, a, d):
        me = a[0] if ins["ty"] == "ptr" else None
        if n in ("istream", "ostream", "iostream") or n.startswith("~") or n.startswith("basic_"):
            return None
        if n == "operator<<":
            k = self.stream(st, a[0])
            p = ps[0]
            if "(*)" in p:
                return self.manip(st, k, a, me)
            if p in ("int", "long", "short", "unsigned int", "unsigned long", "unsigned short", "long long", "unsigned long long"):
                w = {"int": 32, "short": 16, "unsigned int": 32, "unsigned short": 16}.get(p, 64)
                outs = []
                for s, f in self.norm(st, self.asint(st, a[1], w), not p.startswith("unsigned")):
                    self.emit(s, k, self.number(s, f))
                    outs.append((s, me))
                return outs
            if p == "bool":
                raise Unknown("bool written to a stream")
            raise Unknown("written to a stream: " + p)
        if n == "put":
            k = self.stream(st, a[0])
            self.emit(st, k, (self.char(a[1]),))
            return [(st, me)]
        if n == "write":
            k = self.stream(st, a[0])
            c = const(a[2][2])
            if c is None:
                raise Unknown("write")
            self.emit(st, k, self.items(st, a[1], c))
            return [(st, me)]
        if n == "flush":
            k = self.stream(st, a[0])
            self.emit(st, k, (("flush",),))
            return [(st, me)]
        if n == "operator>>":
            k = self.stream(st, a[0])
            p = ps[0]
            if "(*)" in p:
                return self.manip(st, k, a, me)
            if p in ("int&", "long&", "short&", "unsigned int&", "unsigned long&", "long long&"):
                w = {"int&": 32, "short&": 16, "unsigned int&": 32}.get(p, 64)
                return [(s, me) for s in self.extract_number(st, k, a[1], w, not p.startswith("unsigned"))]
            raise Unknown("read from a stream: " + p)
        if n in ("get", "peek", "unget", "putback", "ignore", "getline", "read", "tellg", "seekg", "gcount", "sentry", "sync", "readsome"):
            return self.input(st, ins, n, ps, a, d, me)
        raise Unknown("stream function " + d)

    def manip(self, st, k, a, me):
        f = a[1]
        nm = f[1] if f[0] == "f" else ""
        if "endl" in nm:
            self.emit(st, k, (10, ("flush",)))
            return [(st, me)]
        if "flush" in nm:
            self.emit(st, k, (("flush",),))
            return [(st, me)]
        if "2ws" in nm:
            return [(s, me) for s in self.skip(st, k, True)]
        raise Unknown("stream manipulator " + nm)

    def stream_free(self, st, ins, n, ps, a, d):
        me = a[0] if ins["ty"] == "ptr" else None
        k = self.stream(st, a[0])
        if n == "operator<<":
            p = ps[1]
            if p == "char" or p == "unsigned char" or p == "signed char":
                self.emit(st, k, (self.char(a[1]),))
                return [(st, me)]
            outs = []
            for s, t in self.source(st, [p], [a[1]], d):
                self.emit(s, k, t)
                outs.append((s, me))
            return outs
        if n == "__ostream_insert":
            c = const(a[2][2])
            self.emit(st, k, self.items(st, a[1], c))
            return [(st, me)]
        if n in ("endl", "flush"):
            self.emit(st, k, (10, ("flush",)) if n == "endl" else (("flush",),))
            return [(st, me)]
        if n == "ws":
            return [(s, me) for s in self.skip(st, k, True)]
        if n == "getline":
            return self.getline(st, k, a, 10 if len(ps) < 3 else self.char(a[2]), me)
        if n == "operator>>":
            if ps[1] == "char&":
                outs = []
                for s in self.skip(st, k):
                    for s2, c in self.getc(s, k):
                        if c is None:
                            self.upd(s2, k, bits=s2.notes[k]["bits"] | 6)
                        else:
                            s2.mem[a[1][1]].cells[const(a[1][2])] = (1, self.cell(c))
                        outs.append((s2, me))
                return outs
            if ps[1].startswith("STR"):
                return self.word(st, k, a, me)
        raise Unknown("stream function " + d)

    # ---------- input
    def getc(self, st, k, advance=True):
        """-> [(state, item or None at the end)]; does nothing if the stream is not good"""
        dd = st.notes[k]
        if dd["inp"] is None:
            raise Unknown("input not determined")
        if dd["bits"]:
            return [(st, None)]
        if dd["pos"] >= len(dd["inp"]):
            self.upd(st, k, bits=dd["bits"] | 2)
            return [(st, None)]
        c = dd["inp"][dd["pos"]]
        if advance:
            self.upd(st, k, pos=dd["pos"] + 1)
        return [(st, c)]

    def isspace(self, st, c):
        """-> [(state, bool)]"""
        if isinstance(c, int):
            return [(st, c in SPACE)]
        if isinstance(c, tuple):
            return [(st, False)]
        return [(s, const(v[2]) != 0) for s, v in self.classify(st, "isspace", c)]

    def skip(self, st, k, ws=False):
        """skip white space; sets eof at the end"""
        out, work = [], [st]
        if st.notes[k]["bits"]:
            self.upd(st, k, bits=st.notes[k]["bits"] | (0 if ws else 4))
            return [st]
        while work:
            s = work.pop()
            dd = s.notes[k]
            if dd["inp"] is None:
                raise Unknown("input not determined")
            if dd["pos"] >= len(dd["inp"]):
                self.upd(s, k, bits=dd["bits"] | (2 if ws else 6))
                out.append(s)
                continue
            for s2, sp in self.isspace(s, dd["inp"][dd["pos"]]):
                if sp:
                    self.upd(s2, k, pos=dd["pos"] + 1)
                    work.append(s2)
                else:
                    out.append(s2)
        return out

    def isdigit(self, st, c):
        if isinstance(c, int):
            return [(st, 48 <= c <= 57)]
        if isinstance(c, tuple):
            return [(st, False)]
        return [(s, const(v[2]) != 0) for s, v in self.classify(st, "isdigit", c)]

    def extract_number(self, st, k, dst, w, signed):
        out = []
        lo, hi = srange(w) if signed else (0, (1 << w) - 1)

        def store(s, f):
            s.mem[dst[1]].cells[const(dst[2])] = (w // 8, I(w, f))
        for s in self.skip(st, k):
            dd = s.notes[k]
            if dd["bits"]:
                store(s, P(0))
                out.append(s)
                continue
            pos, inp = dd["pos"], dd["inp"]
            # sign
            starts = []
            c = inp[pos]
            if isinstance(c, tuple) and c[0] in ("n", "u"):
                # a whole decimal number; the text after it decides where it ends
                f = dict(c[1])
                if pos + 1 < len(inp) and not isinstance(inp[pos + 1], int):
                    raise Unknown("number followed by symbolic text")
                if pos + 1 < len(inp) and 48 <= inp[pos + 1] <= 57:
                    raise Unknown("number followed by a digit")
                self.upd(s, k, pos=pos + 1, bits=2 if pos + 1 == len(inp) else 0)
                store(s, f)
                out.append(s)
                continue
            for s1, plus in self.eqc(s, c, 43):
                for s2, minus in ([(s1, False)] if plus else self.eqc(s1, c, 45)):
                    starts.append((s2, 1 if plus or minus else 0, -1 if minus else 1))
            for s2, adv, sg in starts:
                if adv and pos + 1 < len(inp) and isinstance(inp[pos + 1], tuple) and inp[pos + 1][0] == "u":
                    p2 = pos + 2
                    if p2 < len(inp) and not isinstance(inp[p2], int):
                        raise Unknown("number followed by symbolic text")
                    self.upd(s2, k, pos=p2, bits=2 if p2 == len(inp) else 0)
                    store(s2, scale(dict(inp[pos + 1][1]), sg))
                    out.append(s2)
                    continue
                work = [(s2, pos + adv, ())]
                while work:
                    s3, p, ds = work.pop()
                    if p < len(inp):
                        nxt = self.isdigit(s3, inp[p])
                    else:
                        nxt = [(s3, False)]
                    for s4, dg in nxt:
                        if dg:
                            work.append((s4, p + 1, ds + (inp[p],)))
                            continue
                        bits = 2 if p >= len(inp) else 0
                        v = P(0)
                        for x in ds:
                            v = addc(add(scale(v, 10), P(x) if isinstance(x, int) else x), -48)
                        v = scale(v, sg)
                        if not ds:
                            self.upd(s4, k, pos=p, bits=bits | 4)
                            store(s4, P(0))
                            out.append(s4)
                            continue
                        l, h = s4.poly.range(v)
                        if l > hi or h < lo:
                            self.upd(s4, k, pos=p, bits=bits | 4)
                            store(s4, P(hi if l > hi else lo))
                        elif l >= lo and h <= hi:
                            self.upd(s4, k, pos=p, bits=bits)
                            store(s4, v)
                        else:
                            raise Unknown("number at the limit of the type")
                        out.append(s4)
        return out

    def word(self, st, k, a, me):
        outs = []
        for s in self.skip(st, k):
            if s.notes[k]["bits"]:
                outs.append((s, me))
                continue
            work = [(s, ())]
            while work:
                s1, w = work.pop()
                dd = s1.notes[k]
                if dd["pos"] >= len(dd["inp"]):
                    self.upd(s1, k, bits=2)
                    self.put_string(s1, a[1], w)
                    outs.append((s1, me))
                    continue
                c = dd["inp"][dd["pos"]]
                for s2, sp in self.isspace(s1, c):
                    if sp:
                        self.put_string(s2, a[1], w)
                        outs.append((s2, me))
                    else:
                        self.upd(s2, k, pos=dd["pos"] + 1)
                        work.append((s2, w + (c,)))
        return outs

    def getline(self, st, k, a, delim, me):
        if st.notes[k]["bits"]:
            self.upd(st, k, bits=st.notes[k]["bits"] | 4)
            return [(st, me)]
        outs, work = [], [(st, ())]
        while work:
            s, w = work.pop()
            dd = s.notes[k]
            if dd["inp"] is None:
                raise Unknown("input not determined")
            if dd["pos"] >= len(dd["inp"]):
                self.upd(s, k, bits=2 | (0 if w else 4))
                self.put_string(s, a[1], w)
                outs.append((s, me))
                continue
            c = dd["inp"][dd["pos"]]
            for s2, e in self.eqc(s, c, delim):
                self.upd(s2, k, pos=dd["pos"] + 1)
                if e:
                    self.put_string(s2, a[1], w)
                    outs.append((s2, me))
                else:
                    work.append((s2, w + (c,)))
        return outs

    def input(self, st, ins, n, ps, a, d, me):
        k = self.stream(st, a[0])
        if n == "tellg":
            dd = st.notes[k]
            if dd["bits"] & 5:
                return [(st, ("agg", [I(64, P(-1)), I(64, P(0))]))] if ins["ty"] != "i64" else [(st, I(64, P(-1)))]
            v = I(64, P(dd["pos"]))
            if ins["ty"] == "i64":
                return [(st, v)]
            return [(st, ("agg", [v, I(64, P(0))]))]
        if n == "seekg":
            dd = st.notes[k]
            bits = dd["bits"] & ~2
            if bits & 5:
                return [(st, me)]
            if len(ps) > 1:
                raise Unknown("relative seek")
            v = self.asint(st, a[1], 64)
            p = const(v[2])
            if p is None:
                raise Unknown("seek position")
            self.upd(st, k, bits=bits, pos=p)
            return [(st, me)]
        if n == "peek":
            r = self.getc(st, k, False)
            return [(s, I(32, P(-1) if c is None else self.cint(c))) for s, c in r]
        if n == "get":
            if not ps:
                out = []
                for s, c in self.getc(st, k):
                    if c is None:
                        self.upd(s, k, bits=s.notes[k]["bits"] | 4)
                    out.append((s, I(32, P(-1) if c is None else self.cint(c))))
                return out
            if ps == ["char&"]:
                out = []
                for s, c in self.getc(st, k):
                    if c is None:
                        self.upd(s, k, bits=s.notes[k]["bits"] | 4)
                    else:
                        s.mem[a[1][1]].cells[const(a[1][2])] = (1, self.cell(c))
                    out.append((s, me))
                return out
        if n in ("unget", "putback"):
            dd = st.notes[k]
            bits = dd["bits"] & ~2
            if bits & 5 or dd["pos"] == 0:
                self.upd(st, k, bits=bits | 5)
            else:
                self.upd(st, k, bits=bits, pos=dd["pos"] - 1)
            return [(st, me)]
        if n == "ignore":
            cnt = const(a[1][2]) if ps else 1
            delim = const(a[2][2]) if len(ps) > 1 else None
            s = st
            while cnt > 0:
                (s, c), = self.getc(s, k)
                if c is None:
                    break
                if not isinstance(c, int):
                    raise Unknown("ignore")
                if delim is not None and c == delim:
                    break
                cnt -= 1
            return [(s, me)]
        raise Unknown("stream function " + d)

    def cint(self, c):
        if isinstance(c, int):
            return P(c)
        if isinstance(c, dict):
            return c
        raise Unknown("character of opaque text")


def show_items(t):
    r = ""
    for x in t:
        if isinstance(x, int):
            r += chr(x)
        elif isinstance(x, tuple):
            r += "" if x[0] == "flush" else "<%s>" % (x[1] if x[0] == "w" else "num")
        else:
            r += "<?>"
    return r
