"""Evaluates a specification over partially known words.
A word is a list of characters, each a set of possible codes. The specification asks questions
(is character k in this set?); where the answer is open both answers are explored."""


class Run:
    def __init__(self, words, script):
        self.words = [[set(x) for x in w] for w in words]
        self.script, self.used = script, []

    def within(self, w, k, s):
        d = self.words[w][k]
        i = d & s
        if not i:
            return False
        if i == d:
            return True
        n = len(self.used)
        b = self.script[n] if n < len(self.script) else True
        self.used.append(b)
        self.words[w][k] = i if b else d - s
        return b


class Word:
    """view of word w of a run, from position off"""

    def __init__(self, run, w, off=0):
        self.run, self.w, self.off = run, w, off

    def __len__(self):
        return len(self.run.words[self.w]) - self.off

    def within(self, k, s):
        return self.run.within(self.w, self.off + k, s)

    def at(self, k, c):
        return k < len(self) and self.within(k, {ord(c)})

    def starts(self, lit):
        return len(lit) <= len(self) and all(self.within(k, {ord(c)}) for k, c in enumerate(lit))

    def equals(self, lit):
        return len(lit) == len(self) and self.starts(lit)

    def has(self, c):
        return any(self.within(k, {ord(c)}) for k in range(len(self)))

    def sub(self, off):
        return Word(self.run, self.w, self.off + off)

    def one_of(self, lits):
        return any(self.equals(x) for x in lits)


def outcomes(words, spec, limit=20000):
    """-> list of (result, witness texts)"""
    out, work, n = [], [[]], 0
    while work:
        sc = work.pop()
        n += 1
        if n > limit:
            raise ValueError("too many cases")
        r = Run(words, sc)
        v = spec([Word(r, i) for i in range(len(words))])
        for k in range(len(sc), len(r.used)):
            work.append(r.used[:k] + [not r.used[k]])
        out.append((v, ["".join(pick(c) for c in w) for w in r.words]))
    return out


def pick(s):
    for c in "aqxzA0_- ":
        if ord(c) in s:
            return c
    vis = [c for c in s if 33 <= c <= 126]
    return chr(vis[0]) if vis else "\\x%02x" % min(s)


def domains(st, items):
    """possible codes of each character on a path"""
    r = []
    for x in items:
        if isinstance(x, int):
            r.append({x})
        else:
            lo, hi = st.poly.range(x)
            r.append(set(range(int(lo), int(hi) + 1)))
    return r
