"""Concretisation of an abstract counterexample: a member of the abstract state (values for the shape atoms
and for the input bits) that satisfies every constraint and fact of the trace.  A difference between the
derived and the specified result is reported only together with such a member; without one the obligation
counts as undecided.  Terms are evaluated, never the program."""
import random
import lin
from lin import Lin, L
from dom import *


class Opaque(Exception):
    pass


class Model:
    def __init__(self, st, rng):
        self.st, self.rng = st, rng
        self.shape = {}
        self.inputs = {}
        self.bools = {}
        self.memo = {}
        self.asg = {}
        self.busy = set()

    # ---------------------------------------------------------- evaluation of terms
    def lin(self, e):
        v = e.c
        for a, k in e.t:
            v += k * self.atom(a)
        return v

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        at = lin.atom(a)
        k = at.kind
        if k == "div":
            v = self.lin(at.info[0]) // at.info[1]
        elif k == "pow2":
            s = self.lin(at.info)
            if s < 0 or s > 1 << 16:
                raise Opaque("pow2")
            v = 1 << s
        elif k == "mul":
            v = self.lin(at.info[0]) * self.lin(at.info[1])
        elif k == "val":
            v = self.bits(at.info)
        elif k == "N":
            v = self.whole(at.info)
        elif k == "term":
            v = self.term(at.info)
        elif k == "hv":
            raise Opaque("hv")
        else:
            v = self.shape.get(a)
            if v is None:
                if a not in self.st.sub or a in self.busy:
                    raise Opaque("atom " + at.name)
                # a shape solved by substitution: quotients of itself come from the assignment
                self.busy.add(a)
                v = 0
                e = self.st.sub[a]
                v = e.c
                for b, k in e.t:
                    if lin.atom(b).kind != "var" and b in self.asg:
                        v += k * self.asg[b]
                    else:
                        v += k * self.atom(b)
                self.busy.discard(a)
                self.shape[a] = v
        self.memo[a] = v
        return v

    def subst_value(self, a):
        e = self.st.sub[a]
        v = e.c
        for b, k in e.t:
            v += k * (self.asg[b] if b in self.asg else self.atom(b))
        return v

    def term(self, t):
        if t[0] == "wrap":
            w = t[1]
            v = self.lin(t[2]) & ((1 << w) - 1)
            return v - (1 << w) if v >> (w - 1) else v
        f = TERMS.get(t[0])
        if f is None:
            raise Opaque("term %s" % (t[0],))
        return f(self, t)

    def whole(self, key):
        if key[0] == "in":
            return self.inputs[key[1]]
        raise Opaque("number of " + repr(key))

    def bit(self, key, addr):
        k = key[0]
        if k == "in":
            if addr < 0:
                raise Opaque("negative address")
            return (self.inputs[key[1]] >> addr) & 1
        if k == "num":
            if addr < 0:
                raise Opaque("negative address")
            return (self.lin(key[1]) >> addr) & 1
        if k == "bool":
            return int(self.cond(key[1]))
        if k == "mem":
            t = key[1]
            kk = ("m", t)
            if kk not in self.memo:
                self.memo[kk] = self.term(t)
            return (self.memo[kk] >> addr) & 1
        raise Opaque("source " + repr(key))

    def src(self, s, b):
        if s in (0, 1):
            return s
        if s == TOPBIT:
            raise Opaque("top")
        x = 0
        for i, (key, off, stride) in enumerate(s[2]):
            if self.bit(key, stride * b + self.lin(off)):
                x |= 1 << i
        return (s[1] >> x) & 1

    def bits(self, B):
        v = 0
        for l, h, s in B.segs:
            l, h = self.lin(l), self.lin(h)
            if s == 0:
                continue
            for b in range(l, min(h, B.w)):
                if self.src(s, b):
                    v |= 1 << b
        return v

    def cond(self, c):
        t = c[0]
        if t == "c":
            return c[1]
        if t == "lin":
            return self.lin(c[1]) >= 0
        if t == "not":
            return not self.cond(c[1])
        if t == "and":
            return self.cond(c[1]) and self.cond(c[2])
        if t == "or":
            return self.cond(c[1]) or self.cond(c[2])
        if t == "rz":
            lo, hi = self.lin(c[2]), self.lin(c[3])
            return all(self.src(c[1], b) == 0 for b in range(lo, hi))
        if t == "ult":
            return self.bits(c[1]) < self.bits(c[2])
        if t == "data":
            if c[1] in ("arg", "has"):
                return self.bools.setdefault(c, self.rng.random() < 0.5)
            if c[1] == "slt":
                x, y = (self.sint(v) for v in c[2:4])
                return x < y
            f = TERMS.get(c[1])
            if f:
                return f(self, c[1:])
        raise Opaque("condition %r" % (c[:2],))

    def sint(self, v):
        if isinstance(v.rep, Lin):
            return self.lin(v.rep)
        x = self.bits(v.rep)
        return x - (1 << v.w) if v.signed and x >> (v.w - 1) else x


def digitchar(m, t):
    d = m.bits(t[1])
    if d >= 36:
        raise Opaque("digit")
    return ord("0123456789abcdefghijklmnopqrstuvwxyz"[d])


def display(m, t):
    return int.from_bytes(str(m.bits(t[1])).encode(), "little")


def table(m, t):
    i = m.bits(t[2])
    if i >= len(t[1]):
        raise Opaque("table")
    return t[1][i]


def word_of(m, t):
    return (m.bits(t[2]) if isinstance(t[2], Bits) else m.lin(t[2])) & ((1 << t[1]) - 1)


def word_val(m, x):
    x = x.rep if isinstance(x, VInt) else x
    return m.bits(x) if isinstance(x, Bits) else m.lin(x)


def trailing(m, t):
    v = word_of(m, t)
    return t[1] if v == 0 else (v & -v).bit_length() - 1


TERMS = {"leading_zeros": lambda m, t: t[1] - word_of(m, t).bit_length(), "trailing_zeros": trailing,
         "count_ones": lambda m, t: bin(word_of(m, t)).count("1"), "count_zeros": lambda m, t: t[1] - bin(word_of(m, t)).count("1"),
         "is_pow2": lambda m, t: bin(word_val(m, t[1])).count("1") == 1, "table": table, "digitchar": digitchar, "display": display, "displen": lambda m, t: len(str(m.bits(t[1])))}


def _set(m, key, addr, v):
    if key[0] != "in" or addr < 0:
        return
    n = key[1]
    w = m.lin(m.st.W.inputs[n])
    if addr >= w:
        return
    m.inputs[n] = (m.inputs[n] & ~(1 << addr)) | (int(v) << addr)


def _force(m, c, v):
    """nudge the inputs towards making c == v"""
    t = c[0]
    r = m.rng
    if t == "not":
        return _force(m, c[1], not v)
    if t == "rz":
        lo, hi = m.lin(c[2]), m.lin(c[3])
        if lo >= hi:
            return
        f = c[1]
        if f in (0, 1, TOPBIT):
            return
        pos = range(lo, hi) if v else [r.choice([lo, hi - 1, r.randint(lo, hi - 1)])]
        want = 0 if v else 1
        for b in pos:
            try:
                if m.src(f, b) == want:
                    continue
            except Opaque:
                return
            opts = [x for x in range(1 << len(f[2])) if ((f[1] >> x) & 1) == want]
            if not opts:
                return
            x = r.choice(opts)
            for i, (key, off, stv) in enumerate(f[2]):
                _set(m, key, stv * b + m.lin(off), (x >> i) & 1)
    elif t == "data" and c[1] == "is_pow2" and isinstance(c[2].rep, Bits):
        if m.cond(c) != v:
            # keep the highest bit, so that facts about it survive
            old = m.bits(c[2].rep)
            top = old.bit_length() - 1 if old else r.randint(0, c[2].w - 1)
            _assign_bits(m, c[2].rep, 1 << top if v else 3 << max(0, top - 1))


def _assign_bits(m, B, val):
    for l, h, s in B.segs:
        if s in (0, 1, TOPBIT) or len(s[2]) != 1:
            continue
        key, off, stv = s[2][0]
        for b in range(m.lin(l), m.lin(h)):
            bit = (val >> b) & 1
            _set(m, key, stv * b + m.lin(off), bit if s[1] == 2 else 1 - bit)


def models(st, extra=(), tries=60, seed=1):
    """generate members of the abstract state (with the extra constraints e >= 0)"""
    rng = random.Random(seed)
    if ("imprecise",) in st.facts:
        return
    base = list(extra)
    atoms = set()
    # a range known to be zero cannot contain the range known not to be
    rzs = [(c, v) for c, v in st.facts.items() if c[0] == "rz"]
    for c, v in rzs:
        if v:
            for d, u in rzs:
                if not u and d[1] == c[1]:
                    if st.ge0(d[2] - c[2]) and st.ge0(d[3] - c[3]) is not False:
                        base.append(d[3] - c[3] - 1)
                    elif st.ge0(c[3] - d[3]):
                        base.append(c[2] - d[2] - 1)
    for c, v in st.facts.items():
        ls = []
        try:
            map_cond(c, lambda l: (ls.append(l), l)[1])
        except AssertionError:
            return
        for l in ls:
            atoms.update(st.deps(l))
    for w in st.W.inputs.values():
        atoms.update(st.deps(st.norm(w)))
    for e in base:
        atoms.update(st.deps(e))
    for a in list(atoms):
        if a in st.sub:
            atoms.update(st.deps(st.sub[a]))
    seed_cons = st.all_cons([Lin(((a, 1),)) for a in atoms])
    cons = list(dict.fromkeys(list(seed_cons) + [st.norm(e) for e in base]))
    cons = [st.norm(c) for c in cons]
    if any(not c.t and c.c < 0 for c in cons):
        return
    last = None
    # mostly small members: word counts up to 5
    small = cons + [-Lin(((a, 1),)) + 5 for a in sorted({a for c in cons for a, _ in c.t})
                    if lin.atom(a).kind == "var" and lin.aname(a).startswith("n")]
    if not lin.feasible(small):
        small = cons
    for t in range(tries):
        asg = lin.witness(cons if t % 4 == 3 else small, 900, rng)
        if asg is None:
            if t > 6 and last is None:
                return
            continue
        last = asg
        m = Model(st, rng)
        m.asg = asg
        m.shape = {a: v for a, v in asg.items() if lin.atom(a).kind in ("var", "kappa")}
        m.bools = {c: v for c, v in st.facts.items() if c[0] == "data" and c[1] in ("arg", "has")}
        try:
            for n, w in st.W.inputs.items():
                w = m.lin(w)
                if w > 20000 or w < 0:
                    raise Opaque("size")
                p = rng.randint(0, 6)
                full = (1 << w) - 1
                m.inputs[n] = (0 if p == 0 else full if p == 1 else rng.randint(0, 2) & full if p == 2 else
                               (1 << (w - 1) if w else 0) if p == 3 else rng.getrandbits(w) if w else 0)
            for a, v in asg.items():
                at = lin.atom(a)
                if at.kind == "val":
                    _assign_bits(m, at.info, v)
                elif at.kind == "term" and at.info[0] in ("count_ones", "count_zeros") and isinstance(at.info[2], Bits):
                    k = v if at.info[0] == "count_ones" else at.info[1] - v
                    if 0 <= k <= at.info[1]:
                        _assign_bits(m, at.info[2], sum(1 << b for b in rng.sample(range(at.info[1]), k)))
                elif at.kind == "N" and at.info[0] == "in":
                    if v < 1 << m.lin(st.W.inputs[at.info[1]]):
                        m.inputs[at.info[1]] = v
            for a in st.sub:
                at = lin.atom(a)
                if at.kind in ("val", "N"):
                    try:
                        v = m.subst_value(a)
                    except Opaque:
                        continue
                    if at.kind == "val":
                        _assign_bits(m, at.info, v)
                    elif at.info[0] == "in" and 0 <= v < 1 << m.lin(st.W.inputs[at.info[1]]):
                        m.inputs[at.info[1]] = v
            m.memo = {}
            for rnd in range(3):
                for c, v in st.facts.items():
                    m.memo = {}
                    _force(m, c, v)
            m.memo = {}
            if not all(m.lin(c) >= 0 for c in st.cons):
                continue
            if not all(m.lin(st.norm(e)) >= 0 for e in base):
                continue
            if not all(m.cond(c) == v for c, v in st.facts.items()):
                continue
        except Opaque:
            continue
        yield m


def describe(m):
    out = []
    for n, w in m.st.W.inputs.items():
        w = m.lin(w)
        h = "%x" % m.inputs[n]
        if len(h) > 60:
            h = h[:28] + "..." + h[-28:]
        out.append("%s=%d'h%s" % (n, w, h))
    for a, v in m.shape.items():
        nm = lin.aname(a)
        if not nm.startswith(("n", "r", "k", "_")):
            out.append("%s=%d" % (nm, v))
    for c, v in m.bools.items():
        out.append("%s=%s" % ("%s#%s present" % c[2:] if c[1] == "has" else c[2], v))
    return " ".join(out)
