"""Linear integer expressions over shape atoms, and the polyhedral (Fourier-Motzkin) entailment used
by the abstract interpreter.  All atoms denote integers, so refutation is done on `e <= -1`."""
from math import gcd


class Lin:
    __slots__ = ("t", "c", "_h")

    def __init__(self, t=(), c=0):
        self.t = t          # tuple of (atom, coef), sorted by atom, coef != 0
        self.c = c
        self._h = None

    @staticmethod
    def of(d, c=0):
        return Lin(tuple(sorted((a, k) for a, k in d.items() if k != 0)), c)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.t, self.c))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t and self.c == o.c

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o) if o else self
        if not o.t:
            return Lin(self.t, self.c + o.c) if o.c else self
        if not self.t:
            return Lin(o.t, self.c + o.c)
        d = dict(self.t)
        for a, k in o.t:
            d[a] = d.get(a, 0) + k
        return Lin.of(d, self.c + o.c)

    __radd__ = __add__

    def __neg__(self):
        return Lin(tuple((a, -k) for a, k in self.t), -self.c)

    def __sub__(self, o):
        if isinstance(o, int):
            return self + (-o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if k == 0:
            return Lin()
        return Lin(tuple((a, c * k) for a, c in self.t), self.c * k)

    __rmul__ = __mul__

    def coef(self, a):
        for x, k in self.t:
            if x == a:
                return k
        return 0

    def atoms(self):
        return [a for a, _ in self.t]

    def subst(self, m):
        """m: atom -> Lin"""
        if not any(a in m for a, _ in self.t):
            return self
        d, c = {}, self.c
        for a, k in self.t:
            r = m.get(a)
            if r is None:
                d[a] = d.get(a, 0) + k
            else:
                c += k * r.c
                for b, j in r.t:
                    d[b] = d.get(b, 0) + k * j
        return Lin.of(d, c)

    def __repr__(self):
        s = ""
        for a, k in self.t:
            n = aname(a)
            s += (" + " if k > 0 else " - ") if s else ("" if k > 0 else "-")
            s += n if abs(k) == 1 else "%s*%s" % (cst(abs(k)), n)
        if self.c or not s:
            s += (" + " if self.c > 0 else " - ") + cst(abs(self.c)) if s else cst(self.c)
        return s


def cst(k):
    if k > 4096 and (k & (k - 1)) == 0:
        return "2^%d" % (k.bit_length() - 1)
    if k > 4096 and ((k + 1) & k) == 0:
        return "(2^%d-1)" % (k.bit_length())
    return str(k)


ZERO = Lin()
ONE = Lin((), 1)


def L(x):
    return x if isinstance(x, Lin) else Lin((), x)


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("name", "cons", "kind", "info", "data")

    def __init__(self, name, kind, info, data):
        self.name, self.kind, self.info, self.data = name, kind, info, data
        self.cons = []      # intrinsic constraints: list of Lin >= 0


class Table:
    def __init__(self):
        self.atoms = []
        self.memo = {}


TAB = Table()


def reset():
    global TAB
    TAB = Table()
    _sat_cache.clear()


def new_atom(name, lo=None, hi=None, kind="var", info=None, data=False):
    i = len(TAB.atoms)
    a = Atom(name, kind, info, data)
    TAB.atoms.append(a)
    l = Lin(((i, 1),))
    if lo is not None:
        a.cons.append(l - lo)
    if hi is not None:
        a.cons.append(L(hi) - l)
    return l


def atom(i):
    return TAB.atoms[i]


def aname(i):
    return TAB.atoms[i].name


def is_data(lin):
    return any(TAB.atoms[a].data for a, _ in lin.t)


# ------------------------------------------------------------------ feasibility of  { c_i >= 0 }
_sat_cache = {}
MAXC = 700
PENALTY = 25


def _tighten(d, c):
    g = 0
    for k in d.values():
        g = gcd(g, k)
    if g > 1:
        d = {a: k // g for a, k in d.items()}
        c = c // g      # floor: integer tightening
    return d, c


def tight(e):
    """the same integer constraint e >= 0 with coprime coefficients"""
    g = 0
    for _, k in e.t:
        g = gcd(g, k)
        if g == 1:
            return e
    if g <= 1:
        return e
    return Lin(tuple((a, k // g) for a, k in e.t), e.c // g)


def feasible(cons):
    """cons: iterable of Lin (>= 0).  False only if there is no rational (hence no integer) solution
    after integer tightening; True means "not refuted"."""
    key = frozenset(cons)
    r = _sat_cache.get(key)
    if r is None:
        r = _feasible(key)
        _sat_cache[key] = r
    return r


def _add(S, d, c):
    """S: dict key->(d,c). returns False on contradiction"""
    if not d:
        return c >= 0
    d, c = _tighten(d, c)
    k = tuple(sorted(d.items()))
    o = S.get(k)
    if o is None or c < o:
        S[k] = c
        nk = tuple((a, -v) for a, v in k)
        n = S.get(nk)
        if n is not None and n + c < 0:
            return False
    return True


def _feasible(cons):
    S = {}
    for l in cons:
        if not _add(S, dict(l.t), l.c):
            return False
    while True:
        # equality substitution: k and -k with c + c' == 0, unit coefficient
        eq = None
        for k, c in S.items():
            nk = tuple((a, -v) for a, v in k)
            n = S.get(nk)
            if n is not None and n + c == 0:
                for a, v in k:
                    if abs(v) == 1:
                        eq = (k, c, a, v)
                        break
                if eq:
                    break
        if eq:
            k, c, a, v = eq
            # v*a + rest + c == 0  -> a = -(rest + c)/v
            rest = {b: -w * v for b, w in k if b != a}
            rc = -c * v
            S2 = {}
            for kk, cc in S.items():
                d = dict(kk)
                w = d.pop(a, 0)
                if w:
                    for b, x in rest.items():
                        d[b] = d.get(b, 0) + w * x
                        if d[b] == 0:
                            del d[b]
                    cc = cc + w * rc
                if not _add(S2, d, cc):
                    return False
            S = S2
            continue
        if not S:
            return True
        pos, neg, big = {}, {}, {}
        for k in S:
            for a, v in k:
                if v > 0:
                    pos[a] = pos.get(a, 0) + 1
                    if v > 1:
                        big[a] = big.get(a, 0) | 1
                else:
                    neg[a] = neg.get(a, 0) + 1
                    if v < -1:
                        big[a] = big.get(a, 0) | 2
        best, bc = None, None
        for a in set(pos) | set(neg):
            p, n = pos.get(a, 0), neg.get(a, 0)
            cost = p * n - p - n
            if big.get(a) == 3 and p and n:
                cost += PENALTY       # inexact over the integers: later
            if bc is None or cost < bc or (cost == bc and a < best):
                best, bc = a, cost
        a = best
        P, N, S2 = [], [], {}
        for k, c in S.items():
            v = 0
            for b, w in k:
                if b == a:
                    v = w
                    break
            if v > 0:
                P.append((k, c, v))
            elif v < 0:
                N.append((k, c, -v))
            else:
                S2[k] = c
        for k1, c1, v1 in P:
            for k2, c2, v2 in N:
                d = {}
                for b, w in k1:
                    if b != a:
                        d[b] = w * v2
                for b, w in k2:
                    if b != a:
                        x = d.get(b, 0) + w * v1
                        if x:
                            d[b] = x
                        else:
                            d.pop(b, None)
                if not _add(S2, d, c1 * v2 + c2 * v1):
                    return False
        S = S2
        if len(S) > MAXC:
            return True     # give up: not refuted


def closure(cons, seed):
    """constraints connected to the atoms of seed (intrinsics included)"""
    seen = set()
    out = []
    work = list(seed)
    byatom = {}
    for c in cons:
        for a, _ in c.t:
            byatom.setdefault(a, []).append(c)
    used = set()
    while work:
        a = work.pop()
        if a in seen:
            continue
        seen.add(a)
        for c in byatom.get(a, ()):
            if c not in used:
                used.add(c)
                out.append(c)
                work.extend(x for x, _ in c.t if x not in seen)
        for c in TAB.atoms[a].cons:
            if c not in used:
                used.add(c)
                out.append(c)
                work.extend(x for x, _ in c.t if x not in seen)
    return out, seen


# ------------------------------------------------------------------ an integer point of a polyhedron
def witness(cons, budget=4000, rng=None):
    """A small integer assignment of the atoms satisfying every constraint, or None.  Only used to make
    reports concrete and to discard infeasible traces."""
    cons = list(dict.fromkeys(cons))
    atoms = sorted({a for c in cons for a, _ in c.t})
    cnt = [0]

    def bounds(cs, a):
        """rational projection bounds of a by elimination of the others"""
        lo = hi = None
        others = [x for x in {y for c in cs for y, _ in c.t} if x != a]
        S = {}
        for l in cs:
            if not _add(S, dict(l.t), l.c):
                return None
        while others:
            def cost(x):
                p = sum(1 for k in S if dict(k).get(x, 0) > 0)
                n = sum(1 for k in S if dict(k).get(x, 0) < 0)
                return p * n - p - n
            x = min(others, key=cost)
            others.remove(x)
            P, N, S2 = [], [], {}
            for k, c in S.items():
                v = dict(k).get(x, 0)
                (P if v > 0 else N).append((k, c, abs(v))) if v else S2.__setitem__(k, c)
            for k1, c1, v1 in P:
                for k2, c2, v2 in N:
                    d = {}
                    for b, w in k1:
                        if b != x:
                            d[b] = w * v2
                    for b, w in k2:
                        if b != x:
                            d[b] = d.get(b, 0) + w * v1
                    d = {b: w for b, w in d.items() if w}
                    if not _add(S2, d, c1 * v2 + c2 * v1):
                        return None
            S = S2
            if len(S) > MAXC:
                break
        for k, c in S.items():
            if len(k) == 1 and k[0][0] == a:
                v = k[0][1]
                if v > 0:
                    b = -(c // v)
                    lo = b if lo is None else max(lo, b)
                else:
                    b = c // (-v)
                    hi = b if hi is None else min(hi, b)
        if lo is not None and hi is not None and lo > hi:
            return None
        return lo, hi

    def go(cs, todo, asg):
        cnt[0] += 1
        if cnt[0] > budget:
            return None
        if not todo:
            return asg if all(c.c >= 0 for c in cs if not c.t) else None
        a = todo[0]
        r = bounds([c for c in cs if c.t], a)
        if r is None or any(not c.t and c.c < 0 for c in cs):
            return None
        lo, hi = r
        cand = []
        if lo is not None and hi is not None:
            mid = (lo + hi) // 2
            cand = list(dict.fromkeys([lo, hi, mid, lo + 1, hi - 1] + list(range(lo, min(hi, lo + 130) + 1))))
            cand = [x for x in cand if lo <= x <= hi]
        elif lo is not None:
            cand = list(range(lo, lo + 10))
        elif hi is not None:
            cand = list(range(hi, hi - 10, -1))
        else:
            cand = [0, 1, 2, 3]
        if rng is not None:
            if lo is not None and hi is not None and hi - lo > 3:
                cand += [rng.randint(lo, hi), rng.randint(lo, min(hi, lo + 3))]
            elif lo is not None and hi is None:
                cand += [lo + rng.randint(0, 70)]
            if len(cand) > 12:
                cand = rng.sample(cand, 12)
            else:
                rng.shuffle(cand)
        for x in cand:
            cs2 = [c.subst({a: Lin((), x)}) for c in cs]
            if any(not c.t and c.c < 0 for c in cs2):
                continue
            r = go(cs2, todo[1:], {**asg, a: x})
            if r is not None:
                return r
            if cnt[0] > budget:
                return None
        return None

    return go(cons, atoms, {})
