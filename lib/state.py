"""Abstract machine state: memory of value trees, word/object regions with a write log, the polyhedron of
shape constraints of the current trace, and the data predicates assumed on it."""
import lin
from lin import Lin, L, ZERO, ONE, closure, feasible
from dom import *


class Region:
    __slots__ = ("eb", "len", "base", "writes", "tag")

    def __init__(self, eb, length, base, writes=(), tag=""):
        self.eb, self.len, self.base, self.writes, self.tag = eb, length, base, tuple(writes), tag

    def repl(self, **k):
        d = dict(eb=self.eb, length=self.len, base=self.base, writes=self.writes, tag=self.tag)
        d.update(k)
        return Region(**d)

    def key(self):
        return (self.eb, self.len, self.base, self.writes)

    def __repr__(self):
        return "Region(eb=%s,len=%r,base=%r,writes=%r)" % (self.eb, self.len, self.base, self.writes)


class Frame:
    __slots__ = ("fid", "body", "bb", "si", "dest", "target", "inloop", "callsp")

    def __init__(self, fid, body, dest, target, callsp=None):
        self.fid, self.body, self.bb, self.si = fid, body, 0, 0
        self.dest, self.target = dest, target
        self.inloop = frozenset()
        self.callsp = callsp

    def clone(self):
        f = Frame.__new__(Frame)
        f.fid, f.body, f.bb, f.si, f.dest, f.target, f.inloop, f.callsp = (
            self.fid, self.body, self.bb, self.si, self.dest, self.target, self.inloop, self.callsp)
        return f


class World:
    """per-analysis globals"""
    def __init__(self, prog):
        self.prog = prog
        self.inputs = {}        # bit-source name -> number of meaningful bits (Lin); bits above are zero
        self.next_id = 0
        self.assumed = set()
        self.steps = 0
        self.assume_nowrap = True
        self.limit = 400000
        self.maps = {}          # input maps: name -> value(eng, st, key, j)
        self.stats = {"calls": 0, "blocks": 0, "loops": 0, "forks": 0}

    def fresh(self):
        self.next_id += 1
        return self.next_id


class State:
    __slots__ = ("W", "mem", "regions", "cons", "sub", "facts", "frames", "status", "ret", "log", "depth", "effects", "holes", "ticks")

    def __init__(self, W):
        self.W = W
        self.mem, self.regions = {}, {}
        self.cons, self.sub, self.facts = (), {}, {}
        self.frames = []
        self.status, self.ret = "run", None
        self.log = ()
        self.effects = ()
        self.holes = {}
        self.ticks = 0

    def clone(self):
        s = State.__new__(State)
        s.W = self.W
        s.mem, s.regions = dict(self.mem), dict(self.regions)
        s.cons, s.sub, s.facts = self.cons, self.sub, self.facts
        s.frames = [f.clone() for f in self.frames]
        s.status, s.ret, s.log, s.effects = self.status, self.ret, self.log, self.effects
        s.holes = self.holes
        s.ticks = self.ticks
        return s

    # ---------------------------------------------------------- shape constraints
    def norm(self, e):
        return e.subst(self.sub) if self.sub else e

    def norm_bits(self, b):
        return b.map(self.norm) if self.sub else b

    def norm_src(self, s):
        if s in (0, 1, TOPBIT):
            return s
        if self.sub:
            s = f_map(s, self.norm)
            if s in (0, 1, TOPBIT):
                return s
        if len(s[2]) == 1 and s[2][0][0][0] == "bool":
            c = self.cond_norm(s[2][0][0][1])
            r, neg = (c[1], False) if c[0] == "not" else (c, True)
            if r[0] == "c":
                return int(bool(r[1]) == neg) ^ int(s[1] == 1)
            if r[0] == "rz" and r[1] not in (0, 1, TOPBIT) and self.eq0(r[3] - r[2] - 1):
                # the truth of a single bit is that bit
                f = mk_f(r[1][1], [(k, self.norm(o + r[2] * d), 0) for k, o, d in r[1][2]])
                return self.norm_src(f_not(f) if neg ^ (s[1] == 1) else f)
        if self.facts:
            for k, off, stv in s[2]:
                if stv == 0 or k[0] == "bool":
                    v = self.known(("rz", ident(k, ZERO), off, off + 1)) if k[0] != "bool" else self.known(c_not(k[1]))
                    if v is not None:
                        bit = 0 if v else 1
                        i = s[2].index((k, off, stv))
                        n = len(s[2])
                        tt, y = 0, 0
                        for x in range(1 << n):
                            if ((x >> i) & 1) == bit:
                                if (s[1] >> x) & 1:
                                    tt |= 1 << y
                                y += 1
                        return self.norm_src(mk_f(tt, s[2][:i] + s[2][i + 1:]))
        return s

    def ge0(self, e):
        """True / False / None"""
        e = self.norm(e)
        if not e.t:
            return e.c >= 0
        if e in self.cons:
            return True
        C, _ = closure(self.cons, e.atoms())
        if not feasible(C + [-e - 1]):
            return True
        if not feasible(C + [e]):
            return False
        return None

    def decide(self, e):
        r = self.ge0(e)
        if r is None:
            raise Fork(self.norm(e))
        return r

    def eq0(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c == 0
        a = self.ge0(e)
        if a is False:
            return False
        b = self.ge0(-e)
        if b is False:
            return False
        if a and b:
            return True
        return None

    def decide_eq(self, e):
        return self.decide(e) and self.decide(-e)

    def add(self, e):
        """assume e >= 0; returns False when the trace becomes infeasible"""
        e = lin.tight(self.norm(e))
        if not e.t:
            return e.c >= 0
        if e in self.cons:
            return True
        C, _ = closure(self.cons, e.atoms())
        if not feasible(C + [e]):
            return False
        self.cons = self.cons + (e,)
        self._link(e)
        if not feasible(C + [e, e - 1]):        # e == 0 is implied
            if (-e) not in self.cons:
                self.cons = self.cons + (-e,)
            self._eq(e)
        return True

    def _link(self, e):
        """make the definitions of the quotients mentioned by e visible from their operands"""
        work = list(e.atoms())
        seen = set()
        while work:
            a = work.pop()
            if a in seen:
                continue
            seen.add(a)
            at = lin.atom(a)
            if at.kind == "div":
                for c in at.cons:
                    if c not in self.cons:
                        self.cons = self.cons + (c,)
                    work.extend(c.atoms())

    def _eq(self, e):
        cand = [a for a, k in e.t if abs(k) == 1 and not lin.atom(a).data]
        if not cand:
            cand = [a for a, k in e.t if abs(k) == 1]
        if not cand:
            return
        a = max(cand)
        k = e.coef(a)
        r = Lin(tuple((b, -c * k) for b, c in e.t if b != a), -e.c * k)
        m = {a: r}
        sub = {x: y.subst(m) for x, y in self.sub.items()}
        sub[a] = r
        self.sub = sub

    def feasible_now(self):
        return feasible(list(self.cons) + [c for a in {x for c in self.cons for x, _ in c.t} for c in lin.atom(a).cons])

    def all_cons(self, extra=()):
        seed = {x for c in self.cons for x, _ in c.t}
        for e in extra:
            seed.update(e.atoms())
        C, _ = closure(self.cons, seed)
        return C

    def bounds(self, e):
        """constant bounds of e on the trace (None if unbounded / not found)"""
        e = self.norm(e)
        if not e.t:
            return e.c, e.c
        C, _ = closure(self.cons, e.atoms())
        key = ("bnd", frozenset(C), e)
        r = lin._sat_cache.get(key)
        if r is not None:
            return r
        # quick interval estimate to seed the search
        lo = self._bisect(C, e, -1)
        hi = self._bisect(C, e, 1)
        lin._sat_cache[key] = (lo, hi)
        return lo, hi

    def _bisect(self, C, e, sgn):
        # greatest / least constant bound by doubling, within +-2^12
        f = e * sgn             # want least B with f <= B
        for B in (0, 1, 2, 7, 31, 63, 64, 65, 127, 128, 255, 256, 1024, 4096):
            if not feasible(C + [f - B - 1]):
                lo, hi = -5000, B
                while hi - lo > 1:
                    m = (lo + hi) // 2
                    if not feasible(C + [f - m - 1]):
                        hi = m
                    else:
                        lo = m
                return hi * sgn
        return None

    # ---------------------------------------------------------- derived atoms
    def divmod(self, e, d):
        e = self.norm(e)
        A, R = {}, {}
        for a, k in e.t:
            q, r = divmod(k, d)
            if r == 0:
                A[a] = q
            else:
                R[a] = k
        cq, cr = divmod(e.c, d)
        A = Lin.of(A, cq)
        rest = Lin.of(R, cr)
        if not rest.t:
            return A, rest
        big = d > 4096
        if big:
            # data-sized divisor: only interval facts decide
            for q in (0, 1, -1, 2):
                x = rest - d * q
                if self.ge0(x) and self.ge0(L(d - 1) - x):
                    return A + q, x
        else:
            lo, hi = self.bounds(rest)
            if lo is not None and hi is not None:
                a, b = lo // d, hi // d
                if a == b:
                    return A + a, rest - d * a
                if b - a <= 2 and not lin.is_data(rest):
                    c = a
                    while c < b and self.decide(rest - d * (c + 1)):
                        c += 1
                    return A + c, rest - d * c
        memo = lin.TAB.memo
        key = ("div", rest, d)
        q = memo.get(key)
        if q is None:
            data = lin.is_data(rest)
            q = lin.new_atom("(%r)/%s" % (rest, lin.cst(d)), kind="div", info=(rest, d), data=data)
            a = lin.atom(q.t[0][0])
            a.cons.append(rest - q * d)
            a.cons.append(q * d + (d - 1) - rest)
            memo[key] = q
        return A + q, rest - q * d

    def pow2(self, s):
        s = self.norm(s)
        if s.is_const():
            return L(1 << s.c)
        memo = lin.TAB.memo
        p = memo.get(("pow2", s))
        if p is None:
            p = lin.new_atom("2^(%r)" % s, 1, kind="pow2", info=s, data=False)
            a = lin.atom(p.t[0][0])
            # convexity: above the secants through neighbouring powers (exponents are whole numbers)
            for i in (0, 6):
                a.cons.append(p - (s - i + 1) * (1 << i))
            memo[("pow2", s)] = p
        return p

    def num_atom(self, key, name=None):
        """the unsigned number stored in a whole bit source"""
        memo = lin.TAB.memo
        p = memo.get(("N", key))
        if p is None:
            p = lin.new_atom(name or "N(%s)" % show_key(key), 0, kind="N", info=key, data=True)
            memo[("N", key)] = p
        return p

    def mul_atom(self, a, b):
        a, b = sorted((self.norm(a), self.norm(b)), key=lambda x: (x.t, x.c))
        memo = lin.TAB.memo
        p = memo.get(("mul", a, b))
        if p is None:
            lo = 0 if (self.ge0(a) and self.ge0(b)) else None
            p = lin.new_atom("(%r)*(%r)" % (a, b), lo, kind="mul", info=(a, b), data=True)
            memo[("mul", a, b)] = p
        return p

    def mul(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a.is_const():
            return b * a.c
        if b.is_const():
            return a * b.c
        return self.mul_atom(a, b)

    def num(self, b):
        """numeric view of a word"""
        b = seg_norm(self, b.w, b.segs)
        c = b.const()
        if c is not None:
            return L(c)
        if b.w > 64 and b.segs[-1][2] == 0 and b.segs[-1][0].is_const() and b.segs[-1][0].c <= 64:
            b = b_resize(self, b, 64)
        s0 = b.segs[0]
        if len(b.segs) <= 2 and s0[1] == ONE and (len(b.segs) == 1 or b.segs[1][2] == 0) and s0[2] not in (0, 1, TOPBIT) \
                and all(x[2] == 0 and x[0][0] != "num" for x in s0[2][2]):
            # a truth value as a number
            return ZERO if self.decide_cond(self.rz_norm(s0[2], ZERO, ONE)) else ONE
        # [0,k) = low k bits of an integer expression, rest zero
        if len(b.segs) <= 2 and (len(b.segs) == 1 or b.segs[1][2] == 0):
            l, h, s = s0
            if s not in (0, 1, TOPBIT) and len(s[2]) == 1 and s[1] == 2 and s[2][0][0][0] == "num" and s[2][0][2] == 1:
                (k, off, _), = s[2]
                if off == ZERO and not h.is_const():
                    x = self.width_of(k)
                    if x is not None and self.ge0(h - x):
                        return self.norm(k[1])
                if off == ZERO and h.is_const():
                    q, r = self.divmod(k[1], 1 << h.c)
                    return r
                if off.is_const() and off.c >= 0 and h.is_const():
                    q, r = self.divmod(k[1], 1 << off.c)
                    q, r = self.divmod(q, 1 << h.c)
                    return r
        # ones mask  [0,s)=1
        if len(b.segs) == 2 and s0[2] == 1 and b.segs[1][2] == 0:
            return self.pow2(s0[1]) - 1
        # one-hot
        nz = [x for x in b.segs if x[2] != 0]
        if len(nz) == 1 and nz[0][2] == 1 and self.eq0(nz[0][1] - nz[0][0] - 1):
            return self.pow2(nz[0][0])
        f = None
        for l, h, s in b.segs:
            if s not in (0, 1, TOPBIT):
                f = s
                break
        if f is not None and len(f[2]) == 1 and f[1] == 1:
            return L((1 << b.w) - 1) - self.num(b_not(b))
        whole = None
        if self.facts and len(nz) == 1 and f is not None and f[1] == 2 and len(f[2]) == 1 and f[2][0][2] == 1 and f[2][0][0][0] != "num":
            # is the word known to be zero, or not to be?
            whole = self.known(self.rz_norm(f, nz[0][0], nz[0][1]))
            if whole:
                return ZERO
        memo = lin.TAB.memo
        key = ("val", b)
        p = memo.get(key)
        if p is None and f is not None and s0[2] is f and f[1] == 2 and (len(b.segs) == 1 or len(b.segs) == 2 and b.segs[1][2] == 0) \
                and s0[1].is_const() and s0[1].c < 64:
            # the low bits of a word whose number is known
            full = memo.get(("val", seg_norm(self, 64, [(ZERO, L(64), f)])))
            if full is not None:
                return self.divmod(full, 1 << s0[1].c)[1]
        if p is None:
            top = b.w
            if b.segs[-1][2] == 0 and b.segs[-1][0].is_const():
                top = b.segs[-1][0].c
            lo, hi = 0, (1 << top) - 1
            if all(l.is_const() and h.is_const() for l, h, _ in b.segs):
                lo = sum((1 << h.c) - (1 << l.c) for l, h, s in b.segs if s == 1)
                hi = sum((1 << h.c) - (1 << l.c) for l, h, s in b.segs if s != 0)
            p = lin.new_atom("val%s" % show_bits_short(b), lo, hi, kind="val", info=b, data=True)
            memo[key] = p
        if b.segs[-1][2] == 0 and not b.segs[-1][0].is_const():
            # no more than k bits, on this state
            for k in (1, 4, 8, 16, 32):
                if self.ge0(k - b.segs[-1][0]):
                    self.add(L((1 << k) - 1) - p)
                    break
        if whole is False:
            self.add(p - 1)
        return p

    def bits_of(self, e, w):
        """bit view of an integer expression (two's complement, w bits)"""
        e = self.norm(e)
        if e.is_const():
            return bconst(w, e.c)
        if e.c == 0 and len(e.t) == 1 and e.t[0][1] == 1:
            a = lin.atom(e.t[0][0])
            if a.kind == "val":
                b = self.norm_bits(a.info)
                return b_resize(self, b, w)
            if a.kind == "pow2":
                s = self.norm(a.info)
                return seg_norm(self, w, b_clip(self, [(ZERO, s, 0), (s, s + 1, 1), (s + 1, s + 1 + L(w), 0)], ZERO, L(w)))
            if a.kind == "div":
                x, d = a.info
                if d & (d - 1) == 0:
                    k = d.bit_length() - 1
                    return Bits(w, [(ZERO, L(w), ident(("num", self.norm(x)), L(k)))])
        # the value of a word whose number was replaced by this expression
        for at, x in self.sub.items():
            if x == e and lin.atom(at).kind == "val":
                return b_resize(self, self.norm_bits(lin.atom(at).info), w)
        # remainder of a division by a power of two: low bits of the dividend
        for at, k in e.t:
            a = lin.atom(at)
            if a.kind == "div" and k < 0 and a.info[1] == -k and (-k) & (-k - 1) == 0 and lin.is_data(e):
                x, d = a.info
                if self.norm(x) - d * Lin(((at, 1),)) == e or x - d * Lin(((at, 1),)) == e:
                    kb = d.bit_length() - 1
                    if kb <= w:
                        return seg_norm(self, w, [(ZERO, L(kb), ident(("num", self.norm(x)))), (L(kb), L(w), 0)])
        hi = None
        if self.ge0(e):
            for k in (1, 4, 8, 32, 64):
                if k < w and self.ge0(L((1 << k) - 1) - e):
                    hi = k
                    break
        if hi is not None:
            return Bits(w, [(ZERO, L(hi), ident(("num", e))), (L(hi), L(w), 0)])
        return Bits(w, [(ZERO, L(w), ident(("num", e)))])

    def deps(self, e, memo=None):
        """base atoms an expression depends on, through derived atoms"""
        out = set()
        work = list(e.atoms())
        while work:
            a = work.pop()
            if a in out:
                continue
            out.add(a)
            at = lin.atom(a)
            if at.kind == "div":
                work.extend(at.info[0].atoms())
            elif at.kind == "pow2":
                work.extend(at.info.atoms())
            elif at.kind == "mul":
                work.extend(at.info[0].atoms())
                work.extend(at.info[1].atoms())
            elif at.kind in ("val", "term"):
                ls = []
                map_term(at.info, lambda l: (ls.append(l), l)[1])
                for l in ls:
                    work.extend(l.atoms())
        return out

    def subst_deep(self, e, m):
        """substitute atoms, re-deriving quotients, word values, ..."""
        hit = False
        for a, _ in e.t:
            if a in m or (lin.atom(a).kind in ("div", "pow2", "mul", "val", "term") and self.deps(Lin(((a, 1),))) & m.keys()):
                hit = True
                break
        if not hit:
            return e
        r = L(e.c)
        for a, k in e.t:
            if a in m:
                r = r + m[a] * k
                continue
            at = lin.atom(a)
            me = Lin(((a, 1),))
            if at.kind in ("div", "pow2", "mul", "val", "term") and self.deps(me) & m.keys():
                f = lambda l: self.subst_deep(l, m)
                if at.kind == "div":
                    me = self.divmod(f(at.info[0]), at.info[1])[0]
                elif at.kind == "pow2":
                    me = self.pow2(f(at.info))
                elif at.kind == "mul":
                    me = self.mul(f(at.info[0]), f(at.info[1]))
                elif at.kind == "val":
                    me = self.num(at.info.map(f))
                else:
                    me = self.term_atom(map_term(at.info, f), at.data)
            r = r + me * k
        return self.norm(r)

    def term_atom(self, term, data=True, lo=0, hi=None, name=None):
        memo = lin.TAB.memo
        p = memo.get(("term", term))
        if p is None:
            p = lin.new_atom(name or "t%d" % len(lin.TAB.atoms), lo, hi, kind="term", info=term, data=data)
            memo[("term", term)] = p
        return p

    # ---------------------------------------------------------- data predicates
    def cond_norm(self, c):
        t = c[0]
        if t == "c" or t == "top":
            return c
        if t == "lin":
            r = self.ge0(c[1])
            return ("lin", self.norm(c[1])) if r is None else ("c", r)
        if t == "not":
            return c_not(self.cond_norm(c[1]))
        if t == "and":
            return c_and(self.cond_norm(c[1]), self.cond_norm(c[2]))
        if t == "or":
            return c_or(self.cond_norm(c[1]), self.cond_norm(c[2]))
        if t == "rz":
            return self.rz_norm(c[1], self.norm(c[2]), self.norm(c[3]))
        return map_cond(c, self.norm) if self.sub else c

    def width_of(self, key):
        if key[0] == "num":
            # a number below a known power of two
            for k, p in lin.TAB.memo.items():
                if k[0] == "pow2" and self.ge0(p - 1 - key[1]) and self.ge0(key[1]):
                    return self.norm(k[1])
            return None
        w = self.W.inputs.get(key[1]) if key[0] == "in" else None
        return self.norm(w) if w is not None else None

    def rz_norm(self, f, lo, hi):
        """all bits i in [lo,hi) satisfy f(i) = 0"""
        f = self.norm_src(f)
        if f == 0:
            return TRUE
        d = self.norm(hi - lo)
        r = self.ge0(d - 1)
        if r is False:
            return TRUE
        if f == 1:
            if r is None:
                return ("lin", -d)
            return FALSE
        if f == TOPBIT:
            return ("top", "rz")
        if len(f[2]) == 1 and f[1] in (1, 2) and f[2][0][0][0] == "num":
            # bits of a constant
            (k, o, sv), = f[2]
            e = self.norm(k[1])
            if f[1] == 2 and sv == 1 and not e.is_const() and not lin.is_data(e) and self.ge0(e):
                # the high bits of a small number
                a, b = self.norm(lo + o), self.norm(hi + o)
                if a.is_const() and b.is_const() and 0 <= a.c < b.c and self.ge0(L((1 << b.c) - 1) - e):
                    return ("lin", L((1 << a.c) - 1) - e)
            if f[1] == 2 and sv == 1 and e.c == 0 and len(e.t) == 1 and e.t[0][1] == -1 and lin.atom(e.t[0][0]).kind == "val":
                # the low bits of -x are zero exactly where those of x are
                a, b = self.norm(lo + o), self.norm(hi + o)
                if a == ZERO and b.is_const():
                    x = self.norm_bits(lin.atom(e.t[0][0]).info)
                    if b.c >= x.w:
                        return self.zero_cond(x)
            if e.is_const() and o.is_const():
                if sv == 0:
                    return FALSE if ((e.c >> o.c) & 1) == (f[1] == 2) else TRUE
                a, b = self.norm(lo + o), self.norm(hi + o)
                if a.is_const() and b.is_const():
                    m = (1 << b.c) - (1 << a.c)
                    return TRUE if (e.c & m) == (0 if f[1] == 2 else m) else FALSE
        n = len(f[2])
        if n == 1 and f[2][0][0][0] == "mem" and f[2][0][1] == ZERO and f[2][0][2] == 1 and lo == ZERO:
            # an accumulated word: only known to be zero (or all ones) as a whole
            t = f[2][0][0][1]
            if t[0] == ("oracc" if f[1] == 2 else "andacc") and self.norm(hi) == L(t[1]):
                return self.cond_norm(t[2].c)
        if n > 1:
            # a disjunction of literals is zero where every literal is
            full = (1 << (1 << n)) - 1
            z = full ^ f[1]
            if z & (z - 1) == 0:
                z = z.bit_length() - 1
                c = TRUE
                for i, q in enumerate(f[2]):
                    c = c_and(c, self.rz_norm(("f", 1 if (z >> i) & 1 else 2, (q,)), lo, hi))
                return c
        if all(s[2] == 0 for s in f[2]):
            # the same bit everywhere
            if r is None:
                return c_or(("lin", -d), self.rz_norm(f_const0(f), ZERO, ONE))
            lo, hi = ZERO, ONE
            f = f_const0(f)
            if len(f[2]) == 1 and f[2][0][0][0] == "bool":
                c = f[2][0][0][1]
                return c_not(c) if f[1] == 2 else c
            base = f[2][0][1]
            f = mk_f(f[1], [(k, o - base, 1) for k, o, s in f[2]])
            lo, hi = base, base + 1
            d = ONE
        # express relative to the first strided source, at offset 0
        prim = next(x for x in f[2] if x[2] == 1)
        if prim[1] != ZERO:
            o = prim[1]
            f = f_shift(f, o)
            lo, hi = self.norm(lo + o), self.norm(hi + o)
        # canonical inputs: bits above the width are zero
        ws = [self.width_of(k) for k, o, s in f[2]]
        if all(w is not None for w in ws) and all(o == ZERO and s == 1 for k, o, s in f[2]) and (f[1] & 1) == 0:
            # every source has run out of bits above the largest width
            for w in dict.fromkeys(ws):
                if all(self.ge0(w - x) for x in ws):
                    if self.ge0(hi - w):
                        hi = w
                    break
            r = self.ge0(hi - lo - 1)
            if r is False:
                return TRUE
        if hi - lo == ONE and len(f[2]) == 1:
            w = ws[0]
            if w is not None and self.ge0(lo - w):
                return TRUE if f[1] == 2 else FALSE
            if f[1] == 1:
                return ("not", ("rz", f_not(f), lo, hi))
        return ("rz", f, lo, hi)

    def zero_cond(self, b):
        """condition: the whole word is zero"""
        c = TRUE
        for l, h, s in b.segs:
            if s == 0:
                continue
            c = c_and(c, self.rz_norm(s, l, h))
        return c

    def eq_cond(self, a, b):
        return self.zero_cond(b_op(self, lambda x, y: x ^ y, a, b))

    def known(self, c):
        """truth of a condition on this trace, None if free"""
        c = self.cond_norm(c)
        t = c[0]
        if t == "c":
            return c[1]
        if t == "lin":
            return None
        if t == "not":
            r = self.known(c[1])
            return None if r is None else not r
        if t == "and":
            a, b = self.known(c[1]), self.known(c[2])
            if a is False or b is False:
                return False
            return True if (a and b) else None
        if t == "or":
            a, b = self.known(c[1]), self.known(c[2])
            if a or b:
                return True
            return False if (a is False and b is False) else None
        r = self.facts.get(c)
        if r is not None:
            return r
        if t == "rz":
            g = self.fold_bits(c)
            if g is not None:
                return self.known(g)
            unb = None
            for k, v in self.facts.items():
                if k[0] == "rz" and k[1] == c[1]:
                    if v and self.ge0(c[2] - k[2]) and (self.ge0(k[3] - c[3]) or self.covers_width(k[1], k[3])):
                        return True
                    if not v and self.ge0(k[2] - c[2]):
                        if self.ge0(c[3] - k[3]):
                            return False
                        if unb is None:
                            unb = self.covers_width(c[1], c[3])
                        if unb:
                            return False
                elif k[0] == "rz" and not v and k[1] == f_not(c[1]):
                    # the only bit of the range
                    if self.ge0(k[2] + 1 - k[3]) and self.ge0(c[2] - k[2]) and self.ge0(k[3] - c[3]):
                        return True
                elif k[0] == "rz" and v and len(c[1][2]) == 1 and k[1] == f_not(c[1]):
                    # some bit of the range is known to be one
                    p = c[2] if self.ge0(c[2] - k[2]) else k[2]
                    if self.ge0(p - c[2]) and self.ge0(c[3] - p - 1) and self.ge0(k[3] - p - 1):
                        return False
            # covered by several ranges that are known to be zero
            parts = self.zero_parts(c[1], c[3])
            lo, todo = c[2], True
            while parts and todo:
                todo = False
                for p in list(parts):
                    if not self.ge0(lo - p[0]):
                        continue
                    if self.ge0(p[1] - c[3]):
                        return True
                    if self.ge0(p[1] - lo):
                        parts.remove(p)
                        todo = True
                        lo = p[1]
            if len(c[1][2]) > 1 and c[3] - c[2] == ONE:
                r = self.known_bit(c)
                if r is not None:
                    return r
            r = self.known_xor(c)
            if r is not None:
                return r
        if t == "ult":
            for k, v in self.facts.items():
                if k[0] == "ult" and v and k[1] == c[2] and k[2] == c[1]:
                    return False
            e = self.facts and self.known_eq(c[1], c[2])
            if e:
                return False
            return self.known_ult(c)
        return None

    def known_ult(self, c):
        """order of two words, from other comparisons (transitivity)"""
        le = {}
        n = 0
        for k, v in self.facts.items():
            if k[0] == "ult":
                a, b = (k[1], k[2]) if v else (k[2], k[1])
                le.setdefault(a, []).append((b, v))
                n += 1
        if n < (1 if c[1] in le or c[2] in le else 2) or n > 16:
            return None
        nodes = list(dict.fromkeys([c[1], c[2]] + [x for a, bs in le.items() for x in [a] + [b for b, _ in bs]]))
        if len(nodes) < 3:
            return None
        for i, a in enumerate(nodes):
            for b in nodes[:i]:
                if self.known_eq(a, b):
                    le.setdefault(a, []).append((b, False))
                    le.setdefault(b, []).append((a, False))

        def reach(a, b):
            """None, or whether the path is strict"""
            best = {a: False}
            todo = [a]
            while todo:
                x = todo.pop()
                for y, s in le.get(x, ()):
                    s = s or best[x]
                    if y not in best or (s and not best[y]):
                        best[y] = s
                        todo.append(y)
            return best.get(b)
        if reach(c[1], c[2]):
            return True
        if reach(c[2], c[1]) is not None:
            return False
        return None

    def known_bit(self, c):
        """a condition on one bit, from the bits of its sources"""
        f = c[1]
        vals = []
        for k, o, sv in f[2]:
            r = self.known(self.rz_norm(ident(k), o + c[2] if sv else o, o + c[2] + 1 if sv else o + 1))
            vals.append(None if r is None else int(not r))
        res = set()
        for x in range(1 << len(vals)):
            if all(v is None or (x >> i) & 1 == v for i, v in enumerate(vals)):
                res.add((f[1] >> x) & 1)
        return None if len(res) != 1 else not res.pop()

    def zero_parts(self, f, end):
        """ranges on which the facts say that f is zero"""
        out = [(k[2], k[3]) for k, v in self.facts.items() if v and k[0] == "rz" and k[1] == f]
        if f in (0, 1, TOPBIT):
            return out
        if len(f[2]) == 1:
            g = f_not(f)
            out += [(k[2], k[3]) for k, v in self.facts.items() if not v and k[0] == "rz" and k[1] == g and k[3] - k[2] == ONE]
        if len(f[2]) != 2 or f[1] & 1 or any(sv != 1 for _, _, sv in f[2]):
            return out
        one, two = [[(k[2] - o, k[3] - o) for k, v in self.facts.items() if v and k[0] == "rz" and k[1] == ident(key)] +
                    ([(self.width_of(key) - o, end)] if self.width_of(key) is not None else [])
                    for key, o, _ in f[2]]
        for a, b in one:
            for x, y in two:
                lo = a if a == x or self.ge0(a - x) else x if self.ge0(x - a) else None
                hi = b if b == y or self.ge0(y - b) else y if self.ge0(b - y) else None
                if lo is not None and hi is not None and self.ge0(hi - lo):
                    out.append((lo, hi))
        return out

    def known_xor(self, c):
        """equality of two words, from other equalities and inequalities (transitivity, at any alignment)"""
        f = c[1]
        if f in (0, 1, TOPBIT) or not is_xor(f):
            return None
        eqs, nes = {}, []
        for k, v in self.facts.items():
            if k[0] == "rz" and k[1] not in (0, 1, TOPBIT) and is_xor(k[1]):
                if v:
                    eqs.setdefault(k[1], []).append((k[2], k[3]))
                else:
                    nes.append((k[1], k[2], k[3]))
        if not eqs:
            return None
        for e, ps in eqs.items():
            if len(ps) > 1:           # adjacent ranges
                new = [(a, y) for a, b in ps for x, y in ps if b == x]
                ps += new + [(a, y) for a, b in new for x, y in ps if b == x]
        if self.known_ne(f, c[2], c[3], nes):
            return False
        seen, todo = set(), [(f, c[2], c[3])]
        while todo and len(seen) < 24:
            x, lo, hi = todo.pop(0)
            keys = [(k, o) for k, o, sv in x[2] if sv == 1]
            for e, ps in eqs.items():
                ds = {o2 - o for k, o in keys for k2, o2, sv in e[2] if sv == 1 and k2 == k}
                if any(sv == 0 for _, _, sv in x[2]) or not ds and any(sv == 0 for _, _, sv in e[2]):
                    ds.add(ZERO)
                for d in ds:
                    if not any(self.ge0(lo - p - d) and self.ge0(q + d - hi) for p, q in ps):
                        continue
                    y = f_apply(lambda p, q: p ^ q, x, f_shift(e, d) if d != ZERO else e)
                    if y == 0:
                        return True
                    if y in (1, TOPBIT) or len(y[2]) > 2:
                        continue
                    l2, h2 = lo, hi
                    prim = next((z for z in y[2] if z[2] == 1), None)
                    if prim is not None and prim[1] != ZERO:
                        y, l2, h2 = f_shift(y, prim[1]), self.norm(lo + prim[1]), self.norm(hi + prim[1])
                    if (y, l2, h2) in seen:
                        continue
                    if self.known_ne(y, l2, h2, nes):
                        return False
                    seen.add((y, l2, h2))
                    todo.append((y, l2, h2))
        return None

    def known_ne(self, f, lo, hi, nes):
        for g, p, q in nes:
            if g == f and self.ge0(p - lo):
                if self.ge0(hi - q):
                    return True
                if any(self.ge0(hi - a) and self.ge0(b - q) for a, b in self.zero_parts(f, q)):
                    return True           # the rest of that range is zero
        return False

    def covers_width(self, f, hi):
        """no bit at or above hi can be set"""
        if f in (0, 1, TOPBIT) or f[1] & 1:
            return False
        for k, o, s in f[2]:
            w = self.width_of(k)
            if w is None or s != 1 or not self.ge0(hi + o - w):
                return False
        return True

    def known_eq(self, a, b):
        c = self.eq_cond_nofork(a, b)
        return c is not None and self.known(c)

    def eq_cond_nofork(self, a, b):
        try:
            return self.eq_cond(a, b)
        except Fork:
            return None

    def decide_cond(self, c):
        c = self.cond_norm(c)
        t = c[0]
        if t == "c":
            return c[1]
        if t == "lin":
            return self.decide(c[1])
        if t == "not":
            return not self.decide_cond(c[1])
        if t == "and":
            return self.decide_cond(c[1]) and self.decide_cond(c[2])
        if t == "or":
            return self.decide_cond(c[1]) or self.decide_cond(c[2])
        r = self.known(c)
        if r is None:
            raise ForkData(c)
        return r

    def add_fact(self, c, v):
        c = self.cond_norm(c)
        if c[0] == "c":
            return c[1] == v
        if c[0] == "not":
            return self.add_fact(c[1], not v)
        if c[0] == "and" and v:
            return self.add_fact(c[1], True) and self.add_fact(c[2], True)
        if c[0] == "or" and not v:
            return self.add_fact(c[1], False) and self.add_fact(c[2], False)
        if c[0] == "lin":
            return self.add(c[1] if v else -c[1] - 1)
        k = self.known(c)
        if k is not None:
            return k == v
        word = None
        if c[0] == "rz" and c[1] not in (0, 1, TOPBIT) and c[1][1] == 2 and len(c[1][2]) == 1 and c[1][2][0][2] == 1:
            # the number of a word that is zero is zero, of one that is not at least one
            d = self.norm(c[3] - c[2])
            if self.ge0(64 - d) and self.ge0(d - 1):
                s = f_shift(c[1], c[2])
                b = seg_norm(self, 64, [(ZERO, d, s)] + ([(d, L(64), 0)] if d != L(64) else []))
                word = lin.TAB.memo.get(("val", b))
        f = dict(self.facts)
        f[c] = v
        self.facts = f
        if word is not None and not self.add(-word if v else word - 1):
            return False
        if c[0] == "rz" and v and c[1] not in (0, 1, TOPBIT) and self.ge0(c[3] - c[2] - 1):
            # bits that are zero are none of those that are one
            g = f_not(c[1])
            for k, u in list(self.facts.items()):
                if u and k[0] == "rz" and k[1] == g:
                    e = None
                    if self.ge0(k[2] - c[2]) and self.ge0(k[3] - c[3]):
                        e = k[2] - c[3]
                    elif self.ge0(c[2] - k[2]) and self.ge0(c[3] - k[3]):
                        e = c[2] - k[3]
                    if e is not None and not self.ge0(e) and not self.add(e):
                        return False
        if c[0] == "rz" and v and c[1] not in (0, 1, TOPBIT) and c[1][1] == 1 and len(c[1][2]) == 1:
            # bits that are set are within the width of their source
            k, o, d = c[1][2][0]
            w = self.width_of(k) if d == 1 else None
            if w is not None and self.ge0(c[3] - c[2] - 1) and not self.add(w - c[3] - o):
                return False
        if c[0] == "ult" and not v and f.get(("ult", c[2], c[1])) is False:
            # neither is smaller
            e = self.eq_cond_nofork(c[1], c[2])
            if e is not None and not self.add_fact(e, True):
                return False
        if c[0] == "rz" and len(c[1][2]) == 1 and c[3] - c[2] == ONE:
            # facts that mention this bit as a constant source
            k0, p = c[1][2][0][0], c[2]
            for d, u in list(self.facts.items()):
                if d[0] == "rz" and any(k == k0 and o == p and sv == 0 for k, o, sv in d[1][2]):
                    g = self.fold_bits(d)
                    if g is not None and not self.add_fact(g, u):
                        return False
        return True

    def contradictory(self, depth=2):
        """the facts of this trace exclude each other under its constraints: no execution takes it"""
        if not self.feasible_now():
            return True
        for a, e in self.sub.items():
            at = lin.atom(a)
            if at.kind != "val" or not e.is_const():
                continue
            # the value of a word is a constant: compare with what is known about its bits
            for l, h, s in at.info.segs:
                if s in (0, 1, TOPBIT) or s[1] != 2 or len(s[2]) != 1 or s[2][0][2] != 1 or not (l.is_const() and h.is_const()):
                    continue
                o = s[2][0][1]
                g = ident(s[2][0][0])
                for c, v in self.facts.items():
                    if c[0] == "rz" and v and c[1] == g:
                        for p in range(l.c, h.c):
                            if (e.c >> p) & 1 and self.ge0(o + p - c[2]) and self.ge0(c[3] - o - p - 1):
                                return True
        all_facts = self.facts
        try:
            for c, v in list(all_facts.items()):
                f = dict(all_facts)
                del f[c]
                self.facts = f
                try:
                    k = self.known(c)
                except (Fork, ForkData):
                    k = None
                if k is not None and k != v:
                    return True
        finally:
            self.facts = all_facts
        if depth:
            # an expression that is 0 or 1: both must be excluded
            for c in self.cons:
                if 1 - c in self.cons and c not in [-x for x in self.cons]:
                    ok = True
                    for e in (-c, c - 1):
                        s = self.clone()
                        if s.add(e) and not s.contradictory(depth - 1):
                            ok = False
                            break
                    if ok:
                        return True
        return False

    def fold_bits(self, c):
        """rz condition with the known constant sources folded in, None if there are none"""
        f = c[1]
        if f in (0, 1, TOPBIT):
            return None
        hit = False
        for k, o, sv in f[2]:
            if sv != 0:
                continue
            v = None
            for d, u in self.facts.items():
                if d[0] == "rz" and d[2] == o and d[1][1] == 2 and len(d[1][2]) == 1 and d[1][2][0] == (k, ZERO, 1) and d[3] - d[2] == ONE:
                    v = 0 if u else 1
                    break
            if v is None:
                continue
            i = f[2].index((k, o, sv))
            tt = 0
            for x in range(1 << len(f[2])):
                y = (x & ~(1 << i)) | (v << i)
                if (f[1] >> y) & 1:
                    tt |= 1 << x
            f = mk_f(tt, f[2])
            hit = True
            if f in (0, 1):
                break
        return self.rz_norm(f, c[2], c[3]) if hit else None

    # ---------------------------------------------------------- regions
    def new_region(self, **k):
        i = self.W.fresh()
        self.regions[i] = Region(**k)
        return i

    def read_flat(self, rid, lo, hi):
        """-> [(lo, hi, src)] in flat bit addresses, src a function of the flat address"""
        r = self.regions[rid]
        return self._read(r, len(r.writes) - 1, self.norm(lo), self.norm(hi))

    def _read(self, r, i, lo, hi):
        if i < 0:
            b = r.base
            if b[0] == "src":
                return [(lo, hi, ident(b[1]))]
            if b[0] == "const":
                return [(lo, hi, b[1])]
            return [(lo, hi, TOPBIT)]
        w = r.writes[i]
        wl, wh = self.norm(w[1]), self.norm(w[2])
        if self.ge0(wl - hi) or self.ge0(lo - wh) or self.ge0(wl - wh):
            return self._read(r, i - 1, lo, hi)
        if not self.ge0(wh - wl) and self.decide(wl - wh):
            return self._read(r, i - 1, lo, hi)
        ml = wl if le(self, lo, wl) else lo
        mh = wh if le(self, wh, hi) else hi
        if not self.ge0(mh - ml) and not self.decide(mh - ml):
            return self._read(r, i - 1, lo, hi)
        out, tail = [], []
        if self.ge0(lo - ml) is not True:
            out += self._read(r, i - 1, lo, ml)
        if self.ge0(mh - hi) is not True:
            tail = self._read(r, i - 1, mh, hi)
        if w[0] == "flat":
            out.append((ml, mh, w[3]))
        elif w[0] == "str":
            # strided: for k in [0,N): bits [A + s*k + sl, A + s*k + sh) := src(flat, k)
            _, _, _, s, iota, segs = w
            d0, d1 = self.norm(ml - wl), self.norm(mh - wl)
            if d0.is_const() and d1.is_const() and d0.c // s != (d1.c - 1) // s and d1.c // s - d0.c // s <= 64:
                # several periods
                x = d0.c
                while x < d1.c:
                    y = min(d1.c, (x // s + 1) * s)
                    out += self._read(r, i, wl + x, wl + y)
                    x = y
                return out + tail
            q, rem = self.divmod(ml - wl, s)
            if not self.decide(L(s) - rem - (mh - ml)):
                out.append((ml, mh, TOPBIT))
            else:
                base = wl + q * s
                m = {iota: q}
                f = lambda l: self.subst_deep(l, m)
                done = False
                for sl, sh, src in segs:
                    a, b = base + f(sl), base + f(sh)
                    if self.decide(ml - b):
                        continue
                    if self.decide(a - mh):
                        break
                    x = ml if self.decide(ml - a) else a
                    y = mh if self.decide(b - mh) else b
                    out.append((x, y, f_map(src, f)))
        else:
            out.append((ml, mh, TOPBIT))
        return out + tail

    def read_word(self, rid, idx):
        r = self.regions[rid]
        eb = r.eb
        tbl = self.mem.get(("tbl", rid))
        if tbl is not None and len(r.writes) == tbl[1]:
            x = self.norm(L(idx))
            if not x.is_const() and lin.is_data(x):
                return self.table_word(tbl[0], eb, x)
        lo = self.norm(L(idx) * eb)
        segs = self.read_flat(rid, lo, lo + eb)
        return seg_norm(self, eb, [(l - lo, h - lo, f_shift(s, -lo)) for l, h, s in segs])

    def table_word(self, tbl, eb, x):
        """the element of a constant table at a data-dependent index, as a term of the index"""
        b = seg_norm(self, 64, self.bits_of(x, 64).segs)
        if eb == 8 and bytes(tbl[:36]) == b"0123456789abcdefghijklmnopqrstuvwxyz"[:len(tbl)] and len(tbl) in (10, 16, 36):
            d = b_resize(self, b, 32)
            return Bits(8, [(ZERO, L(7), ident(("mem", ("digitchar", d)))), (L(7), L(8), 0)])
        top = max(max(tbl).bit_length(), 1)
        segs = [(ZERO, L(top), ident(("mem", ("table", tbl, b))))]
        return Bits(eb, segs + ([(L(top), L(eb), 0)] if top < eb else []))

    def write_word(self, rid, idx, bits, hold=None):
        r = self.regions[rid]
        eb = r.eb
        lo = self.norm(L(idx) * eb)
        bits = seg_norm(self, eb, bits.segs)
        new = []
        for l, h, s in bits.segs:
            if s not in (0, 1, TOPBIT) and len(s[2]) == 1 and s[1] == 2 and s[2][0][0][0] == "hold" \
                    and s[2][0][0][1] == rid and s[2][0][2] == 1 and self.norm(s[2][0][1] - lo) == ZERO:
                continue        # unchanged bits of the region being rewritten
            new.append(("flat", lo + l, lo + h, f_shift(s, lo)))
        self.regions[rid] = r.repl(writes=r.writes + tuple(new))

    # object (non-integer element) regions
    def read_obj(self, rid, idx):
        r = self.regions[rid]
        idx = self.norm(L(idx))
        for w in reversed(r.writes):
            wl, wh = self.norm(w[1]), self.norm(w[2])
            if self.decide(idx - wl) and self.decide(wh - idx - 1):
                if w[0] == "obj":
                    _, _, _, iota, v = w
                    m = {iota: idx - wl}
                    return map_value(v, lambda l: self.subst_deep(l, m))
                if w[0] == "ostr":
                    _, _, _, s, iota, items = w
                    q, rem = self.divmod(idx - wl, s)
                    m = {iota: q}
                    f = lambda l: self.subst_deep(l, m)
                    for sl, sh, jota, v in items:
                        a, b = f(sl), f(sh)
                        if self.decide(rem - a) and self.decide(b - rem - 1):
                            m2 = dict(m)
                            m2[jota] = rem - a
                            return map_value(v, lambda l: self.subst_deep(l, m2))
                    return VTop("strided")
                return VTop("write")
        if r.base[0] == "elems":
            for i, v in enumerate(r.base[1]):
                if self.decide_eq(idx - i):
                    return v
            return VTop("oob")
        if r.base[0] == "fill":
            return r.base[1]
        if r.base[0] == "gen":
            return r.base[1](self, idx)
        return VTop("base")

    def write_obj(self, rid, idx, v):
        r = self.regions[rid]
        idx = self.norm(L(idx))
        iota = lin.new_atom("_i")
        self.regions[rid] = r.repl(writes=r.writes + (("obj", idx, idx + 1, iota.t[0][0], v),))


class Infeasible(Exception):
    pass


class BuildState(State):
    """the initial state of a case while its inputs are described: assumptions that contradict each other describe no input"""
    __slots__ = ()

    def add(self, e):
        if not State.add(self, e):
            raise Infeasible()
        return True

    def add_fact(self, c, v):
        if not State.add_fact(self, c, v):
            raise Infeasible()
        return True


def is_xor(f):
    return (f[1] == 6 and len(f[2]) == 2) or (f[1] == 2 and len(f[2]) == 1)


def f_const0(f):
    return f


def show_bits_short(b):
    if len(b.segs) == 1:
        return "(%s)" % show_src(b.segs[0][2])
    return "(%s)" % "; ".join("[%s,%s)%s" % (l, h, show_src(s)) for l, h, s in b.segs)
