"""Obligations: comparing the abstract result of an API path with its specification.

An obligation is *proved* when the derived provenance equals the specified one on the whole abstract state (every
width, offset and data value of that trace), *refuted* when a member of the abstract state is exhibited on which
they differ, and *undecided* otherwise."""
import random, signal, time
import lin
from lin import Lin, L, ZERO, ONE
from dom import *
from concr import models, describe, Model, Opaque
from inputs import Inputs, REF, MUT, OWN
from state import Infeasible

BVPATHS = ("$BV", REF, MUT, OWN)


class Timeout(Exception):
    pass


class Fail(Exception):
    """an obligation that is not proved; bad(m) -> None | text decides it on a member of the state"""
    def __init__(self, cat, what, bad, extra=()):
        self.cat, self.what, self.bad, self.extra = cat, what, bad, tuple(extra)


def zip_flat(st, A, B):
    """common refinement of two segment lists that cover the same range"""
    A = [x for x in A if not st.ge0(x[0] - x[1])]
    B = [x for x in B if not st.ge0(x[0] - x[1])]
    i = j = 0
    out = []
    cur = None
    while i < len(A) and j < len(B):
        ha, hb = st.norm(A[i][1]), st.norm(B[j][1])
        if cur is None:
            cur = st.norm(A[i][0])
        m = ha
        if hb != m and not le(st, m, hb):
            m = hb
        out.append((cur, m, A[i][2], B[j][2]))
        if ha == m or st.ge0(m - ha):
            i += 1
        if hb == m or st.ge0(m - hb):
            j += 1
        cur = m
    return out


def is_num(s):
    return s not in (0, 1, TOPBIT) and len(s[2]) == 1 and s[1] == 2 and s[2][0][0][0] == "num" and s[2][0][2] in (0, 1)


def mem_term(s):
    if s not in (0, 1, TOPBIT) and len(s[2]) == 1 and s[1] == 2 and s[2][0][0][0] == "mem":
        return s[2][0][0][1], s[2][0][1], s[2][0][2]
    return None


def same_number(st, a, b):
    """two words of possibly different size hold the same number"""
    w = max(a.w, b.w)

    def pad(x):
        return list(x.segs) + ([(L(x.w), L(w), 0)] if x.w < w else [])
    return all(same_src(st, *x) for x in zip_flat(st, pad(a), pad(b)))


def live_src(st, lo, hi, s):
    """the function with every source that is constant on [lo, hi) folded in"""
    if s in (0, 1, TOPBIT):
        return s
    s = st.norm_src(s)
    if s in (0, 1, TOPBIT):
        return s
    if is_num(s) and s[2][0][0][1].is_const() and s[2][0][0][1].c in (0, -1):
        return -s[2][0][0][1].c
    if is_num(s) and s[2][0][2] == 1 and lo.is_const() and s[2][0][1].is_const() and 0 <= lo.c + s[2][0][1].c <= 256:
        e = s[2][0][0][1]
        if st.ge0(e) and st.ge0(L((1 << (lo.c + s[2][0][1].c)) - 1) - e):
            return 0
    for k, o, stv in list(s[2]):
        if stv not in (0, 1):
            continue
        one = ident(k, o, stv)
        v = None
        if st.known(st.rz_norm(one, lo, hi)) is True:
            v = 0
        elif len(s[2]) > 1 and st.known(st.rz_norm(f_not(one), lo, hi)) is True:
            v = 1
        if v is not None:
            i = s[2].index((k, o, stv))
            tt = 0
            n = len(s[2])
            for x in range(1 << n):
                y = (x & ~(1 << i)) | (v << i)
                if (s[1] >> y) & 1:
                    tt |= 1 << x
            s = mk_f(tt, s[2])
            if s in (0, 1):
                return s
    return s


def same_src(st, lo, hi, a, b):
    """the two bit functions agree on [lo, hi)"""
    if a == b:
        return True
    if st.ge0(lo - hi):
        return True
    a, b = live_src(st, lo, hi, a), live_src(st, lo, hi, b)
    if a == b:
        return True
    if a == TOPBIT or b == TOPBIT:
        return False
    if st.ge0(lo + 1 - hi):        # a single bit
        a, b = (s if s in (0, 1) else mk_f(s[1], [(k, st.norm(o + lo * d), 0) for k, o, d in s[2]]) for s in (a, b))
        if a == b:
            return True
    if is_num(a) and is_num(b):
        (ka, oa, sa), (kb, ob, sb) = a[2][0], b[2][0]
        if sa != sb and st.ge0(lo + 1 - hi):        # a single bit
            oa, ob = oa + lo * sa, ob + lo * sb
            sa = sb = 0
        if sa == sb and (oa == ob or st.eq0(oa - ob)):
            top = hi + oa if sa else oa + 1
            d = st.norm(ka[1] - kb[1])
            # difference divisible by 2^k with every address below k
            cs = [k for _, k in d.t] + ([d.c] if d.c else [])
            if not cs:
                return True
            k = min((c & -c).bit_length() - 1 for c in cs)
            if st.ge0(k - top):
                return True
            # the difference is a multiple of the (symbolic) modulus
            for at, _ in d.t:
                if lin.atom(at).kind == "pow2" and len(d.t) == 1 and d.c == 0 and st.ge0(lin.atom(at).info - top):
                    return True
        return False
    ma, mb = mem_term(a), mem_term(b)
    if ma and mb and ma[0][0] == mb[0][0] and ma[0][0] in ("digitchar", "display") and ma[1:] == mb[1:]:
        return same_number(st, ma[0][1], mb[0][1])
    if a not in (0, 1) and b not in (0, 1):
        # sources at offsets that are equal on this state
        av = list(a[2])
        bv = []
        for k, o, stv in b[2]:
            for k2, o2, stv2 in av:
                if k2 == k and stv2 == stv and o2 != o and stv in (0, 1) and (st.norm(o2 - o) == ZERO or st.eq0(o2 - o)):
                    o = o2
                    break
            bv.append((k, o, stv))
        b = mk_f(b[1], tuple(bv))
        if a == b:
            return True
    x = f_apply(lambda p, q: p ^ q, a, b)
    if x == TOPBIT:
        return False
    x = st.rz_norm(x, lo, hi)
    if st.known(x) is True:
        return True
    if x[0] == "rz" and x[1][1] == 6 and len(x[1][2]) == 2:
        # both equal to a third source
        for c, v in st.facts.items():
            if v and c[0] == "rz" and c[1][1] == 6 and len(c[1][2]) == 2 and st.ge0(x[2] - c[2]) and st.ge0(c[3] - x[3]):
                for i in (0, 1):
                    if c[1][2][i] in x[1][2]:
                        third = c[1][2][1 - i]
                        other = x[1][2][1 - x[1][2].index(c[1][2][i])]
                        if third == other or st.known(st.rz_norm(mk_f(6, [third, other]), x[2], x[3])) is True:
                            return True
    return False


def bits_in(m, lo, hi, s):
    v = 0
    for b in range(lo, hi):
        if m.src(s, b):
            v |= 1 << (b - lo)
    return v


class Ctx:
    """one terminated trace of an API path"""
    def __init__(self, I, eng, st, env):
        self.I, self.eng, self.st, self.env = I, eng, st, env
        self.tally = {}

    def ok(self, cat):
        self.tally[cat] = self.tally.get(cat, 0) + 1

    # ------------------------------------------------------------ building blocks
    def need(self, cat, what, ok, bad, extra=()):
        if ok:
            self.ok(cat)
        else:
            raise Fail(cat, what, bad, extra)

    def W(self, n):
        return self.st.norm(self.I.bv[n][0])

    def src(self, n, off=ZERO):
        return ident(("in", n), off)

    def lin_eq(self, cat, what, a, b):
        st = self.st
        d = st.norm(L(a) - L(b))
        ok = d == ZERO or (st.ge0(d) and st.ge0(-d))
        A, B = L(a), L(b)

        def bad(m):
            x, y = m.lin(A), m.lin(B)
            return None if x == y else "%s is %d, specified %d" % (what, x, y)
        if ok:
            self.ok(cat)
            return
        for e in (d - 1, -d - 1):
            if st.ge0(e) is not False:
                raise Fail(cat, what, bad, (e,))
        raise Fail(cat, what, bad)

    def flat(self, cat, what, actual, expected):
        """two segment lists over the same range"""
        open_ = []
        for lo, hi, a, b in zip_flat(self.st, actual, expected):
            if same_src(self.st, lo, hi, a, b):
                self.ok(cat)
            else:
                open_.append((lo, hi, a, b))
        if not open_:
            return

        def bad(m):
            skipped = None
            for lo, hi, a, b in open_:
                l, h = m.lin(lo), m.lin(hi)
                if h - l > 20000:
                    raise Opaque("size")
                for i in range(l, h):
                    try:
                        x, y = m.src(a, i), m.src(b, i)
                    except Opaque as e:
                        skipped = e
                        break
                    if x != y:
                        return "%s: bit %d is %d, specified %d" % (what, i, x, y)
            if skipped:
                raise skipped
            return None
        raise Fail(cat, what, bad, (open_[0][1] - open_[0][0] - 1,) if len(open_) == 1 else ())

    def bits(self, cat, what, actual, expected):
        self.flat(cat, what, actual.segs, expected.segs)

    # ------------------------------------------------------------ values
    def deref(self, v):
        for _ in range(6):
            if isinstance(v, VRef):
                v = self.eng.load(self.st, ("mem", v.key, v.path))
            elif isinstance(v, VElem):
                v = self.eng.load(self.st, ("elem", v.rid, v.idx, v.path))
            elif isinstance(v, VIte):
                v = self.eng.force(self.st, v)
            elif isinstance(v, VAdt) and v.path in ("alloc::borrow::Cow",):
                v = v.fields[0]
            else:
                break
        return v

    def bv_parts(self, v):
        v = self.deref(v)
        if not (isinstance(v, VAdt) and v.path in BVPATHS):
            raise Unsupported("not a bit vector: %r" % (v,))
        w, d = v.fields
        d = self.deref(d)
        if isinstance(d, VVec):
            return w.rep, d.rid, ZERO, self.st.norm(self.st.regions[d.rid].len)
        return w.rep, d.rid, self.st.norm(d.start), self.st.norm(d.len)

    def raw(self, v):
        """(width, len, flat segments from 0)"""
        w, rid, start, n = self.bv_parts(v)
        o = start * 64
        segs = self.st.read_flat(rid, o, o + n * 64)
        return self.st.norm(w), n, [(l - o, h - o, f_shift(s, -o)) for l, h, s in segs]

    def bv(self, v, width, segs, what="result"):
        """v is the canonical vector of the given width with the given bits (segments cover [0,width))"""
        w, rid, start, n = self.bv_parts(v)
        self.lin_eq("width", what + " width", w, width)
        self.storage(v, what)
        st = self.st
        o = start * 64
        act = [(l - o, h - o, f_shift(s, -o)) for l, h, s in st.read_flat(rid, o, o + width)]
        if segs is not None:
            self.flat("value", what, act, segs)

    def storage(self, v, what="result"):
        """canonical form: ceil(width/64) words, no bit set at or above the width"""
        st = self.st
        w, rid, start, n = self.bv_parts(v)
        w, n = st.norm(w), st.norm(n)

        def bad(m, w=w, n=n):
            a, b = m.lin(w), m.lin(n)
            return None if b == max(1, (a + 63) // 64) or (a == 0 and b == 0) else "%s: width %d stored in %d words" % (what, a, b)
        ok = st.ge0(n * 64 - w) and st.ge0(w + 63 - n * 64)
        if not ok:
            for e in (w - n * 64 - 1, n * 64 - w - 64):
                if st.ge0(e) is not False:
                    raise Fail("canon", what + " word count", bad, (e,))
            raise Fail("canon", what + " word count", bad)
        self.ok("canon")
        o = start * 64
        act = [(l - o, h - o, f_shift(s, -o)) for l, h, s in st.read_flat(rid, o + w, o + n * 64)]
        for lo, hi, a in act:
            ok = same_src(st, lo, hi, a, 0)

            def bad2(m, lo=lo, hi=hi, a=a):
                l, h = m.lin(lo), m.lin(hi)
                for i in range(l, h):
                    if m.src(a, i):
                        return "%s of width %d has bit %d set" % (what, m.lin(w), i)
                return None
            self.need("canon", what + " padding", ok, bad2, (hi - lo - 1,))

    def boolean(self, v, expect, what="result"):
        """expect: () -> bool on this trace (may partition); oracle(m) concretely"""
        prove, oracle = expect
        got = self.truth(v)
        p = prove()

        def bad(m):
            y = oracle(m)
            return None if got == y else "%s is %s, specified %s" % (what, got, y)
        self.need("value", what, p == got, bad)

    def truth(self, v):
        if not isinstance(v, VBool):
            raise Unsupported("not a boolean: %r" % (v,))
        return self.st.decide_cond(v.c)

    def variant(self, v):
        v = self.deref(v)
        if isinstance(v, VAdt):
            return v
        raise Unsupported("not an enum value: %r" % (v,))

    def val(self, m, n):
        return m.inputs[n]

    # ------------------------------------------------------------ order of two inputs
    def unsigned_order(self, a, b):
        """-1, 0, 1 or None, from the facts of this trace"""
        st = self.st
        w = self.W(a)
        A, B = ("in", a), ("in", b)
        x = mk_f(6, [(A, ZERO, 1), (B, ZERO, 1)])
        if st.known(st.rz_norm(x, ZERO, w)) is True:
            return 0
        for c, v in list(st.facts.items()):
            if c[0] != "ult":
                continue
            p, q = word_of(st, c[1]), word_of(st, c[2])
            if not p or not q or p[1] != q[1] or p[2] != q[2]:
                continue
            if {p[0], q[0]} != {A, B} or p[0] == q[0]:
                continue
            o, h = p[1], p[2]
            if st.known(st.rz_norm(x, o + h, w)) is not True and not st.ge0(o + h - w):
                continue
            if v:
                return -1 if p[0] == A else 1
            if st.known(st.rz_norm(x, o, o + h)) is False:
                return 1 if p[0] == A else -1
        for c, v in list(st.facts.items()):
            # two words that differ below an equal upper part, one of them unknown: partition
            if c[0] == "rz" and c[1] == x and not v and st.eq0(c[3] - c[2] - 1) and st.known(st.rz_norm(x, c[3], w)):
                bit = st.rz_norm(self.src(a), c[2], c[2] + 1)
                return -1 if st.decide_cond(bit) else 1
        return None

    def sign(self, n):
        w = self.W(n)
        return not self.st.decide_cond(self.st.rz_norm(self.src(n), w - 1, w))


def word_of(st, B):
    """Bits that are the bits [o, o+h) of one source, zero above -> (key, o, h)"""
    segs = [s for s in B.segs]
    if segs[-1][2] == 0:
        segs = segs[:-1]
    if len(segs) != 1:
        return None
    l, h, s = segs[0]
    if l != ZERO or s in (0, 1, TOPBIT) or len(s[2]) != 1 or s[1] != 2 or s[2][0][2] != 1:
        return None
    k, o, _ = s[2][0]
    return k, st.norm(o), st.norm(h)


def run_case(case, prog, cfg, limit=60000, seconds=120, variant="$BV", bounded=True):
    """symbolic word counts first; where that leaves something undecided, the same analysis again for fixed small
    word counts with all loops unrolled (bit positions, widths within the top word and data stay symbolic)"""
    limit = getattr(case, "limit", None) or limit
    if getattr(case, "shapes", None):
        return run_shapes(case, prog, cfg, limit, seconds, variant)
    res = run_shape(case, prog, cfg, limit, seconds, variant, None)
    if not res["undecided"] or not bounded or res["violations"]:
        return res
    shaped = res.pop("shaped")
    res["bounded"] = []
    dims = sorted(shaped)
    combos = [()]
    for d in dims:
        combos = [x + (k,) for x in combos for k in ((0, 1, 2) if d == "entries" else (1, 2, 3, 4, 5, 6) if len(dims) == 1 else (1, 2, 3))]
    combos.sort(key=lambda x: (sum(x), x))
    t0 = time.time()
    for cb in combos:
        left = seconds - (time.time() - t0)
        if left < 2 or len(dims) > 3:
            break
        r = run_shape(case, prog, cfg, limit, max(2, int(min(left, seconds / 3))), variant, dict(zip(dims, cb)))
        res["bounded"].append({"words": dict(zip(dims, cb)), "traces": r["traces"], "obligations": r["obligations"],
                               "undecided": len(r["undecided"]), "why": r["undecided"][:1]})
        res["seconds"] += r["seconds"]
        if r["violations"]:
            res["violations"] = r["violations"]
            break
    return res


DEEP = False


def run_shapes(case, prog, cfg, limit, seconds, variant):
    """analysis for an explicit list of small shapes only (all loops unrolled, data symbolic)"""
    res = None
    t0 = time.time()
    shapes = list(case.shapes) + (case.deep if DEEP else [])
    for sh in shapes:
        left = seconds - (time.time() - t0)
        if left < 1:
            res["undecided"].append("time limit before shape %r" % (sh,))
            break
        r = run_shape(case, prog, cfg, limit, max(1, int(left)), variant, sh)
        r["undecided"] = ["%s: %s" % ("any size" if sh is None else sh, u) for u in r["undecided"]]
        if res is None:
            res = r
        else:
            for k in ("traces", "obligations", "seconds"):
                res[k] += r[k]
            res["violations"] += r["violations"]
            res["undecided"] += r["undecided"]
            for k, v in r["cats"].items():
                res["cats"][k] = res["cats"].get(k, 0) + v
        if res["violations"]:
            break
    res["shapes"] = ["any size" if x is None else dict(x) for x in shapes]
    return res


def run_shape(case, prog, cfg, limit, seconds, variant, shape):
    """-> dict(case, states, proved, violations, undecided, stats)"""
    from engine import Engine
    import models as modelmod  # noqa: F401  (registers the library summaries)
    t0 = time.time()
    res = {"case": case.name, "config": cfg, "receiver": variant, "api": case.api, "traces": 0, "obligations": 0,
           "violations": [], "undecided": [], "stats": {}, "cats": {}, "shaped": set()}

    def onalarm(*_):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(seconds)
    I = Inputs(prog, limit)
    I.path = variant
    I.shape = shape
    try:
        E = Engine(prog, I.W)
        if shape is not None:
            E.unroll, E.joining = 600, "text" in shape
        env = {}
        for out in case.run(E, I, env, variant):
            one_trace(case, I, E, env, out, res)
            if len(res["violations"]) >= 6:
                break
    except Infeasible:
        if shape is None:
            res["undecided"].append("no input satisfies the assumptions of the case")
    except Timeout:
        res["undecided"].append("time limit of %ds" % seconds)
    except Unsupported as u:
        res["undecided"].append("unsupported: %s" % (str(u)[:200],))
    except RecursionError:
        import traceback
        res["undecided"].append("recursion limit" + traceback.format_exc()[-900:])
    except (Fork, ForkData):
        res["undecided"].append("partition request outside a trace")
    except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, ZeroDivisionError) as e:
        import traceback
        res["undecided"].append("analyser error: %s" % traceback.format_exc()[-600:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    res["shaped"] = {n for n in I.named}
    res["stats"] = dict(I.W.stats)
    res["seconds"] = round(time.time() - t0, 2)
    return res


def one_trace(case, I, E, env, out, res):
    work = [(out, 0)]
    while work:
        s, depth = work.pop()
        if s.status == "unreachable":
            continue
        if s.status == "unknown":
            res["undecided"].append("analysis stopped: %s in %s" % (s.ret[0], s.ret[1]))
            continue
        if depth > 60:
            res["undecided"].append("too many partitions of one trace")
            continue
        base = s
        s = base.clone()
        c = Ctx(I, E, s, env)
        try:
            if s.status != "return":
                case.abnormal(c)
            else:
                case.check(c)
            res["traces"] += 1
            count(res, c)
        except (Fork, ForkData) as f:
            work.extend((x, depth + 1) for x in E.split(base, f))
        except Unsupported as u:
            res["undecided"].append("unsupported: %s" % (str(u)[:200],))
        except Fail as f:
            count(res, c)
            res["traces"] += 1
            hit = None if s.contradictory() else refute(s, f)
            if hit:
                res["violations"].append({"cat": f.cat, "what": f.what, "why": hit[0], "input": hit[1],
                                          "where": where(s)})
            elif not s.contradictory():
                res["undecided"].append("%s not proved" % f.what)


def count(res, c):
    for k, n in c.tally.items():
        res["cats"][k] = res["cats"].get(k, 0) + n
        res["obligations"] += n
    if c.st.status == "return" and not res.get("nopanic"):
        res["cats"]["panic"] = res["cats"].get("panic", 0) + 1
        res["obligations"] += 1


def where(s):
    if s.status == "return":
        return "result"
    if s.status == "panic":
        return "%s at %s" % (s.ret[1], s.ret[2])
    return s.status


def refute(st, f, tries=40):
    for extra in ((f.extra, ()) if f.extra else ((),)):
        try:
            for m in models(st, extra, tries=tries):
                try:
                    r = f.bad(m)
                except Opaque:
                    continue
                if r:
                    return r, describe(m)
        except (Fork, ForkData, Unsupported):
            continue
    return None
