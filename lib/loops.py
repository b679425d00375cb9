"""Loop summarisation: one symbolic iteration at a generic index k, phases split where a shape condition
on k flips, affine / delayed / carry recurrences solved, region writes generalised to ranges."""
import lin
from lin import Lin, L, ZERO, ONE
from dom import *
from state import Region

MAX_UNROLL = 8


class PhaseFork(Exception):
    def __init__(self, e):
        self.e = e


class Retry(Exception):
    pass


# ------------------------------------------------------------------ dependence
def src_keys(s, out):
    if s in (0, 1, TOPBIT):
        return
    for k, off, stv in s[2]:
        out.add(k[0])
        if k[0] == "bool":
            cond_keys(k[1], out)
        elif k[0] == "mem":
            term_keys(k[1], out)
        elif k[0] == "num":
            lin_keys(k[1], out)


def lin_keys(e, out, seen=None):
    seen = set() if seen is None else seen
    for a, _ in e.t:
        if a in seen:
            continue
        seen.add(a)
        at = lin.atom(a)
        if at.kind in ("val", "term"):
            term_keys(at.info, out)
        elif at.kind == "div":
            lin_keys(at.info[0], out, seen)
        elif at.kind == "mul":
            lin_keys(at.info[0], out, seen)
            lin_keys(at.info[1], out, seen)
        elif at.kind == "hv":
            out.add("hv")


def term_keys(t, out):
    if isinstance(t, Lin):
        lin_keys(t, out)
    elif isinstance(t, Bits):
        for l, h, s in t.segs:
            src_keys(s, out)
    elif isinstance(t, VInt):
        term_keys(t.rep, out)
    elif isinstance(t, VBool):
        cond_keys(t.c, out)
    elif isinstance(t, VAdt):
        for x in t.fields:
            term_keys(x, out)
    elif isinstance(t, VTup):
        for x in t.items:
            term_keys(x, out)
    elif isinstance(t, (VSym, VMap)):
        term_keys(t.term, out)
    elif isinstance(t, VIte):
        cond_keys(t.c, out)
        term_keys(t.a, out)
        term_keys(t.b, out)
    elif isinstance(t, tuple):
        if t and isinstance(t[0], str) and t[0] in COND_TAGS:
            cond_keys(t, out)
        else:
            for x in t:
                term_keys(x, out)


def cond_keys(c, out):
    t = c[0]
    if t == "lin":
        lin_keys(c[1], out)
    elif t == "rz":
        src_keys(c[1], out)
    elif t == "ult":
        term_keys(c[1], out)
        term_keys(c[2], out)
    elif t == "not":
        cond_keys(c[1], out)
    elif t in ("and", "or"):
        cond_keys(c[1], out)
        cond_keys(c[2], out)
    elif t == "data":
        if len(c) > 1 and c[1] == "hv":
            out.add("hv")
        for x in c[1:]:
            term_keys(x, out)
    elif t == "top":
        out.add("top")


def all_lins(t):
    ls = []

    def f(l):
        ls.append(l)
        return l
    map_term(t, f)
    return ls


def deps_of(st, t):
    out = set()
    for l in all_lins(t):
        out |= st.deps(l)
    return out


def subst_term(st, t, m):
    return map_term(t, lambda l: st.subst_deep(st.norm(l), m))


# ------------------------------------------------------------------ plans
class Plan:
    def __init__(self):
        self.aff = {}       # leaf -> delta Lin
        self.hv = {}        # leaf -> placeholder value
        self.regs = {}      # rid -> None | (A, B, s)
        self.rlen = {}      # rid -> delta
        self.P = []         # [(e, truth)]


def get_leaf(v, path):
    for p in path:
        if p == "pos":
            v = v.pos
        elif isinstance(v, VTup):
            v = v.items[p]
        elif isinstance(v, VAdt):
            v = v.fields[p]
        elif isinstance(v, VClosure):
            v = v.caps[p]
    return v


def set_leaf(v, path, x):
    if not path:
        return x
    p = path[0]
    if p == "pos":
        return VIter(v.seq, x)
    if isinstance(v, VTup):
        t = list(v.items)
        t[p] = set_leaf(t[p], path[1:], x)
        return VTup(tuple(t))
    if isinstance(v, VAdt):
        t = list(v.fields)
        t[p] = set_leaf(t[p], path[1:], x)
        return VAdt(v.path, v.variant, tuple(t))
    if isinstance(v, VClosure):
        t = list(v.caps)
        t[p] = set_leaf(t[p], path[1:], x)
        return VClosure(v.inst, tuple(t))
    raise Unsupported("leaf")


def same(st, a, b):
    """structural equality after normalisation"""
    if a == b:
        return True
    try:
        x = norm_value(st, a)
        y = norm_value(st, b)
    except (Fork, ForkData):
        return False
    if x == y:
        return True
    if isinstance(x, VInt) and isinstance(y, VInt) and x.w == y.w:
        try:
            bx = x.rep if isinstance(x.rep, Bits) else st.bits_of(x.rep, x.w)
            by = y.rep if isinstance(y.rep, Bits) else st.bits_of(y.rep, y.w)
            return seg_norm(st, x.w, bx.segs) == seg_norm(st, y.w, by.segs)
        except (Fork, ForkData):
            return False
    return False


def norm_value(st, v):
    v = map_value(v, st.norm)
    if isinstance(v, VInt) and isinstance(v.rep, Bits):
        return VInt(v.w, v.signed, seg_norm(st, v.w, v.rep.segs))
    if isinstance(v, VTup):
        return VTup(tuple(norm_value(st, x) for x in v.items))
    if isinstance(v, VAdt):
        return VAdt(v.path, v.variant, tuple(norm_value(st, x) for x in v.fields))
    return v


def diff_leaves(st, a, b, path, out):
    if a is b or a == b:
        return
    if type(a) is type(b):
        if isinstance(a, VTup) and len(a.items) == len(b.items):
            for i, (x, y) in enumerate(zip(a.items, b.items)):
                diff_leaves(st, x, y, path + (i,), out)
            return
        if isinstance(a, VAdt) and a.path == b.path and a.variant == b.variant and len(a.fields) == len(b.fields):
            for i, (x, y) in enumerate(zip(a.fields, b.fields)):
                diff_leaves(st, x, y, path + (i,), out)
            return
        if isinstance(a, VClosure) and a.inst == b.inst:
            for i, (x, y) in enumerate(zip(a.caps, b.caps)):
                diff_leaves(st, x, y, path + (i,), out)
            return
        if isinstance(a, VIter) and a.seq.map(st.norm) == b.seq.map(st.norm):
            if st.norm(a.pos) != st.norm(b.pos):
                out.append((path + ("pos",), a.pos, b.pos))
            return
    if same(st, a, b):
        return
    out.append((path, a, b))


DBG = False


class Summary:
    def __init__(self, eng, st, head, blocks):
        self.eng, self.st, self.head, self.blocks = eng, st, head, blocks
        self.depth = len(st.frames)
        fr = st.frames[-1]
        self.fid = fr.fid
        self.body = fr.body
        # drop locals that are dead at the loop head
        live = eng.P.live_at(fr.body, head)
        s = st.clone()
        borrowed = set()
        for v in s.mem.values():
            refs_in(v, borrowed)
        for i in range(len(fr.body["locals"])):
            k = (fr.fid, i)
            if k in s.mem and i not in live and k not in borrowed and i != 0:
                del s.mem[k]
        self.st0 = s
        self.k = None
        self.stable = self.early = False

    # ---------------------------------------------------------- running the body once
    def run_body(self, s, hoist):
        s = s.clone()
        fr = s.frames[-1]
        fr.inloop = fr.inloop | {self.head}
        fr.bb = self.head
        s.ticks = 0
        depth, fid, head, blocks = self.depth, self.fid, self.head, self.blocks

        def stop(x):
            if len(x.frames) < depth:
                return "exit"
            if len(x.frames) == depth:
                t = x.frames[-1]
                if t.bb not in blocks:
                    return "exit"
                if t.bb == head and x.ticks > 0:
                    return "cont"
            return None
        return self.eng.run(s, stop, hoist)

    def clean(self, s):
        """a state leaving the summary"""
        s = s.clone()
        if len(s.frames) >= self.depth:
            f = s.frames[self.depth - 1]
            if f.fid == self.fid:
                f.inloop = f.inloop - {self.head}
        s.ticks = 1
        return s

    def bump(self, s):
        s.holes = dict(s.holes)
        s.holes[(self.fid, self.head)] = s.holes.get((self.fid, self.head), 0) + 1
        return s

    def peel(self):
        out = []
        for kind, s in self.first:
            s = self.clean(s)
            if kind == "cont":
                s = self.bump(s)
            elif (self.fid, self.head) in s.holes:
                s.holes = dict(s.holes)      # left the loop: an enclosing loop may enter it afresh
                del s.holes[(self.fid, self.head)]
            out.append(s)
        return out

    # ---------------------------------------------------------- main
    def go(self):
        eng, st = self.eng, self.st0
        cnt = st.holes.get((self.fid, self.head), 0)
        if cnt > 24:
            raise Unsupported("too many loop phases")
        eng.W.stats["loops"] += 1
        self.first = self.run_body(st, lambda f: isinstance(f, Fork))
        conts = [s for k, s in self.first if k == "cont"]
        if not conts:
            return self.peel()
        marker = len(lin.TAB.atoms)
        self.marker = marker
        self.k = lin.new_atom("k%d" % marker, 0, kind="kappa")
        self.ka = self.k.t[0][0]
        plan = self.plan = Plan()
        for attempt in range(40):
            try:
                r = self.attempt(plan)
            except PhaseFork as f:
                self.add_phase(plan, f.e)
                continue
            except Retry:
                continue
            return r
        raise Unsupported("loop analysis does not converge")

    def add_phase(self, plan, e):
        e0 = self.st0.norm(e.subst({self.ka: ZERO}))
        t = self.st0.ge0(e0)
        if t is None:
            raise Fork(e0)
        plan.P.append((e, t))

    def hoist(self, f):
        st = self.st0
        if isinstance(f, Fork):
            e = f.e
            D = st.deps(e)
            inner = [a for a in D if a >= self.marker and a != self.ka and lin.atom(a).kind in ("kappa", "hv", "var")]
            if inner:
                return False
            keys = set()
            lin_keys(e, keys)
            if keys & {"hold", "prev"}:
                return False
            if self.ka in D:
                rest = Lin(tuple((a, c) for a, c in e.t if a != self.ka), 0)
                if self.ka in st.deps(rest) or e.coef(self.ka) == 0:
                    return False
                raise PhaseFork(e)
            return True
        D = deps_of(st, f.p)
        keys = set()
        cond_keys(f.p, keys)
        if self.ka in D or keys & {"hold", "prev", "hv", "top"}:
            return False
        if any(a >= self.marker and lin.atom(a).kind in ("kappa", "hv", "var") for a in D):
            return False
        if not self.stable:
            # the recurrences are not known yet: the condition may only look invariant
            self.early = True
            return False
        return True

    def constrain(self, g, plan):
        for e, t in plan.P:
            if not g.add(e if t else -e - 1):
                return False
        return True

    def pre(self, plan):
        g = self.st0.clone()
        if not self.constrain(g, plan):
            raise Unsupported("phase is infeasible")
        for (key, path), d in plan.aff.items():
            v = self.st0.mem[key]
            x = get_leaf(v, path)
            if isinstance(x, VInt):
                nx = VInt(x.w, x.signed, g.norm(x.rep + self.times(g, d)))
            else:
                nx = g.norm(x + self.times(g, d))
            g.mem[key] = set_leaf(g.mem[key], path, nx)
        for (key, path), x in plan.hv.items():
            g.mem[key] = set_leaf(g.mem[key], path, x)
        for rid, win in plan.regs.items():
            r = self.st0.regions[rid]
            ln = r.len
            if rid in plan.rlen:
                ln = g.norm(ln + self.times(g, plan.rlen[rid]))
            if r.eb is None:
                g.regions[rid] = r.repl(base=("holdobj",), writes=(), length=ln)
            elif win is None:
                g.regions[rid] = r.repl(base=("src", ("hold", rid)), writes=(), length=ln)
            elif win[0] == "cell":
                g.regions[rid] = r.repl(writes=r.writes + self.cell_write(g, win), length=ln)
            else:
                lo, hi = self.union(g, win)
                w = r.writes
                if win != "none":
                    w = w + (("flat", lo, hi, ident(("prev", rid))),)
                g.regions[rid] = r.repl(writes=w, length=ln)
        return g

    def times(self, g, d):
        """k * d"""
        if d.is_const():
            return self.k * d.c
        return g.mul(self.k, d)

    def union(self, g, win):
        """range written by the iterations j < k"""
        A, B, s = win
        m0 = {self.ka: ZERO}
        mp = {self.ka: self.k - 1}
        if s > 0:
            return g.norm(A.subst(m0)), g.norm(B.subst(mp))
        return g.norm(A.subst(mp)), g.norm(B.subst(m0))

    # ---------------------------------------------------------- one attempt
    def attempt(self, plan):
        eng = self.eng
        g = self.pre(plan)
        if self.ka in g.sub:
            return self.peel()
        if self.small(plan, g):
            return self.peel()
        self.early = False
        res = self.run_body(g, self.hoist)
        conts = [s for k, s in res if k == "cont"]
        exits = [s for k, s in res if k != "cont" and s.status != "unreachable"]
        if not conts:
            return self.peel()
        changed = False
        for c in conts:
            if c.effects != g.effects:
                raise Unsupported("effects in a loop")
            if c.status != "run":
                raise Unsupported("loop body: %s" % (c.ret,))
            for key in self.st0.mem:
                if key not in c.mem:
                    continue
                a, b = g.mem[key], c.mem[key]
                ds = []
                diff_leaves(c, a, b, (), ds)
                for path, x, y in ds:
                    changed |= self.classify(plan, c, (key, path), x, y)
            for rid, r0 in self.st0.regions.items():
                r = c.regions.get(rid)
                gr = g.regions[rid]
                if r is gr or r.key() == gr.key():
                    continue
                if rid not in plan.regs:
                    plan.regs[rid] = None
                    changed = True
                d = c.norm(r.len - gr.len)
                if d != ZERO:
                    if rid not in plan.rlen:
                        if self.ka in c.deps(d) or lin.is_data(d):
                            raise Unsupported("irregular buffer growth")
                        plan.rlen[rid] = d
                        changed = True
                    elif plan.rlen[rid] != d:
                        raise Unsupported("irregular buffer growth")
                elif rid in plan.rlen:
                    raise Unsupported("irregular buffer growth")
                if r.tag != r0.tag or r.eb != r0.eb:
                    if r0.tag == "lazy":
                        return self.peel()
                    raise Unsupported("opaque buffer in a loop")
        if changed:
            raise Retry()
        # affine leaves must have moved on every continuing path
        for lf, d in list(plan.aff.items()):
            for c in conts:
                x = get_leaf(g.mem[lf[0]], lf[1])
                y = get_leaf(c.mem[lf[0]], lf[1])
                xe = x.rep if isinstance(x, VInt) else x
                ye = y.rep if isinstance(y, VInt) else y
                if not isinstance(ye, Lin) or c.norm(ye - xe) != c.norm(d):
                    self.demote(plan, lf, x)
                    raise Retry()
        if self.early:
            self.stable = True
            raise Retry()
        # windows of the written regions
        pend = [rid for rid, w in plan.regs.items() if w is None and self.st0.regions[rid].eb is not None]
        if pend:
            for rid in pend:
                plan.regs[rid] = self.window(conts, rid)
            raise Retry()
        return self.finish(plan, g, conts, exits, res)

    def small(self, plan, g):
        for e, t in plan.P:
            x = self.st0.norm(e if t else -e - 1)
            if self.st0.deps(x) == {self.ka}:
                k = x.coef(self.ka)
                if k < 0 and x.c // -k + 1 <= MAX_UNROLL:
                    return True
        return False

    def demote(self, plan, lf, x):
        plan.aff.pop(lf, None)
        if isinstance(x, VInt):
            lo, hi = (-(1 << (x.w - 1)), (1 << (x.w - 1)) - 1) if x.signed else (0, (1 << x.w) - 1)
            a = lin.new_atom("h%d" % len(lin.TAB.atoms), lo, hi, kind="hv", data=True)
            plan.hv[lf] = VInt(x.w, x.signed, a)
        elif isinstance(x, VBool):
            plan.hv[lf] = VBool(("data", "hv", len(lin.TAB.atoms), self.eng.W.fresh()))
        elif isinstance(x, Lin):
            raise Unsupported("irregular iterator position")
        else:
            plan.hv[lf] = VTop("loop")

    def classify(self, plan, c, lf, x, y):
        if lf in plan.hv:
            return False
        # a leaf below an already abstracted one
        if isinstance(x, VInt) and isinstance(y, VInt) and isinstance(x.rep, Lin) and isinstance(y.rep, Lin):
            d = c.norm(y.rep - x.rep)
            if not lin.is_data(d) and not lin.is_data(x.rep) and self.ka not in c.deps(d) and lf not in plan.aff \
                    and not any(a >= self.marker and lin.atom(a).kind in ("kappa", "hv", "var") for a in c.deps(d)):
                plan.aff[lf] = d
                return True
            if lf in plan.aff and plan.aff[lf] == d:
                return False
            self.demote(plan, lf, x)
            return True
        if isinstance(x, Lin) and isinstance(y, Lin):
            d = c.norm(y - x)
            if lf not in plan.aff:
                if self.ka in c.deps(d) or lin.is_data(d):
                    raise Unsupported("irregular iterator position")
                plan.aff[lf] = d
                return True
            if plan.aff[lf] == d:
                return False
            raise Unsupported("irregular iterator position")
        # drop finer leaves
        for o in [o for o in list(plan.hv) + list(plan.aff) if o[0] == lf[0] and o[1][:len(lf[1])] == lf[1]]:
            plan.hv.pop(o, None)
            plan.aff.pop(o, None)
        self.demote(plan, lf, x)
        return True

    # ---------------------------------------------------------- written window of one iteration
    def window(self, conts, rid):
        """(A, B, stride): bits written by iteration k, common hull over the continuing paths"""
        res = None
        for c in conts:
            ws = c.regions[rid].writes
            if not ws:
                continue
            lo = hi = None
            for w in ws:
                l, h = c.norm(w[1]), c.norm(w[2])
                if c.ge0(l - h):
                    continue
                if lo is None:
                    lo, hi = l, h
                    continue
                lo = lo if self.dec(c, l - lo) else l
                hi = hi if self.dec(c, hi - h) else h
            if lo is None:
                continue
            if res is None:
                res = (lo, hi)
            elif (c.norm(lo - res[0]) != ZERO or c.norm(hi - res[1]) != ZERO):
                a = res[0] if self.dec(c, lo - res[0]) else lo
                b = res[1] if self.dec(c, res[1] - hi) else hi
                res = (a, b)
        if res is None:
            raise Unsupported("no window")
        A, B = res
        s = A.coef(self.ka)
        rest = A - self.k * s
        if self.ka in self.st0.deps(rest):
            raise Unsupported("irregular write addresses")
        n = self.st0.norm(B - A)
        if self.ka in self.st0.deps(n):
            raise Unsupported("irregular write window")
        if s == 0:
            return self.cell(rid, A, B)
        if self.st0.eq0(n - abs(s)) is not True:
            raise Unsupported("write windows overlap or leave gaps (%r / stride %d)" % (n, s))
        return (A, B, s)

    # ---------------------------------------------------------- one place that every iteration updates
    def cell_num(self, s, rid, A, B):
        w = s.norm(B - A)
        if not w.is_const() or w.c not in (8, 16, 32, 64, 128):
            raise Unsupported("repeated writes to one place")
        segs = [(s.norm(l - A), s.norm(h - A), f_shift(x, -A)) for l, h, x in s.read_flat(rid, A, B)]
        return s.norm(s.num(seg_norm(s, w.c, segs))), w.c

    def cell(self, rid, A, B):
        """a counter in memory: the value at [A,B) moves by the same amount in every iteration"""
        d = None
        try:
            v0, w = self.cell_num(self.st0, rid, A, B)
            for kind, c in self.first:
                if kind != "cont":
                    continue
                x = c.norm(self.cell_num(c, rid, A, B)[0] - c.norm(v0))
                if not x.is_const() or d not in (None, x):
                    raise Unsupported("repeated writes to one place")
                d = x
        except Fork as f:
            if self.hoist(f):
                raise
            raise Unsupported("repeated writes to one place")
        if d is None or d == ZERO:
            raise Unsupported("repeated writes to one place")
        return ("cell", A, B, v0, d, w)

    def cell_write(self, s, win):
        _, A, B, v0, d, w = win
        return (("flat", s.norm(A), s.norm(B), f_shift(ident(("num", s.norm(v0 + self.times(s, d)))), A)),)

    def check_cell(self, conts, rid, win):
        _, A, B, v0, d, w = win
        for c in conts:
            if c.norm(self.cell_num(c, rid, A, B)[0] - v0 - self.times(c, d) - d) != ZERO and not self.same_cell(c, rid, A, B, c.norm(v0 + self.times(c, d) + d), w):
                raise Unsupported("repeated writes to one place")
            for x in c.regions[rid].writes[len(self.st0.regions[rid].writes):]:
                if c.ge0(x[1] - A) is not True or c.ge0(B - x[2]) is not True:
                    raise Unsupported("writes around a counter")

    def same_cell(self, c, rid, A, B, e, w):
        """the lowest bits of e are at [A,B)"""
        try:
            x = seg_norm(c, w, [(c.norm(l - A), c.norm(h - A), f_shift(f, -A)) for l, h, f in c.read_flat(rid, A, B)])
            return c.norm(c.num(x) - c.num(Bits(w, [(ZERO, L(w), ident(("num", e)))]))) == ZERO
        except Fork:
            return False

    def dec(self, c, e):
        try:
            return c.decide(e)
        except Fork as f:
            if self.hoist(f):
                raise
            raise Unsupported("undecided order of writes")

    # ---------------------------------------------------------- solving
    def finish(self, plan, g, conts, exits, res):
        eng = self.eng
        self.g = g
        newfacts = [{c0: v for c0, v in c.facts.items() if c0 not in g.facts} for c in conts]
        tree = merge_tree(list(zip(conts, newfacts)))
        self.solved = {}
        # leaf recurrences
        unsolved = dict(plan.hv)
        carries = {}
        for lf in list(unsolved):
            E = tree_value(tree, lambda c: get_leaf(c.mem[lf[0]], lf[1]))
            keys = set()
            if E is not None:
                term_keys(E, keys)
            init = get_leaf(self.st0.mem[lf[0]], lf[1])
            if E is None or isinstance(E, VTop):
                self.solved[lf] = VTop("loop")
                continue
            if isinstance(E, VIte):
                E = ite_bits(g, E)
                if E is None:
                    self.solved[lf] = VTop("loop")
                    continue
            if not keys & {"hv", "prev", "hold", "top"}:
                fresh = any(a >= self.marker and lin.atom(a).kind in ("kappa", "hv") and a != self.ka for a in deps_of(g, E))
                if fresh:
                    self.solved[lf] = VTop("loop")
                    continue
                before = map_value(E, lambda l: self.st0.subst_deep(self.st0.norm(l), {self.ka: L(-1)}))
                if same(self.st0, before, init):
                    self.solved[lf] = map_value(E, lambda l: self.st0.subst_deep(self.st0.norm(l), {self.ka: self.k - 1}))
                else:
                    n = self.st0.holes.get(("peel", self.fid, self.head), 0)
                    if n >= 2:
                        self.solved[lf] = VTop("loop")
                    else:
                        out = self.peel()
                        for s in out:
                            if len(s.frames) == self.depth and s.frames[-1].bb == self.head:
                                s.holes[("peel", self.fid, self.head)] = n + 1
                        return out
                continue
            x = plan.hv[lf]
            r = self.bool_recurrence(g, x, E, init)
            if r is not None:
                self.solved[lf] = r
                continue
            r = self.word_recurrence(g, x, E, init)
            if r is not None:
                self.solved[lf] = r
                continue
            if isinstance(x, VInt) and isinstance(E, VInt):
                q = self.carry_form(g, x, E)
                if q is not None:
                    carries[lf] = q
                    continue
            self.solved[lf] = VTop("loop")
        # region contents
        writes = {}
        carry_used = {}
        for rid, win in plan.regs.items():
            r0 = self.st0.regions[rid]
            if r0.eb is None:
                writes[rid] = self.obj_writes(plan, conts, rid)
                continue
            if win[0] == "cell":
                self.check_cell(conts, rid, win)
                continue
            writes[rid] = self.region_writes(plan, g, tree, conts, rid, win, carries)
        for lf, (X, m, h) in carries.items():
            init = get_leaf(self.st0.mem[lf[0]], lf[1])
            w = init.w
            self.solved[lf] = VInt(w, init.signed, Bits(w, [(ZERO, L(w), ident(("mem", ("carry-out", self.k, X))))]))
        # facts true on every earlier iteration
        gen = self.general_facts(g, newfacts)

        def at(constrain):
            s = self.st0.clone()
            for e in constrain:
                if not s.add(e):
                    return None
            for (key, path), d in plan.aff.items():
                x = get_leaf(self.st0.mem[key], path)
                if isinstance(x, VInt):
                    nx = VInt(x.w, x.signed, s.norm(x.rep + self.times(s, d)))
                else:
                    nx = s.norm(x + self.times(s, d))
                s.mem[key] = set_leaf(s.mem[key], path, nx)
            for (key, path), v in self.solved.items():
                s.mem[key] = set_leaf(s.mem[key], path, map_value(v, s.norm))
            for rid in plan.regs:
                r = self.st0.regions[rid]
                ln = r.len
                if rid in plan.rlen:
                    ln = s.norm(ln + self.times(s, plan.rlen[rid]))
                wr = writes[rid] if rid in writes else self.cell_write(s, plan.regs[rid])
                s.regions[rid] = r.repl(writes=r.writes + wr, length=ln)
            for c0, v in gen:
                if c0[0] == "imprecise":
                    s.facts = {**s.facts, c0: v}
                    continue
                try:
                    if not s.add_fact(map_cond(c0, s.norm), v):
                        return None
                except Fork:
                    pass
            return s

        outs = []
        P = [e if t else -e - 1 for e, t in plan.P]
        if exits:
            s = at(P)
            if s is not None:
                for kind, x in self.run_body(s, lambda f: self.hoist_final(f)):
                    if kind == "cont" or x.status == "unreachable":
                        continue
                    outs.append(self.clean(x))
        prev = {self.ka: self.k - 1}
        for i, e in enumerate(P):
            cs = [self.st0.norm(x).subst(prev) for x in P] + [x for x in P[:i]] + [-e - 1]
            s = at(cs)
            if s is None:
                continue
            s.frames[-1].bb = self.head
            s = self.bump(self.clean(s))
            outs.append(s)
        return outs

    def hoist_final(self, f):
        if isinstance(f, Fork):
            return False
        return False

    # boolean accumulators:  acc' = acc && phi(k)   /   acc' = acc || phi(k)
    def bool_recurrence(self, g, x, E, init):
        if not isinstance(x, VBool) or not isinstance(E, VBool) or not isinstance(init, VBool):
            return None
        c = E.c
        neg = False
        if c[0] == "or":
            c, neg = c_not(c), True
        if c[0] != "and":
            return None
        want = c_not(x.c) if neg else x.c
        parts = flatten_and(c)
        if want not in parts:
            return None
        phi = [p for p in parts if p != want]
        keys = set()
        for p in phi:
            cond_keys(p, keys)
        if keys & {"hv", "prev", "hold", "top"}:
            return None
        acc = c_not(init.c) if neg else init.c
        for p in phi:
            r = self.range_fact(g, p, True)
            if r is None:
                return None
            acc = c_and(acc, r)
        return VBool(c_not(acc) if neg else acc)

    # word accumulators:  acc' = acc | T(k)   /   acc' = acc & T(k)
    def word_recurrence(self, g, x, E, init):
        """the accumulated word is opaque, except for whether it is zero (all ones, for the conjunction)"""
        if not isinstance(x, VInt) or not isinstance(E, VInt) or not isinstance(init, VInt) or not isinstance(E.rep, Bits) \
                or not isinstance(x.rep, Lin):
            return None
        w = x.w
        b = seg_norm(g, E.rep.w, E.rep.segs)
        key = ("num", g.norm(x.rep))
        kind, parts, at = None, [], ZERO
        for lo, hi, s in b.segs:
            if s in (0, 1, TOPBIT) or lo != at:
                return None
            at = hi
            here = [j for j, q in enumerate(s[2]) if q[0][0] == "num" and g.norm(q[0][1]) == key[1] and q[1] == ZERO and q[2] == 1]
            if len(here) != 1 or g.norm(hi) == lo:
                return None
            j, n = here[0], len(s[2])
            rest = s[2][:j] + s[2][j + 1:]
            cof = [0, 0]
            for y in range(1 << n):
                if (s[1] >> y) & 1:
                    cof[(y >> j) & 1] |= 1 << ((y & ((1 << j) - 1)) | (y >> (j + 1) << j))
            full = (1 << (1 << (n - 1))) - 1
            if cof[0] == 0 and cof[1] == full:
                continue
            if cof[1] == full:
                kd, f = "or", mk_f(cof[0], rest)
            elif cof[0] == 0:
                kd, f = "and", f_not(mk_f(cof[1], rest))
            else:
                return None
            if kind not in (None, kd):
                return None
            kind = kd
            parts.append((lo, hi, f))
        if kind is None or g.norm(at) != L(w):
            return None
        ib = self.eng.word(g, init)
        acc = TRUE
        for lo, hi, s in ib.segs:
            acc = c_and(acc, g.rz_norm(f_not(s) if kind == "and" and s not in (0, 1) else (1 - s if kind == "and" else s), lo, hi))
        for lo, hi, f in parts:
            keys = set()
            src_keys(f, keys)
            if keys & {"hv", "prev", "hold", "top"} or f == TOPBIT:
                return None
            for p in flatten_and(g.rz_norm(f, lo, hi)):
                if p == TRUE:
                    continue
                r = self.range_fact(g, p, True)
                if r is None:
                    return None
                acc = c_and(acc, r)
        return VInt(w, init.signed, Bits(w, [(ZERO, L(w), ident(("mem", (kind + "acc", w, VBool(acc)))))]))

    def carry_form(self, g, x, E):
        """E = (Y(k) + h) div 2^m"""
        if DBG:
            print("CARRY", x, E)
        h = x.rep
        e = E.rep
        if isinstance(e, Bits):
            b = seg_norm(g, e.w, e.segs)
            try:
                e = g.num(b)
            except Unsupported:
                return None
        if not isinstance(e, Lin) or len(e.t) != 1 or e.c != 0 or e.t[0][1] != 1:
            return None
        at = lin.atom(e.t[0][0])
        if at.kind != "div":
            return None
        X, d = at.info
        if d & (d - 1) or X.coef(h.t[0][0]) != 1:
            return None
        return (X, d.bit_length() - 1, h)

    def whole(self, g, X, h, m, init, A):
        """the whole number whose base-2^m digits are  X(j) with carries, j = 0.."""
        S = L(0)
        if X.c:
            q, r = divmod(X.c, (1 << m) - 1)
            if r:
                return None
            S = S - q
        for a, c in X.t:
            if a == h.t[0][0]:
                if c != 1:
                    return None
                i = init
                S = S + i
                continue
            at = lin.atom(a)
            if at.kind != "val":
                return None
            b = at.info
            if b.w != m or len(b.segs) != 1:
                return None
            s = b.segs[0][2]
            if s in (0, 1, TOPBIT) or len(s[2]) != 1 or s[1] != 2:
                return None
            key, off, st1 = s[2][0]
            if st1 != 1 or key[0] in ("hold", "prev"):
                return None
            if g.norm(off) != self.k * m:
                return None
            S = S + g.num_atom(key) * c
        return S

    def region_writes(self, plan, g, tree, conts, rid, win, carries):
        A, B, s = win
        r0 = self.st0.regions[rid]
        lo0, hiK = self.union(g, win)
        n = abs(s)
        top = (("flat", lo0, hiK, TOPBIT),)
        per = []
        try:
            def rd(c):
                return [(c.norm(l - A), c.norm(h - A), f_shift(x, -A)) for l, h, x in c.read_flat(rid, A, B)]
            strs = [w for w in conts[0].regions[rid].writes[len(g.regions[rid].writes):] if w[0] == "str"]
            if strs and len(conts) == 1:
                r = self.nested_str(g, conts[0], rid, win, strs)
                if r is not None:
                    return r
            b = tree_bits(g, tree, rd, n)
        except Fork as f:
            if self.hoist(f):
                raise
            return top
        if b is None:
            return top
        if DBG:
            print('REGION', b, carries)
        # carry chains
        for lf, (X, m, h) in carries.items():
            if n == m and s > 0 and len(b.segs) == 1:
                src = b.segs[0][2]
                if src not in (0, 1, TOPBIT) and len(src[2]) == 1 and src[1] == 2 and src[2][0][0][0] == "num" \
                        and src[2][0][1] == ZERO and g.norm(src[2][0][0][1]) == g.norm(X):
                    init = get_leaf(self.st0.mem[lf[0]], lf[1])
                    iv = self.eng.num(self.st0, init)
                    S = self.whole(g, X, h, m, iv, A)
                    if S is not None:
                        return (("flat", lo0, hiK, ident(("num", S), -lo0)),)
        for l, h, x in b.segs:
            keys = set()
            src_keys(x, keys)
            if keys & {"hv", "prev", "hold"}:
                # solved delayed leaves may remove the placeholder
                break
        else:
            return self.generalise(g, win, b, lo0, hiK)
        # substitute solved placeholders
        m = {}
        for lf, v in self.solved.items():
            x = plan.hv[lf]
            if isinstance(x, VInt) and isinstance(v, VInt):
                m[x.rep.t[0][0]] = v
        b = subst_bits(g, b, m)
        if b is None:
            return top
        return self.generalise(g, win, b, lo0, hiK)

    def generalise(self, g, win, b, lo0, hiK):
        """b: the bits written by iteration k, relative to A(k)"""
        A, B, s = win
        n = abs(s)
        keys = set()
        for l, h, x in b.segs:
            src_keys(x, keys)
        if keys & {"hv", "prev", "hold"}:
            b = Bits(b.w, [(l, h, TOPBIT if has_keys(x, {"hv", "prev", "hold"}) else x) for l, h, x in b.segs])
        # same function of the flat address in every iteration?
        if len(b.segs) == 1:
            f = f_shift(b.segs[0][2], A)
            if self.ka not in deps_of(g, src_term(f)):
                return (("flat", lo0, hiK, f),)
        iota = lin.new_atom("_i%d" % len(lin.TAB.atoms), 0)
        ia = iota.t[0][0]
        m = {self.ka: iota if s > 0 else self.k - 1 - iota}
        segs = []
        for l, h, x in b.segs:
            l2, h2 = g.subst_deep(l, m), g.subst_deep(h, m)
            base = lo0 + iota * n
            x2 = f_map(f_shift(x, ZERO), lambda e: g.subst_deep(g.norm(e), m))
            # re-express as a function of the flat address
            segs.append((l2, h2, f_shift(x2, base)))
        return (("str", lo0, hiK, n, ia, tuple(segs)),)

    def nested_str(self, g, c, rid, win, strs):
        """the iteration wrote one inner strided range covering its window"""
        A, B, s = win
        new = c.regions[rid].writes[len(g.regions[rid].writes):]
        if len(new) != 1:
            return None
        _, lo, hi, st1, ja, segs = new[0]
        if c.norm(lo - A) != ZERO or c.norm(hi - B) != ZERO or s % st1:
            return None
        N = abs(s) // st1
        lo0, hiK = self.union(g, win)
        iota = lin.new_atom("_m%d" % len(lin.TAB.atoms), 0)
        if s > 0:
            m = {ja: iota - self.k * N}
            back = {}
        else:
            K = lin.new_atom("_K%d" % len(lin.TAB.atoms), 0)
            m = {ja: iota - (K - 1 - self.k) * N}
            back = {K.t[0][0]: self.k}

        def conv(m):
            out = []
            for l, h, x in segs:
                l2, h2 = g.subst_deep(c.norm(l), m), g.subst_deep(c.norm(h), m)
                x2 = f_map(x, lambda e: g.subst_deep(c.norm(e), m))
                if self.ka in deps_of(g, (l2, h2, src_term(x2))):
                    return None
                out.append((g.subst_deep(l2, back), g.subst_deep(h2, back), f_map(x2, lambda e: g.subst_deep(e, back))))
            return out
        out = conv(m)
        if out is None:
            return None
        return (("str", lo0, hiK, st1, iota.t[0][0], tuple(out)),)

    def obj_writes(self, plan, conts, rid):
        out = None
        for c in conts:
            ws = c.regions[rid].writes
            if len(ws) != 1 or ws[0][0] != "obj":
                raise Unsupported("object buffer in a loop")
            _, lo, hi, ia, v = ws[0]
            s = c.norm(lo).coef(self.ka)
            if s != 1 or c.norm(hi - lo) != ONE:
                raise Unsupported("object buffer in a loop")
            iota = lin.new_atom("_i%d" % len(lin.TAB.atoms), 0)
            m = {self.ka: iota}
            v2 = map_value(v, lambda l: c.subst_deep(c.norm(l), m))
            w = ("obj", c.norm(lo).subst({self.ka: ZERO}), c.norm(lo), iota.t[0][0], v2)
            if len(conts) > 1:
                raise Unsupported("object buffer in a loop")
            out = (w,)
        return out

    # ---------------------------------------------------------- facts
    def general_facts(self, g, newfacts):
        """facts that hold for every earlier iteration; remembers (imprecise) when some could not be kept"""
        common = set(newfacts[0].items())
        for nf in newfacts[1:]:
            common &= set(nf.items())
        lost = False
        for nf in newfacts:
            for c0, v in nf.items():
                if (c0, v) not in common and not any(o.get(c0) == (not v) for o in newfacts):
                    lost = True
        out = []
        for c0, v in sorted(common, key=repr):
            if c0[0] == "imprecise":
                lost = True
                continue
            if c0[0] == "ult" and not v:
                try:
                    x = self.st0.clone()
                    x.facts = dict(newfacts[0])
                    x.facts.pop(c0, None)
                    if x.known(c0) is False:
                        continue        # implied by an equality kept below
                except Fork:
                    pass
            keys = set()
            cond_keys(c0, keys)
            if keys & {"hv", "prev", "hold", "top"}:
                lost = True
                continue
            if self.ka not in deps_of(g, c0):
                out.append((c0, v))
                continue
            r = self.range_fact(g, c0, v)
            if r is not None:
                out.append((r, True))
            else:
                lost = True
        if lost:
            out.append((("imprecise",), True))
        return out

    def range_fact(self, g, c0, v):
        """for all j < k: c0(j) == v   as one condition, when expressible"""
        if c0[0] == "not":
            return self.range_fact(g, c0[1], not v)
        if c0[0] != "rz":
            return None
        f, lo, hi = c0[1], g.norm(c0[2]), g.norm(c0[3])
        if not v:
            if g.norm(hi - lo) == ONE and len(f[2]) == 1:
                f, v = f_not(f), True
            else:
                return None
        if self.ka in deps_of(g, src_term(f)):
            return None
        s = lo.coef(self.ka)
        n = g.norm(hi - lo)
        if self.ka in g.deps(n) or self.ka in g.deps(lo - self.k * s) or s == 0:
            return None
        if g.norm(n - abs(s)) != ZERO:
            return None
        A, B = self.union(g, (lo, hi, s))
        return ("rz", f, A, B)


def has_keys(s, ks):
    o = set()
    src_keys(s, o)
    return bool(o & ks)


def src_term(s):
    if s in (0, 1, TOPBIT):
        return ()
    return tuple((k[1:] if k[0] in ("num", "mem", "bool") else (), off) for k, off, st in s[2])


def flatten_and(c):
    if c[0] == "and":
        return flatten_and(c[1]) + flatten_and(c[2])
    return [c]


def refs_in(v, out):
    if isinstance(v, VRef):
        out.add(v.key)
    elif isinstance(v, VTup):
        for x in v.items:
            refs_in(x, out)
    elif isinstance(v, VAdt):
        for x in v.fields:
            refs_in(x, out)
    elif isinstance(v, VClosure):
        for x in v.caps:
            refs_in(x, out)
    elif isinstance(v, VIter):
        seq_refs(v.seq, out)
    elif isinstance(v, VIte):
        refs_in(v.a, out)
        refs_in(v.b, out)


def seq_refs(s, out):
    for n in getattr(s, "__dataclass_fields__", {}):
        x = getattr(s, n)
        if hasattr(x, "__dataclass_fields__") and not isinstance(x, (VRef, VElem, VSlice)):
            seq_refs(x, out)
        else:
            refs_in(x, out)


# ------------------------------------------------------------------ several continuing paths
def merge_tree(items):
    """decision tree over the data facts that separate the continuing paths"""
    if len(items) == 1:
        return ("leaf", items[0][0])
    conds = set(items[0][1])
    for _, f in items[1:]:
        conds &= set(f)
    for c in sorted(conds, key=repr):
        t = [x for x in items if x[1][c]]
        e = [x for x in items if not x[1][c]]
        if t and e:
            a, b = merge_tree(t), merge_tree(e)
            if a is None or b is None:
                return None
            return ("ite", c, a, b)
    return None


def tree_value(tree, get):
    if tree is None:
        return None
    if tree[0] == "leaf":
        return get(tree[1])
    a, b = tree_value(tree[2], get), tree_value(tree[3], get)
    if a is None or b is None:
        return None
    if a == b:
        return a
    if isinstance(a, VBool) and isinstance(b, VBool):
        return VBool(c_or(c_and(tree[1], a.c), c_and(c_not(tree[1]), b.c)))
    return VIte(tree[1], a, b)


def cond_bit(c):
    """(bit function, value of the bit when the condition holds)"""
    if c[0] == "not":
        r = cond_bit(c[1])
        return None if r is None else (r[0], 1 - r[1])
    if c[0] == "rz" and c[3] - c[2] == ONE and len(c[1][2]) == 1:
        return bit_const(c[1], c[2]), 0
    return None


def ite_bits(g, v):
    if not isinstance(v, VIte):
        return v
    a, b = ite_bits(g, v.a), ite_bits(g, v.b)
    if isinstance(a, VInt) and isinstance(b, VInt):
        cb = cond_bit(v.c)
        if cb is None:
            return None
        x = a.rep if isinstance(a.rep, Bits) else g.bits_of(a.rep, a.w)
        y = b.rep if isinstance(b.rep, Bits) else g.bits_of(b.rep, b.w)
        return VInt(a.w, a.signed, mux_bits(g, cb, x, y))
    return None


def mux_bits(g, cb, x, y):
    f, one = cb
    out = []
    for l, h, (p, q) in b_zip(g, x, y):
        out.append((l, h, f_apply(lambda c, u, w: (u if c == one else w), f, p, q)))
    return seg_norm(g, x.w, out)


def tree_bits(g, tree, rd, n):
    if tree is None:
        return None
    if tree[0] == "leaf":
        return seg_norm(g, n, rd(tree[1]))
    a, b = tree_bits(g, tree[2], rd, n), tree_bits(g, tree[3], rd, n)
    if a is None or b is None:
        return None
    if a == b:
        return a
    cb = cond_bit(tree[1])
    if cb is None:
        return None
    return mux_bits(g, cb, a, b)


def subst_bits(g, b, m):
    """replace ('num', h) placeholders by solved words"""
    out = []
    for l, h, s in b.segs:
        if not has_keys(s, {"hv"}):
            out.append((l, h, s))
            continue
        # every hv source must be a plain placeholder
        parts = [(l, h, s)]
        ok = True
        for k, off, st1 in s[2]:
            if k[0] == "num" and len(k[1].t) == 1 and k[1].c == 0 and k[1].t[0][1] == 1 and k[1].t[0][0] in m and st1 == 1:
                v = m[k[1].t[0][0]]
                vb = v.rep if isinstance(v.rep, Bits) else g.bits_of(v.rep, v.w)
                nparts = []
                for pl, ph, ps in parts:
                    for vl, vh, vs in vb.segs:
                        # placeholder bit (b + off) lies in [vl, vh)
                        lo, hi = vl - off, vh - off
                        if g.decide(lo - ph) or g.decide(pl - hi):
                            continue
                        a = pl if g.decide(pl - lo) else lo
                        z = ph if g.decide(hi - ph) else hi
                        if ps in (0, 1, TOPBIT):
                            nparts.append((a, z, ps))
                            continue
                        i = [j for j, y in enumerate(ps[2]) if y == (k, off, st1)]
                        if not i:
                            nparts.append((a, z, ps))
                            continue
                        i = i[0]
                        repl = f_shift(vs, -off)
                        others = [("f", 2, (y,)) for j, y in enumerate(ps[2]) if j != i]
                        tt = ps[1]
                        cnt = len(ps[2])

                        def fn(*bits, tt=tt, i=i, cnt=cnt):
                            o = list(bits[1:])
                            o.insert(i, bits[0])
                            x = 0
                            for j, bv in enumerate(o):
                                if bv:
                                    x |= 1 << j
                            return (tt >> x) & 1
                        nparts.append((a, z, f_apply(fn, repl, *others)))
                parts = nparts
            elif has_keys(("f", 2, ((k, off, st1),)), {"hv"}):
                ok = False
        if not ok:
            out.append((l, h, TOPBIT))
        else:
            out.extend(parts)
    return seg_norm(g, b.w, out)


def summarise(eng, st, head, blocks):
    return Summary(eng, st, head, blocks).go()
