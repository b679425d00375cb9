"""MIR abstract interpreter.  Callees of the crate (and pure core combinators) are analysed in line, the
rest of std through models.py; loops are summarised by loops.py."""
import lin
from lin import Lin, L, ZERO, ONE
from dom import *
from state import State, Region, Frame, World


VISITED = set()   # local functions entered, for the evidence


class Program:
    def __init__(self, dump, shim=None):
        self.types = dump["types"]
        self.bodies = {b["key"]: b for b in dump["bodies"]}
        self.roots = dump["roots"]
        self.adts = {a["path"]: a for a in dump["adts"]}
        self.impls = dump["impls"]
        self.effects = dump.get("effects") or {"statics": [], "types": [], "unsafe": []}
        self.dispatch = {}
        for r in self.roots:
            if r.get("impl_of") and "self_ty" in r:
                st = self.types[r["self_ty"]]
                while st["k"] == "ref":
                    st = self.types[st["elem"]]
                if st["k"] == "adt":
                    self.dispatch[(r["impl_of"], r["name"], st["path"])] = r["key"]
        self.traitdef = {}
        for r in self.roots:
            if r.get("trait") and not r.get("impl_of"):
                self.traitdef[(r["trait"], r["name"])] = r["key"]
        for b in dump["bodies"]:
            b["_types"] = self.types
            self._prep(b)
        self.own = [b for b in dump["bodies"] if b["local"]]
        self.shim = {}
        if shim:
            for b in shim["bodies"]:
                b["_types"] = shim["types"]
                b["key"] = "shim!" + b["key"]
                self._prep(b)
                self.bodies[b["key"]] = b
            # references between shim bodies
            self.shim_raw = {}
            for r in shim["roots"]:
                self.shim[r["name"]] = "shim!" + r["key"]
            for a in shim["adts"]:
                self.adts.setdefault(a["path"], a)

    def _prep(self, b):
        n = len(b["blocks"])
        succ = []
        for bb in b["blocks"]:
            t = bb["t"]
            k = t["k"]
            if k == "goto" or k == "drop" or k == "assert":
                s = [t["t"]]
            elif k == "switch":
                s = [x[1] for x in t["ts"]] + [t["else"]]
            elif k == "call":
                s = [t["t"]] if t["t"] is not None else []
            else:
                s = []
            succ.append([x for x in s if not b["blocks"][x]["cleanup"]])
        b["_succ"] = succ
        b["_loops"] = None
        b["_live"] = None

    def loops(self, b):
        """natural loops: head -> set of blocks"""
        if b["_loops"] is not None:
            return b["_loops"]
        n = len(b["blocks"])
        succ = b["_succ"]
        # dominators (iterative)
        order, seen = [], set()

        def dfs(r):
            st = [(r, iter(succ[r]))]
            seen.add(r)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(succ[y])))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(0)
        order.reverse()
        pred = {x: [] for x in order}
        for x in order:
            for y in succ[x]:
                pred[y].append(x)
        dom = {x: set(order) for x in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for x in order[1:]:
                d = set.intersection(*(dom[p] for p in pred[x])) | {x} if pred[x] else {x}
                if d != dom[x]:
                    dom[x] = d
                    ch = True
        loops = {}
        for x in order:
            for y in succ[x]:
                if y in dom[x]:      # back edge x -> y
                    body = {y, x}
                    work = [x]
                    while work:
                        z = work.pop()
                        if z == y:
                            continue
                        for p in pred[z]:
                            if p not in body:
                                body.add(p)
                                work.append(p)
                    loops.setdefault(y, set()).update(body)
        b["_loops"] = loops
        return loops

    def live_at(self, b, bb):
        """locals possibly read (or borrowed) from the start of block bb on"""
        if b["_live"] is None:
            n = len(b["blocks"])
            use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]

            def rd(i, l):
                if l not in dfn[i]:
                    use[i].add(l)

            def rp(i, p):
                rd(i, p["l"])
                for e in p["p"]:
                    if e[0] == "i":
                        rd(i, e[1])

            def ro(i, o):
                if o["k"] in ("copy", "move"):
                    rp(i, o["pl"])

            def wp(i, p):
                if p["p"]:
                    rp(i, p)
                else:
                    dfn[i].add(p["l"])
            for i, bb_ in enumerate(b["blocks"]):
                for s in bb_["s"]:
                    if s["k"] == "=":
                        r = s["rv"]
                        for f in ("o", "a", "b"):
                            if f in r and isinstance(r[f], dict) and "k" in r[f]:
                                ro(i, r[f])
                        for x in r.get("ops", ()):
                            ro(i, x)
                        if "pl" in r:
                            rp(i, r["pl"])
                        wp(i, s["pl"])
                    elif "pl" in s:
                        rp(i, s["pl"])
                    elif s["k"] == "assume":
                        ro(i, s["o"])
                t = bb_["t"]
                if t["k"] == "switch":
                    ro(i, t["o"])
                elif t["k"] == "assert":
                    ro(i, t["c"])
                    for x in t["mo"]:
                        ro(i, x)
                elif t["k"] == "call":
                    ro(i, t["f"])
                    for x in t["a"]:
                        ro(i, x)
                    wp(i, t["d"])
                elif t["k"] == "return":
                    rd(i, 0)
            live = [set(u) for u in use]
            ch = True
            while ch:
                ch = False
                for i in range(n - 1, -1, -1):
                    s = set(use[i])
                    for y in b["_succ"][i]:
                        s |= live[y] - dfn[i]
                    if s != live[i]:
                        live[i] = s
                        ch = True
            b["_live"] = live
        return b["_live"][bb]


def positional(b):
    """an integer expression, or a mask or one-hot word at a symbolic position"""
    return all(s in (0, 1) or (s != TOPBIT and len(s[2]) == 1 and s[1] == 2 and s[2][0][0][0] == "num" and s[2][0][2] == 1) for _, _, s in b.segs)


class Engine:
    def __init__(self, prog, world):
        self.P, self.W = prog, world
        import models
        self.models = models
        import loops
        self.loopmod = loops
        self.sp = None
        self.budget = None
        self.nojoin, self.joining = {}, False

    # ------------------------------------------------------------- types
    def ty(self, body, i):
        return body["_types"][i]

    # ------------------------------------------------------------- places
    def place(self, st, fr, p):
        """-> ('mem', key, path) | ('elem', rid, idx, path) | ('slice', VSlice) | ('val', v)"""
        cur = ("mem", (fr.fid, p["l"]), ())
        for e in p["p"]:
            k = e[0]
            if k == "*":
                v = self.load(st, cur)
                v = self.force(st, v)
                if isinstance(v, VRef):
                    cur = ("mem", v.key, v.path)
                elif isinstance(v, VElem):
                    cur = ("elem", v.rid, v.idx, v.path)
                elif isinstance(v, VSlice):
                    cur = ("slice", v)
                elif isinstance(v, VVec):
                    cur = ("slice", VSlice(v.rid, ZERO, st.regions[v.rid].len))
                elif isinstance(v, (VStr, VFn, VClosure, VSym, VIter, VAdt, VTup, VMap, VInt)):
                    cur = ("val", v)
                elif isinstance(v, VTop):
                    cur = ("val", v)
                else:
                    raise Unsupported("deref of %r" % (v,))
            elif k == "f":
                cur = self._field(st, cur, e[1])
            elif k == "d":
                if cur[0] in ("mem", "elem"):
                    cur = cur[:-1] + (cur[-1] + (("d", e[1]),),)
            elif k == "i":
                idx = self.load(st, ("mem", (fr.fid, e[1]), ()))
                cur = self._index(st, cur, self.num(st, idx))
            elif k == "ci":
                n = self._len(st, cur)
                idx = (n - e[1]) if e[3] else L(e[1])
                cur = self._index(st, cur, idx)
            elif k == "ss":
                s = self._as_slice(st, cur)
                end = s.len - e[2] if e[3] else L(e[2])
                cur = ("slice", VSlice(s.rid, s.start + e[1], end - e[1]))
            else:
                raise Unsupported("projection %r" % (e,))
        return cur

    def _field(self, st, cur, i):
        if cur[0] in ("mem", "elem"):
            return cur[:-1] + (cur[-1] + (i,),)
        if cur[0] == "val":
            return ("val", self._proj(st, cur[1], i))
        raise Unsupported("field of %s" % cur[0])

    def _as_slice(self, st, cur):
        if cur[0] == "slice":
            return cur[1]
        v = self.force(st, self.load(st, cur))
        if isinstance(v, VVec):
            return VSlice(v.rid, ZERO, st.regions[v.rid].len)
        if isinstance(v, VSlice):
            return v
        if isinstance(v, VStr):
            return self.models.str_slice(self, st, v)
        raise Unsupported("index into %r" % (v,))

    def _len(self, st, cur):
        return st.norm(self._as_slice(st, cur).len)

    def _index(self, st, cur, idx):
        s = self._as_slice(st, cur)
        return ("elem", s.rid, st.norm(s.start + idx), ())

    def _proj(self, st, v, i):
        v = self.force(st, v)
        if isinstance(i, tuple):      # downcast
            return v
        if isinstance(v, VTup):
            return v.items[i]
        if isinstance(v, VAdt):
            if i >= len(v.fields):
                raise Unsupported("field %d of %s" % (i, v.path))
            return v.fields[i]
        if isinstance(v, VClosure):
            return v.caps[i]
        if isinstance(v, VTop) or (isinstance(v, (VRef, VVec, VSlice)) and i == 0):     # the pointer inside a box
            return v
        raise Unsupported("projection of %s" % type(v).__name__)

    def force(self, st, v):
        while isinstance(v, VIte):
            v = v.a if st.decide_cond(v.c) else v.b
        return v

    def load(self, st, cur):
        if cur[0] == "mem":
            v = st.mem.get(cur[1])
            if v is None:
                raise Unsupported("read of uninitialised %r" % (cur[1],))
            for i in cur[2]:
                v = self._proj(st, v, i)
            return v
        if cur[0] == "elem":
            r = st.regions[cur[1]]
            if r.eb is not None:
                v = self.elem_value(st, r, st.read_word(cur[1], cur[2]))
            else:
                v = st.read_obj(cur[1], cur[2])
            for i in cur[3]:
                v = self._proj(st, v, i)
            return v
        if cur[0] == "slice":
            return cur[1]
        if cur[0] == "val":
            return cur[1]
        raise Unsupported("load")

    def elem_value(self, st, r, b):
        if r.tag == "bool":
            return VBool(c_not(st.zero_cond(b)))
        return VInt(r.eb, False, b)

    def _set(self, st, v, path, x):
        if not path:
            return x
        i = path[0]
        if isinstance(i, tuple):
            return self._set(st, v, path[1:], x)
        v = self.force(st, v) if v is not None else v
        if isinstance(v, VTup):
            t = list(v.items)
            t[i] = self._set(st, t[i], path[1:], x)
            return VTup(tuple(t))
        if isinstance(v, VAdt):
            t = list(v.fields)
            while len(t) <= i:
                t.append(VTop("uninit"))
            t[i] = self._set(st, t[i], path[1:], x)
            return VAdt(v.path, v.variant, tuple(t))
        if isinstance(v, VClosure):
            t = list(v.caps)
            t[i] = self._set(st, t[i], path[1:], x)
            return VClosure(v.inst, tuple(t))
        if isinstance(v, VTop):
            return v
        raise Unsupported("store into %s" % type(v).__name__)

    def store(self, st, cur, x):
        if cur[0] == "mem":
            if cur[2]:
                st.mem[cur[1]] = self._set(st, st.mem.get(cur[1]), cur[2], x)
            else:
                st.mem[cur[1]] = x
            return
        if cur[0] == "elem":
            r = st.regions[cur[1]]
            if r.eb is not None:
                st.write_word(cur[1], cur[2], self.word(st, x, r.eb))
            else:
                if cur[3]:
                    old = st.read_obj(cur[1], cur[2])
                    x = self._set(st, old, cur[3], x)
                st.write_obj(cur[1], cur[2], x)
            return
        raise Unsupported("store to %s" % cur[0])

    # ------------------------------------------------------------- scalars
    def num(self, st, v):
        v = self.force(st, v)
        if isinstance(v, VInt):
            if isinstance(v.rep, Lin):
                return st.norm(v.rep)
            if v.signed:
                raise Unsupported("numeric view of a signed word")
            return st.num(v.rep)
        if isinstance(v, VBool):
            c = st.cond_norm(v.c)
            if c[0] == "c":
                return L(int(c[1]))
            return st.num(self.bool_bits(c, 8))
        raise Unsupported("number from %s" % type(v).__name__)

    def bool_bits(self, c, w):
        r, neg = (c[1], False) if c[0] == "not" else (c, True)
        if r[0] == "rz" and r[3] - r[2] == ONE and r[1] not in (0, 1, TOPBIT):
            # the truth of a single bit is that bit
            f = mk_f(r[1][1], [(k, o + r[2] * s, 0) for k, o, s in r[1][2]])
            return Bits(w, [(ZERO, ONE, f_not(f) if neg else f), (ONE, L(w), 0)])
        return Bits(w, [(ZERO, ONE, mk_f(2, [(("bool", c), ZERO, 0)])), (ONE, L(w), 0)])

    def word(self, st, v, w=None):
        if isinstance(v, VIte):
            v = self.force(st, v)
        if isinstance(v, VInt):
            w = w or v.w
            if isinstance(v.rep, Lin):
                return st.bits_of(v.rep, w)
            return b_resize(st, v.rep, w)
        if isinstance(v, VBool):
            c = st.cond_norm(v.c)
            if c[0] == "c":
                return bconst(w or 8, int(c[1]))
            return self.bool_bits(c, w or 8)
        if isinstance(v, VTop):
            return Bits(w or 64, [(ZERO, L(w or 64), TOPBIT)])
        raise Unsupported("word from %s" % type(v).__name__)

    def mkint(self, st, t, e):
        """integer of type t from an expression already known to be in range"""
        return VInt(t["bits"], t["signed"], st.norm(e))

    def const(self, st, fr, o):
        t = fr.body["_types"][o["ty"]]
        k = t["k"]
        if "closure" in o:
            return VClosure(o["closure"], ())
        if "v" in o:
            if k == "int":
                return VInt(t["bits"], t["signed"], L(o["v"]))
            if k == "bool":
                return VBool(("c", bool(o["v"])))
            if k == "char":
                return VInt(32, False, L(o["v"]))
            if k == "adt":
                return self.adt_const(t, o["v"])
            return VTop("const")
        if o.get("unit"):
            return UNIT
        if "str" in o:
            return VStr(bytes(o["bytes"]))
        if "fields" in o:
            vs = tuple(self.const(st, fr, x) if x["k"] == "const" else VTop("const") for x in o["fields"])
            vs = tuple(VTop("const") if isinstance(x, tuple) else x for x in vs)
            return VAdt(o["adt"], o["variant"], vs) if "adt" in o else VTup(vs) if vs else UNIT
        if "ints" in o:
            key = ("table", tuple(o["ints"]), o["bits"])
            if key not in st.mem:
                et = fr.body["_types"][o["elem"]]
                vs = [VBool(("c", bool(x))) if et["k"] == "bool" else VInt(o["bits"], bool(et.get("signed")), Bits(o["bits"], bconst(o["bits"], x).segs)
                      if et.get("signed") else L(x)) for x in o["ints"]]
                st.mem[key] = v = self.models.make_array(self, st, {"k": "array"}, vs)
                if not et.get("signed") and et["k"] != "bool" and st.regions[v.rid].eb:
                    st.mem[("tbl", v.rid)] = (tuple(o["ints"]), len(st.regions[v.rid].writes))
            return VRef(key)
        if k == "tuple" and not t["args"]:
            return UNIT
        if k == "adt":
            a = self.P.adts.get(t["path"])
            if a and a["kind"] == "struct" and not a["variants"][0]["fields"]:
                return VAdt(t["path"], 0, ())
        if "inst" in o and o["inst"] in self.P.bodies:
            return ("call", o["inst"])
        return VTop("const " + str(o.get("opaque")))

    def adt_const(self, t, v):
        a = self.P.adts.get(t["path"])
        if a and a["kind"] == "enum":
            for i, x in enumerate(a["variants"]):
                bits = 8
                if int(x["disc"]) & 0xFF == int(v) & 0xFF and not x["fields"]:
                    return VAdt(t["path"], i, ())
        return VTop("adt const")

    def operand(self, st, fr, o):
        k = o["k"]
        if k in ("copy", "move"):
            return self.load(st, self.place(st, fr, o["pl"]))
        if k == "const":
            v = self.const(st, fr, o)
            if isinstance(v, tuple) and v and v[0] == "call":
                return self.eval_const_body(st, v[1])
            return v
        if k == "fn":
            return VFn((fr.body, o))
        if k == "promoted":
            return self.eval_const_body(st, o["inst"])
        if k == "rtcheck":
            return VBool(FALSE)
        raise Unsupported("operand " + k)

    def eval_const_body(self, st, key):
        memkey = ("const", key)
        if memkey in st.mem:
            return st.mem[memkey]
        b = self.P.bodies.get(key)
        if b is None:
            return VTop("const body")
        fid = self.W.fresh()
        depth = len(st.frames)
        st.frames.append(Frame(fid, b, ("mem", memkey, ()), None))
        n = 0
        while len(st.frames) > depth:
            self.exec_block(st)
            n += 1
            if n > 200 or st.status != "run":
                raise Unsupported("const body")
        return st.mem[memkey]

    # ------------------------------------------------------------- integer arithmetic
    SHAPE_BITS = (32, 64)

    def wrap(self, st, t, e, op):
        """e computed over the integers; -> (Lin in range, overflow condition)"""
        e = st.norm(e)
        w, sg = t["bits"], t["signed"]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        if e.is_const():
            if lo <= e.c <= hi:
                return e, FALSE
            v = e.c & ((1 << w) - 1)
            if sg and v >> (w - 1):
                v -= 1 << w
            return L(v), TRUE
        data = lin.is_data(e)
        over = c_or(("lin", lo - 1 - e), ("lin", e - hi - 1))
        if not data and w >= 32:
            # sizes and bit positions: never large enough to wrap upwards (stated assumption)
            self.W.assumed.add("shape arithmetic (widths, lengths, indices) does not exceed its integer type")
            if sg:
                return e, FALSE
            r = st.ge0(e)
            if r is True:
                return e, FALSE
            if r is None and op in ("Sub", "SubWithOverflow", "SubUnchecked"):
                pass
            return e, ("lin", -e - 1)
        a, b = st.ge0(e - lo), st.ge0(hi - e)
        if a and b:
            return e, FALSE
        if sg:
            return st.term_atom(("wrap", w, e), True, lo, hi), over
        if len(e.t) == 1 and e.t[0][1] == 1 and lin.atom(e.t[0][0]).kind == "val":
            # the lowest bits of a number plus a constant
            x = [s for s in st.norm_bits(lin.atom(e.t[0][0]).info).segs if s[2] != 0]
            if len(x) == 1 and x[0][0] == ZERO and x[0][1] == L(w) and x[0][2] not in (1, TOPBIT) and x[0][2][1] == 2 and len(x[0][2][2]) == 1:
                k, o, d = x[0][2][2][0]
                if k[0] == "num" and o == ZERO and d == 1:
                    return st.num(Bits(w, [(ZERO, L(w), ident(("num", st.norm(k[1] + e.c))))])), over
        q, r = st.divmod(e, 1 << w)
        return r, over

    def binop(self, st, fr, op, a, b, ta):
        P = op
        if isinstance(a, VIte) or isinstance(b, VIte):
            a, b = self.force(st, a), self.force(st, b)
        if isinstance(a, VTop) or isinstance(b, VTop):
            if P in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return VBool(("top", "cmp"))
            if P.endswith("WithOverflow"):
                return VTup((VTop("arith"), VBool(("top", "ovf"))))
            return VTop("arith")
        if isinstance(a, VBool) and isinstance(b, VBool):
            ca, cb = st.cond_norm(a.c), st.cond_norm(b.c)
            if P == "BitAnd":
                return VBool(c_and(ca, cb))
            if P == "BitOr":
                return VBool(c_or(ca, cb))
            x = c_or(c_and(ca, c_not(cb)), c_and(c_not(ca), cb))
            if P in ("BitXor", "Ne"):
                return VBool(x)
            if P == "Eq":
                return VBool(c_not(x))
            if P in ("Lt", "Gt", "Le", "Ge"):
                lt = c_and(c_not(ca), cb) if P in ("Lt", "Ge") else c_and(ca, c_not(cb))
                return VBool(lt if P in ("Lt", "Gt") else c_not(lt))
            raise Unsupported("bool " + P)
        if not isinstance(a, VInt) or not isinstance(b, VInt):
            if P in ("Eq", "Ne") and type(a) == type(b) and a == b:
                return VBool(("c", P == "Eq"))
            raise Unsupported("%s on %s/%s" % (P, type(a).__name__, type(b).__name__))
        t = {"bits": a.w, "signed": a.signed}
        if P in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked",
                 "AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            # word-level idiom: one-hot minus one
            if P.startswith("Sub") and isinstance(a.rep, Bits) and isinstance(b.rep, Lin) and b.rep == ONE:
                m = self.onehot(st, a.rep)
                if m is not None:
                    r = VInt(a.w, a.signed, seg_norm(st, a.w, [(ZERO, m, 1), (m, L(a.w), 0)]))
                    return VTup((r, VBool(FALSE))) if P.endswith("WithOverflow") else r
            r = bit_arith(P, a, b)
            if r is not None:
                return VTup((r, VBool(FALSE))) if P.endswith("WithOverflow") else r
            if a.signed and (isinstance(a.rep, Bits) or isinstance(b.rep, Bits)):
                r = VInt(a.w, True, self.opaque_bits(st, a.w, ("arith", P, a, b)))
                return VTup((r, VBool(("data", "ovf", P, a, b)))) if P.endswith("WithOverflow") else r
            x, y = self.num(st, a), self.num(st, b)
            if P.startswith("Add"):
                e = x + y
            elif P.startswith("Sub"):
                e = x - y
            else:
                e = st.mul(x, y)
            r, over = self.wrap(st, t, e, P)
            if not P.endswith("WithOverflow") and over[0] == "lin" and not lin.is_data(e):
                # release-mode shape subtraction: partition on wrap-around
                if st.decide(over[1]):
                    r = e + (1 << a.w)
            rv = VInt(a.w, a.signed, st.norm(r))
            if P.endswith("WithOverflow"):
                return VTup((rv, VBool(st.cond_norm(over))))
            return rv
        if P in ("Div", "Rem"):
            p, q = self.models.stdmore.constval(a), self.models.stdmore.constval(b)
            if p is not None and q:
                r = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
                return VInt(a.w, a.signed, L(r if P == "Div" else p - r * q))
            y = self.num(st, b)
            if not y.is_const() or y.c <= 0 or a.signed:
                return VInt(a.w, a.signed, self.opaque_bits(st, a.w, (P, a, b)))
            q, r = st.divmod(self.num(st, a), y.c)
            return VInt(a.w, a.signed, q if P == "Div" else r)
        if P in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            s = self.num(st, b)
            if lin.is_data(s):
                if not (st.ge0(s) and st.ge0(L(a.w - 1) - s)):
                    # shift amounts are taken modulo the width
                    q, s = st.divmod(s, a.w)
            elif not st.decide(L(a.w - 1) - s):
                q, s = st.divmod(s, a.w)
            elif not st.decide(s):
                q, s = st.divmod(s, a.w)
            if isinstance(a.rep, Lin) and not a.signed:
                x = st.norm(a.rep)
                if s.is_const():
                    if P.startswith("Shr"):
                        return VInt(a.w, False, st.divmod(x, 1 << s.c)[0])
                    e = x * (1 << s.c)
                    if st.ge0(L((1 << a.w) - 1) - e) and st.ge0(e):
                        return VInt(a.w, False, e)
            bb = self.word(st, a)
            if P.startswith("Shl"):
                return VInt(a.w, a.signed, b_shl(st, bb, s))
            return VInt(a.w, a.signed, b_shr(st, bb, s, "sign" if a.signed else 0))
        if P in ("BitAnd", "BitOr", "BitXor"):
            if isinstance(a.rep, Lin) and isinstance(b.rep, Lin) and a.rep.is_const() and b.rep.is_const():
                x, y = a.rep.c, b.rep.c
                return VInt(a.w, a.signed, L({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[P]))
            if P == "BitAnd" and not a.signed:
                for x, y in ((a, b), (b, a)):
                    if isinstance(x.rep, Lin) and isinstance(y.rep, Lin) and y.rep.is_const() and not lin.is_data(x.rep):
                        m = y.rep.c + 1
                        if m & (m - 1) == 0:
                            return VInt(a.w, False, st.divmod(x.rep, m)[1])
            fn = {"BitAnd": lambda x, y: x & y, "BitOr": lambda x, y: x | y, "BitXor": lambda x, y: x ^ y}[P]
            return VInt(a.w, a.signed, b_op(st, fn, self.word(st, a), self.word(st, b)))
        if P in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return VBool(self.compare(st, P, a, b))
        if P == "Cmp":
            if st.decide_cond(self.compare(st, "Lt", a, b)):
                i = 0
            elif st.decide_cond(self.compare(st, "Eq", a, b)):
                i = 1
            else:
                i = 2
            return VAdt("core::cmp::Ordering", i, ())
        raise Unsupported("binop " + P)

    def opaque_bits(self, st, w, term):
        return Bits(w, [(ZERO, L(w), ident(("mem", term)))])

    def onehot(self, st, b):
        b = seg_norm(st, b.w, b.segs)
        nz = [x for x in b.segs if x[2] != 0]
        if len(nz) == 1 and nz[0][2] == 1 and st.eq0(nz[0][1] - nz[0][0] - 1):
            return nz[0][0]
        return None

    def known_number(self, st, x):
        """the number of a word, where it is a constant or one that the analysis has talked about"""
        if isinstance(x.rep, Lin):
            return x.rep
        k = x.rep.const()
        if k is not None:
            return L(k)
        for w in dict.fromkeys((x.w, 64)):
            if w >= x.w and not x.signed:
                p = lin.TAB.memo.get(("val", seg_norm(st, w, x.rep.segs if w == x.w else list(x.rep.segs) + [(L(x.w), L(w), 0)])))
                if p is not None:
                    return p
        return None

    def compare(self, st, P, a, b):
        if P == "Ne":
            return c_not(self.compare(st, "Eq", a, b))
        if P == "Gt":
            return self.compare(st, "Lt", b, a)
        if P == "Le":
            return c_not(self.compare(st, "Lt", b, a))
        if P == "Ge":
            return c_not(self.compare(st, "Lt", a, b))
        la = isinstance(a.rep, Lin)
        lb = isinstance(b.rep, Lin)
        if P == "Eq":
            if la and lb:
                e = st.norm(a.rep - b.rep)
                r = st.eq0(e)
                if r is not None:
                    return ("c", r)
                if not lin.is_data(e):
                    return c_and(("lin", e), ("lin", -e))
                if st.ge0(e + 4096) and st.ge0(L(4096) - e):
                    return c_and(("lin", e), ("lin", -e))
                # values of words: decide on the bits where possible
                return st.cond_norm(st.eq_cond(self.word(st, a), self.word(st, b)))
            u, v = (None, None) if a.signed or b.signed else (self.known_number(st, a), self.known_number(st, b))
            if u is not None and v is not None:
                r = st.eq0(u - v)
                if r is not None:
                    g = st.eq_cond_nofork(self.word(st, a), self.word(st, b))
                    if g is not None and st.cond_norm(g)[0] != "c":
                        st.add_fact(g, r)
                    return ("c", r)
            return st.cond_norm(st.eq_cond(self.word(st, a), self.word(st, b)))
        # Lt
        if a.signed == b.signed and not (la and lb):
            x, y = bit_range(a), bit_range(b)
            if x and y:
                if x[1] < y[0]:
                    return TRUE
                if x[0] >= y[1]:
                    return FALSE
        if a.signed:
            if la and lb:
                return st.cond_norm(("lin", b.rep - a.rep - 1))
            # sign tests
            if lb and b.rep == ZERO:
                s = self.word(st, a).segs[-1][2]
                return st.cond_norm(c_not(st.rz_norm(bit_const(s, L(a.w - 1)), ZERO, ONE)))
            if la and (a.rep == Lin((), -1)):
                s = self.word(st, b).segs[-1][2]
                return st.cond_norm(st.rz_norm(bit_const(s, L(a.w - 1)), ZERO, ONE))
            return ("data", "slt", a, b)
        if not la and b.rep != ZERO:
            x = seg_norm(st, a.w, a.rep.segs)
            if len(x.segs) == 2 and x.segs[0][2] == 1 and x.segs[1][2] == 0 and not x.segs[0][1].is_const():
                # 2^k - 1 < y: a bit from k upwards is set
                return st.cond_norm(c_not(st.zero_cond(b_shr(st, self.word(st, b), x.segs[0][1]))))
        if not lb and a.rep != ZERO:
            k = self.onehot(st, b.rep)
            if k is not None and not k.is_const():
                # x < 2^k: no bit from k upwards is set
                return st.cond_norm(st.zero_cond(b_shr(st, self.word(st, a), k)))
        if not la and not lb:
            x, y = seg_norm(st, a.w, a.rep.segs), seg_norm(st, b.w, b.rep.segs)
            if x == y:
                return FALSE
            if x.const() is None and y.const() is None:
                if positional(x) and positional(y):
                    u, v = st.num(x), st.num(y)
                    if not lin.is_data(u) and not lin.is_data(v):
                        return st.cond_norm(("lin", v - u - 1))
                return st.cond_norm(("ult", x, y))
        # comparison with zero
        if lb and b.rep == ZERO:
            return FALSE
        if la and a.rep == ZERO and not lb:
            return c_not(st.zero_cond(b.rep))
        if lb and not la and b.rep.is_const() and b.rep.c & (b.rep.c - 1) == 0:
            # x < 2^k
            return st.cond_norm(st.zero_cond(b_shr(st, a.rep, L(b.rep.c.bit_length() - 1))))
        if la and not lb and a.rep.is_const() and (a.rep.c + 1) & a.rep.c == 0:
            # 2^k - 1 < x
            return c_not(st.cond_norm(st.zero_cond(b_shr(st, b.rep, L((a.rep.c + 1).bit_length() - 1)))))
        return st.cond_norm(("lin", self.num(st, b) - self.num(st, a) - 1))

    def unop(self, st, op, a):
        a = self.force(st, a)
        if isinstance(a, VTop):
            return a
        if op == "Not":
            if isinstance(a, VBool):
                return VBool(c_not(a.c))
            if isinstance(a.rep, Lin) and not a.signed and not a.rep.is_const():
                return VInt(a.w, a.signed, b_not(self.word(st, a)))
            return VInt(a.w, a.signed, b_not(self.word(st, a)))
        if op == "Neg":
            if isinstance(a.rep, Lin):
                return VInt(a.w, a.signed, -a.rep)
            return VInt(a.w, a.signed, self.opaque_bits(st, a.w, ("neg", a)))
        if op == "PtrMetadata":
            if isinstance(a, VSlice):
                return VInt(64, False, st.norm(a.len))
            if isinstance(a, VStr):
                return VInt(64, False, L(len(a.b)))
            if isinstance(a, VRef):
                v = self.load(st, ("mem", a.key, a.path))
                if isinstance(v, VVec):
                    return VInt(64, False, st.regions[v.rid].len)
        raise Unsupported("unop %s on %s" % (op, type(a).__name__))

    def cast(self, st, fr, v, ck, t):
        v0 = v
        if ck.startswith("PointerCoercion"):
            if isinstance(v, VRef):
                x = self.load(st, ("mem", v.key, v.path))
                if isinstance(x, VVec) and "Unsize" in ck:
                    return VSlice(x.rid, ZERO, st.regions[x.rid].len)
            if isinstance(v, VElem) and "Unsize" in ck:
                x = self.load(st, ("elem", v.rid, v.idx, v.path))
                if isinstance(x, VVec):
                    return VSlice(x.rid, ZERO, st.regions[x.rid].len)
            return v
        if ck in ("IntToInt",):
            v = self.force(st, v)
            if isinstance(v, VTop):
                return v
            if isinstance(v, VBool):
                return VInt(t["bits"], t["signed"], self.word(st, v, t["bits"]) if st.cond_norm(v.c)[0] != "c"
                            else L(int(st.cond_norm(v.c)[1])))
            if isinstance(v, VAdt):
                d = self.discr(st, v)
                return VInt(t["bits"], t["signed"], d)
            if not isinstance(v, VInt):
                raise Unsupported("cast of " + type(v).__name__)
            if t["k"] == "char":
                return VInt(32, False, v.rep)
            w, sg = t["bits"], t["signed"]
            if isinstance(v.rep, Lin):
                e = st.norm(v.rep)
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
                if e.is_const():
                    x = e.c & ((1 << w) - 1)
                    if sg and x >> (w - 1):
                        x -= 1 << w
                    return VInt(w, sg, L(x))
                if not lin.is_data(e):
                    if v.w > w:
                        r = st.ge0(hi - e)
                        if r is not True:
                            if v.w == 64 and w == 32 and self.small_shape(st, e):
                                self.W.assumed.add("shape arithmetic (widths, lengths, indices) does not exceed its integer type")
                            else:
                                return VInt(w, sg, st.divmod(e, 1 << w)[1] if not sg else self.opaque_bits(st, w, ("trunc", e)))
                    return VInt(w, sg, e)
                if st.ge0(e - lo) and st.ge0(hi - e):
                    return VInt(w, sg, e)
                return VInt(w, sg, b_resize(st, self.word(st, v), w, v.signed))
            if w < v.w and not v.signed and not sg:
                # a word already known (by an earlier comparison) to fit the narrower type
                p = lin.TAB.memo.get(("val", seg_norm(st, v.rep.w, v.rep.segs)))
                if p is not None and st.ge0(L((1 << w) - 1) - p):
                    return VInt(w, sg, st.norm(p))
            return VInt(w, sg, b_resize(st, v.rep, w, v.signed))
        if ck == "Transmute" and t.get("k") == "int" and isinstance(v, (VRef, VElem, VSlice)):
            # an address: aligned and not null
            memo = lin.TAB.memo
            a = memo.get(("addr", v))
            if a is None:
                a = memo[("addr", v)] = lin.new_atom("addr", 1, 1 << 40)
            return VInt(64, False, a * 4096)
        if ck in ("PtrToPtr", "Transmute", "BoxDerefTransmute") or ck.startswith("Ptr"):
            return v
        raise Unsupported("cast " + ck)

    def small_shape(self, st, e):
        """a length / width expression (no powers of two of free size)"""
        return not any(lin.atom(a).kind == "pow2" for a in st.deps(e))

    def discr(self, st, v):
        v = self.force(st, v)
        if isinstance(v, VAdt):
            a = self.P.adts.get(v.path)
            if a is not None:
                d = int(a["variants"][v.variant]["disc"])
                if d >= 1 << 127:
                    d -= 1 << 128
                if v.path == "core::cmp::Ordering":
                    d = v.variant - 1
                return L(d)
            return L(v.variant)
        raise Unsupported("discriminant of %s" % type(v).__name__)

    # ------------------------------------------------------------- statements
    def rvalue(self, st, fr, r, dty):
        k = r["k"]
        if k == "use":
            return self.operand(st, fr, r["o"])
        if k == "ref" or k == "rawptr":
            cur = self.place(st, fr, r["pl"])
            if cur[0] == "mem":
                return VRef(cur[1], tuple(x for x in cur[2] if not isinstance(x, tuple)))
            if cur[0] == "elem":
                return VElem(cur[1], cur[2], tuple(x for x in cur[3] if not isinstance(x, tuple)))
            if cur[0] == "slice":
                return cur[1]
            if cur[0] == "val":
                if isinstance(cur[1], (VStr, VTop)):
                    return cur[1]
                key = ("tmp", self.W.fresh())
                st.mem[key] = cur[1]
                return VRef(key)
        if k == "bin":
            a, b = self.operand(st, fr, r["a"]), self.operand(st, fr, r["b"])
            return self.binop(st, fr, r["op"], a, b, None)
        if k == "un":
            return self.unop(st, r["op"], self.operand(st, fr, r["a"]))
        if k == "cast":
            return self.cast(st, fr, self.operand(st, fr, r["o"]), r["ck"], fr.body["_types"][r["ty"]])
        if k == "discr":
            v = self.load(st, self.place(st, fr, r["pl"]))
            v = self.force(st, v)
            if isinstance(v, VTop):
                return v
            if isinstance(v, VSym):
                v = self.models.expand_sym(self, st, v)
            return VInt(64, True, self.discr(st, v))
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r["ops"]]
            ak = r["ak"]
            if ak == "tuple":
                return VTup(tuple(ops))
            if ak == "adt":
                if "union_field" in r:
                    raise Unsupported("union")
                return VAdt(r["path"], r["variant"], tuple(ops))
            if ak == "closure":
                return VClosure(r["inst"], tuple(ops))
            if ak == "array":
                return self.models.make_array(self, st, fr.body["_types"][r["ty"]], ops)
            raise Unsupported("aggregate " + ak)
        if k == "repeat":
            v = self.operand(st, fr, r["o"])
            if r["n"] is None:
                raise Unsupported("repeat")
            return self.models.make_fill(self, st, v, L(r["n"]))
        raise Unsupported("rvalue " + k)

    def stmt(self, st, fr, s):
        if s["k"] == "=":
            self.sp = s.get("sp")
            cur_ty = None
            v = self.rvalue(st, fr, s["rv"], cur_ty)
            self.store(st, self.place(st, fr, s["pl"]), v)
        elif s["k"] == "setdiscr":
            cur = self.place(st, fr, s["pl"])
            v = self.load(st, cur)
            self.store(st, cur, VAdt(v.path, s["v"], v.fields))

    def exec_block(self, st):
        """execute the current basic block of the top frame (mutates st)"""
        fr = st.frames[-1]
        st.ticks += 1
        self.W.stats["blocks"] += 1
        self.W.steps += 1
        if self.W.steps > self.W.limit:
            raise Unsupported("step limit")
        bb = fr.body["blocks"][fr.bb]
        for s in bb["s"]:
            self.stmt(st, fr, s)
        self.term(st, fr, bb["t"])

    def goto(self, st, fr, t):
        fr.bb = t

    def panic(self, st, msg, fr, sp):
        st.status = "panic"
        chain = [f.callsp for f in st.frames if f.callsp]
        st.ret = (msg, fr.body["path"], sp, tuple(chain))

    def term(self, st, fr, t):
        k = t["k"]
        self.sp = t.get("sp")
        if k == "goto":
            fr.bb = t["t"]
        elif k == "drop":
            fr.bb = t["t"]
        elif k == "switch":
            v = self.force(st, self.operand(st, fr, t["o"]))
            if isinstance(v, VTop):
                v = VBool(("top", "switch")) if len(t["ts"]) == 1 else v
            if isinstance(v, VBool):
                c = v.c
                val = 1 if st.decide_cond(c) else 0
                for x, b in t["ts"]:
                    if int(x) == val:
                        fr.bb = b
                        return
                fr.bb = t["else"]
                return
            if isinstance(v, VTop):
                raise Unsupported("switch on unknown")
            for x, b in t["ts"]:
                c = self.compare(st, "Eq", v, VInt(v.w, v.signed, L(int(x))))
                if st.decide_cond(c):
                    fr.bb = b
                    return
            fr.bb = t["else"]
        elif k == "assert":
            v = self.force(st, self.operand(st, fr, t["c"]))
            if isinstance(v, VTop):
                fr.bb = t["t"]
                return
            if st.decide_cond(v.c) == t["e"]:
                fr.bb = t["t"]
            else:
                self.panic(st, t["m"], fr, t["sp"])
        elif k == "return":
            self.do_return(st)
        elif k == "unreachable":
            st.status = "unreachable"
            st.ret = ("unreachable", fr.body["path"], t.get("sp"), ())
        elif k == "call":
            self.W.stats["calls"] += 1
            f = self.operand(st, fr, t["f"])
            args = [self.operand(st, fr, a) for a in t["a"]]
            self.call(st, fr, f, args, t["d"], t["t"], t["sp"])
        else:
            raise Unsupported("terminator " + k)

    def do_return(self, st):
        fr = st.frames.pop()
        v = st.mem.get((fr.fid, 0), UNIT)
        if fr.dest is None:
            st.status, st.ret = "return", v
            return
        # drop the callee's locals
        keep = not fr.body["promoted"]
        if keep and not fr.body["kind"].startswith("Const"):
            for i in range(len(fr.body["locals"])):
                st.mem.pop((fr.fid, i), None)
        self.store(st, fr.dest, v)
        if st.frames and fr.target is not None:
            st.frames[-1].bb = fr.target

    # ------------------------------------------------------------- calls
    def push(self, st, key, args, dest, target, sp):
        b = self.P.bodies[key]
        if b.get("local"):
            VISITED.add(b["path"])
        if len(st.frames) > 40:
            raise Unsupported("call depth")
        fid = self.W.fresh()
        f = Frame(fid, b, dest, target, sp)
        if b["spread"] is not None and len(args) == 2:
            pass
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        st.frames.append(f)

    def call(self, st, fr, f, args, d, target, sp):
        if isinstance(f, VRef):
            f = self.load(st, ("mem", f.key, f.path))
        if isinstance(f, VClosure):
            return self.call_value(st, f, args, self.place(st, fr, d), target, sp)
        if not isinstance(f, VFn):
            raise Unsupported("call of %s" % type(f).__name__)
        body, o = f.op
        self.call_fn(st, fr, body, o, args, d, target, sp)

    def call_fn(self, st, fr, body, o, args, d, target, sp):
        dest = self.place(st, fr, d) if isinstance(d, dict) else d
        if o.get("ctor"):
            self.finish(st, dest, VAdt(o["adt"], o["variant"], tuple(args)), target)
            return
        r = self.models.call(self, st, fr, body, o, args, dest, target, sp)
        if r:
            return
        key = o.get("inst")
        if body["key"].startswith("shim!") and key is not None:
            key = "shim!" + key
        if key in self.P.bodies:
            self.push(st, key, args, dest, target, sp)
            return
        # trait method on a value whose implementation is known dynamically
        if o.get("trait"):
            k2 = self.dynamic(st, o, args)
            if k2:
                self.push(st, k2, args, dest, target, sp)
                return
        raise Unsupported("no model for %s (%s)" % (o.get("rpath") or o["path"], o.get("rkind")))

    def dynamic(self, st, o, args):
        if not args:
            return None
        v = args[0]
        for _ in range(4):
            if isinstance(v, VRef):
                v = self.load(st, ("mem", v.key, v.path))
            elif isinstance(v, VElem):
                v = self.load(st, ("elem", v.rid, v.idx, v.path))
            else:
                break
        if isinstance(v, VIte):
            v = self.force(st, v)
        if isinstance(v, VAdt):
            k = self.P.dispatch.get((o["trait"], o["name"], v.path))
            if k:
                return k
            # provided method of the trait
            k = self.P.traitdef.get((o["trait"], o["name"]))
            if k and self.P.bodies[k]["blocks"]:
                return k
        return None

    def finish(self, st, dest, v, target):
        """store the result of a modelled call and continue at the target"""
        if dest is not None:
            self.store(st, dest, v)
        if target is None:
            st.status = "diverge"
        else:
            st.frames[-1].bb = target

    def call_value(self, st, f, args, dest, target, sp):
        """call a closure / fn item with positional arguments"""
        f0 = f
        if isinstance(f, VRef):
            f = self.load(st, ("mem", f.key, f.path))
        if isinstance(f, VFn):
            body, o = f.op
            return self.call_fn(st, st.frames[-1], body, o, args, dest, target, sp)
        if isinstance(f, VClosure):
            b = self.P.bodies.get(f.inst)
            if b is None:
                raise Unsupported("closure body " + f.inst)
            # env by reference or by value, as the closure body expects
            t = b["_types"][b["locals"][1]]
            if t["k"] == "ref":
                if isinstance(f0, VRef):
                    env = f0
                else:
                    key = ("tmp", self.W.fresh())
                    st.mem[key] = f
                    env = VRef(key)
            else:
                env = f
            self.push(st, f.inst, [env] + list(args), dest, target, sp)
            return
        raise Unsupported("call of %s" % type(f).__name__)

    # ------------------------------------------------------------- driver
    def split(self, st, f):
        out = []
        self.W.stats["forks"] += 1
        if isinstance(f, Fork):
            for e in (f.e, -f.e - 1):
                s = st.clone()
                if s.add(e):
                    out.append(s)
        else:
            for v in (True, False):
                s = st.clone()
                if f.p[0] == "top":
                    s.log = s.log + (("top", f.p, v),)
                    s.facts = dict(s.facts)
                    p = ("top", self.W.fresh())
                    # both outcomes possible and unrelated: remember that the trace is imprecise
                    s.facts[("imprecise",)] = True
                    s.facts[f.p] = v
                    out.append(s)
                elif s.add_fact(f.p, v):
                    out.append(s)
        return out

    unroll = 0

    def run(self, st0, stop, hoist=None):
        return list(self.run_iter(st0, stop, hoist))

    def run_iter(self, st0, stop, hoist=None):
        """run until every trace stops.  hoist(exc): re-raise the partition request to the caller"""
        work = [st0]
        while work:
            st = work.pop()
            while True:
                if st.status != "run":
                    yield ("end", st)
                    break
                fr = st.frames[-1]
                k = stop(st) if stop else None
                if k:
                    yield (k, st)
                    break
                loops = self.P.loops(fr.body)
                if self.unroll and fr.bb in loops:
                    st.holes = dict(st.holes)
                    n = st.holes[(fr.fid, fr.bb)] = st.holes.get((fr.fid, fr.bb), 0) + 1
                    if n > self.unroll:
                        self.bad(st, "unrolling bound")
                        yield ("end", st)
                        break
                elif fr.bb in loops and fr.bb not in fr.inloop:
                    try:
                        outs = self.loopmod.summarise(self, st, fr.bb, loops[fr.bb])
                    except (Fork, ForkData) as f:
                        if hoist and hoist(f):
                            raise
                        work.extend(self.split(st, f))
                        break
                    except Unsupported as u:
                        self.bad(st, u)
                        yield ("end", st)
                        break
                    work.extend(outs)
                    break
                nxt = st.clone()
                try:
                    self.exec_block(nxt)
                except (Fork, ForkData) as f:
                    if hoist and hoist(f):
                        raise
                    m = self.join(st, f) if self.joining else None
                    if m is not None:
                        st = m
                        continue
                    work.extend(self.split(st, f))
                    break
                except Unsupported as u:
                    self.bad(st, u)
                    yield ("end", st)
                    break
                st = nxt

    # ------------------------------------------------------------- joining short branches on one bit
    def join(self, st, f):
        """both sides of a branch on a single bit meet again within a few blocks and differ in integers and words only"""
        if not isinstance(f, ForkData):
            return None
        cb = self.loopmod.cond_bit(f.p)
        if cb is None:
            return None
        key = (st.frames[-1].fid, st.frames[-1].bb, len(st.frames))
        if self.nojoin.get(key[1:2] + (st.frames[-1].body["path"],), 0) > 3:
            return None
        sides = []
        try:
            for v in (True, False):
                s = st.clone()
                if not s.add_fact(f.p, v):
                    return None
                sides.append(self.walk(s, key))
            m = self.meet(st, cb, sides)
        except (Fork, ForkData, Unsupported):
            m = None
        if m is None:
            k = key[1:2] + (st.frames[-1].body["path"],)
            self.nojoin[k] = self.nojoin.get(k, 0) + 1
        return m

    def walk(self, s, key):
        """the states at the next blocks of the branching frame"""
        out = {}
        fid, bb, depth = key
        holes0 = s.holes
        for _ in range(14):
            fr = s.frames[-1]
            if fr.bb in self.P.loops(fr.body) and not (fr.fid == fid and fr.bb == bb):
                # do not pass a loop head, it may be the meeting point
                if len(s.frames) == depth:
                    out.setdefault(fr.bb, s)
                break
            s = s.clone()
            self.exec_block(s)
            if s.status != "run" or len(s.frames) < depth:
                break
            if len(s.frames) == depth:
                out.setdefault(s.frames[-1].bb, s)
        return out

    def meet(self, st, cb, sides):
        A, B = sides
        at = next((b for b in A if b in B), None)
        if at is None:
            return None
        a, b = A[at], B[at]
        if a.effects != b.effects or a.holes != b.holes or len(a.frames) != len(b.frames):
            return None
        fr = st.frames[-1]
        live = self.P.live_at(fr.body, at)
        borrowed = set()
        for x in (a, b):
            for v in x.mem.values():
                self.loopmod.refs_in(v, borrowed)
        m = st.clone()
        m.frames[-1].bb = at
        m.holes, m.ticks, m.effects = a.holes, a.ticks, a.effects
        m.mem = {}
        for k in set(a.mem) | set(b.mem):
            x, y = a.mem.get(k), b.mem.get(k)
            if x is not None and x == y:
                m.mem[k] = x
                continue
            if k[0] == fr.fid and k[1] not in live and k not in borrowed and k[1] != 0:
                continue
            if x is None or y is None:
                if k in borrowed or k[0] == fr.fid and k[1] != 0:
                    return None
                continue
            v = self.mux(m, cb, x, y)
            if v is None:
                return None
            m.mem[k] = v
        m.regions = dict(a.regions)
        for k in set(a.regions) | set(b.regions):
            x, y = a.regions.get(k), b.regions.get(k)
            if x is y or x is None or y is None:
                m.regions[k] = x or y
                continue
            if x.key() == y.key():
                continue
            if x.eb != y.eb or x.len != y.len or x.base != y.base:
                return None
            n = 0
            while n < min(len(x.writes), len(y.writes)) and x.writes[n] == y.writes[n]:
                n += 1
            ends = set()
            for w in x.writes[n:] + y.writes[n:]:
                if w[0] != "flat" or not (w[1].is_const() and w[2].is_const()):
                    return None
                ends |= {w[1].c, w[2].c}
            lo, hi = L(min(ends)), L(max(ends))
            new = []
            from spec import zip_flat
            for l, h, p, q in zip_flat(m, a.read_flat(k, lo, hi), b.read_flat(k, lo, hi)):
                new.append(("flat", l, h, moving(l, h, f_apply(lambda c, u, w: u if c == cb[1] else w, cb[0], p, q))))
            m.regions[k] = x.repl(writes=x.writes[:n] + tuple(new))
        return m

    def mux(self, m, cb, x, y):
        """x where the condition holds"""
        if isinstance(x, VInt) and isinstance(y, VInt) and x.w == y.w:
            p = x.rep if isinstance(x.rep, Bits) else m.bits_of(x.rep, x.w)
            q = y.rep if isinstance(y.rep, Bits) else m.bits_of(y.rep, y.w)
            r = self.loopmod.mux_bits(m, cb, p, q)
            return VInt(x.w, x.signed, seg_norm(m, x.w, [(l, h, moving(l, h, f)) for l, h, f in r.segs]))
        if isinstance(x, VAdt) and isinstance(y, VAdt) and x.path == y.path and x.variant == y.variant and len(x.fields) == len(y.fields) \
                or isinstance(x, VTup) and isinstance(y, VTup) and len(x.items) == len(y.items):
            xs, ys = (x.fields, y.fields) if isinstance(x, VAdt) else (x.items, y.items)
            vs = [p if p == q else self.mux(m, cb, p, q) for p, q in zip(xs, ys)]
            if None in vs:
                return None
            return VAdt(x.path, x.variant, tuple(vs)) if isinstance(x, VAdt) else VTup(tuple(vs))
        return None

    def bad(self, st, u):
        st.status = "unknown"
        fr = st.frames[-1] if st.frames else None
        st.ret = (str(u), fr.body["path"] if fr else "", self.sp, tuple(f.callsp for f in st.frames if f.callsp))

    def run_fn(self, st, key, args):
        st.frames = []
        self.push(st, key, args, None, None, None)
        for _, s in self.run_iter(st, None):
            yield s


def moving(l, h, f):
    """the fixed bit of a one-bit segment, written so that neighbouring segments can be one"""
    if f in (0, 1, TOPBIT) or not (l.is_const() and h - l == ONE):
        return f
    if any(k[0] == "bool" for k, _, _ in f[2]):
        return f
    return mk_f(f[1], [(k, o if t else o - l, 1) for k, o, t in f[2]])


def masks(v):
    """(bits known to be one, bits possibly one) of a word with few known positions, or None"""
    if isinstance(v.rep, Lin):
        return (v.rep.c, v.rep.c) if v.rep.is_const() and v.rep.c >= 0 else None
    ones = may = 0
    for l, h, s in v.rep.segs:
        if not (l.is_const() and h.is_const()):
            return None
        m = (1 << h.c) - (1 << l.c)
        if s != 0:
            may |= m
            if s == 1:
                ones |= m
    return ones, may


def bit_range(v):
    m = masks(v)
    if m is None or v.signed and m[1] >> (v.w - 1):
        return None
    return m


def bit_arith(P, a, b):
    """x + c, x - c without any carry: the bits of c are known to be 0 resp. 1 in x"""
    if P.startswith("Mul") or P.startswith("Sub") and not isinstance(b.rep, Lin) and b.rep.const() is None:
        return None
    if P.startswith("Add") and (isinstance(a.rep, Lin) and a.rep.is_const() or isinstance(a.rep, Bits) and a.rep.const() is not None):
        a, b = b, a
    if not isinstance(a.rep, Bits) or a.rep.const() is not None:
        return None
    c = b.rep.c if isinstance(b.rep, Lin) and b.rep.is_const() else b.rep.const() if isinstance(b.rep, Bits) else None
    m = masks(a)
    if P.startswith("Add") and c is None and m is not None and not a.signed and isinstance(b.rep, Bits):
        n = masks(b)
        if n is not None and m[1] & n[1] == 0:
            # no bit in common
            cut = sorted({x.c for r in (a.rep, b.rep) for l, h, _ in r.segs for x in (l, h)})
            pick = lambda r, i: next(s for l, h, s in r.segs if l.c <= i < h.c)
            segs = []
            for l, h in zip(cut, cut[1:]):
                x, y = pick(a.rep, l), pick(b.rep, l)
                segs.append((L(l), L(h), y if x == 0 else x))
            return VInt(a.w, False, Bits(a.w, segs))
    if c is None or c < 0 or m is None or m[0] == 0 and m[1] == (1 << a.w) - 1 or a.signed and (m[1] | c) >> (a.w - 1):
        return None
    if P.startswith("Sub"):
        if c & ~m[0]:
            return None
        bit = 0
    else:
        if c & m[1]:
            return None
        bit = 1
    segs = []
    for l, h, s in a.rep.segs:
        for i in range(l.c, h.c):
            segs.append((L(i), L(i + 1), bit if (c >> i) & 1 else s))
    out = []
    for l, h, s in segs:
        if out and out[-1][2] == s:
            l = out.pop()[0]
        out.append((l, h, s))
    return VInt(a.w, a.signed, Bits(a.w, out))
