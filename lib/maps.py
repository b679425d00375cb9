"""Hash maps.  A map is ("m", base, entries): entries are cells of pairwise different keys (value cell, or None for a
key known to be absent); base names an arbitrary input map, whose entries are introduced when a key is looked up."""
from lin import Lin, L, ZERO, ONE
from dom import *
from seqs import OnceSeq
import models as M
from models import model, model_rx, some, NONE, usize, deref, loc, slice_of, flat_eq, clone_value

ENTRY = "$Entry"


def cell(st, v):
    k = ("cell", st.W.fresh())
    st.mem[k] = v
    return k


def keys_equal(eng, st, a, b):
    """decides key equality on this trace (may partition)"""
    a, b = deref(eng, st, a), deref(eng, st, b)
    if isinstance(a, VInt) and isinstance(b, VInt):
        return st.decide_cond(eng.compare(st, "Eq", a, b))
    if isinstance(a, VBool) and isinstance(b, VBool):
        return st.decide_cond(a.c) == st.decide_cond(b.c)
    if isinstance(a, (VVec, VSlice)) and isinstance(b, (VVec, VSlice)):
        x, y = slice_of(eng, st, a), slice_of(eng, st, b)
        if st.regions[x.rid].eb is None or st.regions[x.rid].eb != st.regions[y.rid].eb:
            raise Unsupported("keys of objects")
        e = st.norm(x.len - y.len)
        return st.decide(e) and st.decide(-e) and st.decide_cond(flat_eq(eng, st, x, y))
    if isinstance(a, VAdt) and isinstance(b, VAdt):
        return a.variant == b.variant and all(keys_equal(eng, st, x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, VTup) and isinstance(b, VTup):
        return all(keys_equal(eng, st, x, y) for x, y in zip(a.items, b.items))
    raise Unsupported("map key %s" % type(a).__name__)


def own_key(eng, st, k):
    """the key as a value of its own, independent of later changes"""
    k = deref(eng, st, k)
    if isinstance(k, VSlice):
        return M.copy_slice(eng, st, k)
    return clone_value(eng, st, k)


def base_entry(eng, st, name, k):
    """the value of an arbitrary input map under k, or None; equal keys give equal answers"""
    seen = st.mem.get(("mapkeys", name), ())
    for kc, j in seen:
        if keys_equal(eng, st, VRef(kc), k):
            break
    else:
        if st.mem.get(("closed", name)):
            return None
        j = len(seen)
        st.mem[("mapkeys", name)] = seen + ((cell(st, own_key(eng, st, k)), j),)
    if not st.mem.get(("closed", name)) and not st.decide_cond(("data", "has", name, j)):
        return None
    return st.W.maps[name](eng, st, deref(eng, st, k), j)


def closed(eng, st, name, keys):
    """the input map has exactly the given (pairwise different) keys"""
    cells = tuple((cell(st, k), j) for j, k in enumerate(keys))
    st.mem[("mapkeys", name)] = cells
    st.mem[("closed", name)] = True
    return VMap(("m", None, tuple((kc, cell(st, st.W.maps[name](eng, st, st.mem[kc], j))) for kc, j in cells)))


def find(eng, st, p, v, k):
    """entry position of key k (or None if absent); entries of an input map are recorded in the map on the way"""
    _, base, ents = v.term
    for i, (kc, vc) in enumerate(ents):
        if keys_equal(eng, st, VRef(kc), k):
            return v, (i if vc is not None else None), i
    if base is None:
        return v, None, None
    x = base_entry(eng, st, base, k)
    ents = ents + ((cell(st, own_key(eng, st, k)), None if x is None else cell(st, x)),)
    v = VMap(("m", base, ents))
    if p is not None:
        eng.store(st, p, v)
    return v, (None if x is None else len(ents) - 1), len(ents) - 1


def put(eng, st, p, v, i, k, val):
    """set entry i (or a new one) to val; returns the cell"""
    _, base, ents = v.term
    c = cell(st, val)
    if i is None:
        ents = ents + ((cell(st, own_key(eng, st, k)), c),)
    else:
        ents = ents[:i] + ((ents[i][0], c),) + ents[i + 1:]
    eng.store(st, p, VMap(("m", base, ents)))
    return c


def delete(eng, st, p, v, i):
    _, base, ents = v.term
    ents = ents[:i] + (((ents[i][0], None),) if base is not None else ()) + ents[i + 1:]
    eng.store(st, p, VMap(("m", base, ents)))


def live(v):
    _, base, ents = v.term
    if base is not None:
        raise Unsupported("all entries of an arbitrary map")
    return [e for e in ents if e[1] is not None]


def entries_seq(eng, st, v, part):
    ents = live(v)
    if st.mem.get(("rev",)):
        ents = ents[::-1]
    out = []
    for kc, vc in ents:
        k, x = (st.mem[kc], st.mem[vc]) if part.startswith("own") else (VRef(kc), VRef(vc))
        out.append({"kv": VTup((k, x)), "own": VTup((k, x)), "k": k, "ownk": k, "v": x, "ownv": x}[part])
    return OnceSeq(tuple(out))


def clone_map(eng, st, v):
    _, base, ents = v.term
    return VMap(("m", base, tuple((cell(st, clone_value(eng, st, st.mem[k])), None if x is None else cell(st, clone_value(eng, st, st.mem[x])))
                                  for k, x in ents)))


@model_rx(r"^std::collections::hash::map::HashMap::<K, V[^>]*>::(new|with_capacity)$", r"^<?std::collections::hash::map::HashMap.*Default>::default$")
def _(c):
    return c.ret(VMap(("m", None, ())))


@model_rx(r"^std::collections::hash::map::HashMap::<K, V, S[^>]*>::(get|get_mut|get_key_value|contains_key|insert|remove|remove_entry|len|is_empty|clear|iter|iter_mut|values_mut|drain|keys|values|into_keys|into_values|entry|reserve|shrink_to_fit)$",
          r"^<std::collections::hash::map::HashMap<K, V, S[^>]*> as core::ops::index::Index<.*>>::index$")
def _(c):
    eng, st = c.eng, c.st
    n = c.name
    a0 = eng.force(st, c.args[0])
    if isinstance(a0, VMap):
        p, v = None, a0
    else:
        p, v = loc(eng, st, a0)
    if not isinstance(v, VMap):
        return False
    if n in ("reserve", "shrink_to_fit"):
        return c.ret(UNIT)
    if n == "len":
        return c.ret(usize(L(len(live(v)))))
    if n == "is_empty":
        if any(e[1] is not None for e in v.term[2]):
            return c.ret(VBool(FALSE))
        return c.ret(VBool(("c", not live(v))))
    if n == "clear":
        eng.store(st, p, VMap(("m", None, ())))
        return c.ret(UNIT)
    if n == "drain":
        sq = entries_seq(eng, st, v, "own")
        eng.store(st, p, VMap(("m", None, ())))
        return c.ret(VIter(sq, ZERO))
    if n in ("iter", "iter_mut", "values_mut", "keys", "values", "into_keys", "into_values"):
        part = {"iter": "kv", "iter_mut": "kv", "values_mut": "v", "keys": "k", "values": "v", "into_keys": "ownk", "into_values": "ownv"}[n]
        return c.ret(VIter(entries_seq(eng, st, v, part), ZERO))
    k = c.args[1]
    if n == "entry":
        v, at, i = find(eng, st, p, v, k)
        return c.ret(VAdt(M.stdmore.ENT, 0 if at is not None else 1, (VAdt(M.stdmore.OCC if at is not None else M.stdmore.VAC, 0, (a0, k)),)))
    v, at, i = find(eng, st, p, v, k)
    ents = v.term[2]
    if n in ("get", "get_mut"):
        return c.ret(NONE if at is None else some(VRef(ents[at][1])))
    if n == "index":
        if at is None:
            raise M.Panic("key not found")
        return c.ret(VRef(ents[at][1]))
    if n == "contains_key":
        return c.ret(VBool(("c", at is not None)))
    old = NONE if at is None else some(st.mem[ents[at][1]])
    if n == "get_key_value":
        return c.ret(NONE if at is None else some(VTup((VRef(ents[at][0]), VRef(ents[at][1])))))
    if n == "remove_entry":
        old = NONE if at is None else some(VTup((st.mem[ents[at][0]], st.mem[ents[at][1]])))
    if n == "insert":
        put(eng, st, p, v, i, k, c.args[2])
    elif i is not None:
        delete(eng, st, p, v, i)
    return c.ret(old)


@model_rx(r"^<std::collections::hash::map::HashMap<.*> as core::cmp::PartialEq>::(eq|ne)$")
def _(c):
    a, b = deref(c.eng, c.st, c.args[0]), deref(c.eng, c.st, c.args[1])
    if not (isinstance(a, VMap) and isinstance(b, VMap)):
        return False
    x, y = live(a), live(b)
    if len(x) != len(y):
        return c.ret(VBool(("c", c.name == "ne")))
    same = True
    for k, v in x:
        _, at, _ = find(c.eng, c.st, None, b, VRef(k))
        if at is None or not keys_equal(c.eng, c.st, VRef(v), VRef(b.term[2][at][1])):
            same = False
            break
    return c.ret(VBool(("c", same == (c.name == "eq"))))


@model_rx(r"^<std::collections::hash::map::HashMap<K, V.*> as core::convert::From<\[\(K, V\); N\]>>::from$")
def _(c):
    return c.shim("collect_map", [M.as_iter(c.eng, c.st, c.args[0])])
