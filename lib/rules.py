"""Structural rules over the whole crate: every function body, type and static of the type-checked program."""
import re

# foreign functions whose result or effect depends on something other than their arguments
AMBIENT = [
    (r"^std::env::", "reads the process environment"),
    (r"^std::(time|fs|net|process|os|sys)::|^core::time::.*now", "reads or writes the world outside of the process"),
    (r"^std::thread::(?!panicking|local::panic)", "depends on the running thread"),
    (r"^std::io::(stdio|Stdin|Stdout|Stderr)|^std::io::.*::_e?print|_e?print$", "writes to or reads from a standard stream"),
    (r"RandomState|DefaultHasher as core::default|BuildHasher::(hash_one|build_hasher)$", "draws on a randomly seeded hasher"),
    (r"^core::sync::atomic::|^(std|core)::cell::|^(std|core|alloc)::sync::", None),
    (r"^(getrandom|rand|rand_core|fastrand)::", "draws random numbers"),
]
# operations outside of the safe language that let a view dangle or alias, or write through a shared reference
RAW = [
    (r"^core::intrinsics::transmute|^core::mem::transmute|transmute_copy$", "reinterprets a value as another type"),
    (r"^core::(slice|ptr)::.*(from_raw_parts|slice_from_raw)", "forges a reference from a raw pointer"),
    (r"^core::ptr::(read|write|copy|swap|replace)|^core::ptr::(mut_ptr|const_ptr|non_null)::.*::(read|write|copy|as_mut|as_ref|replace|swap)",
     "accesses memory through a raw pointer"),
    (r"^(alloc::boxed::Box|alloc::vec::Vec|alloc::string::String).*::(leak|into_raw|from_raw|from_raw_parts)$", "gives up or forges ownership"),
    (r"set_len$", "changes a length without initialising elements"),
]


def functions_in(x):
    if isinstance(x, dict):
        if x.get("k") == "fn" and "path" in x:
            yield x
        for y in x.values():
            yield from functions_in(y)
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from functions_in(y)


def callees(b):
    """every function a body calls or mentions"""
    for bl in b["blocks"]:
        if bl.get("cleanup"):
            continue
        for s in bl["s"] + [bl["t"]]:
            for f in functions_in(s):
                yield f.get("rpath") or f["path"], f["path"], s.get("sp")


def raw_places(b):
    """dereferences of raw pointers that the source writes, and pointers turned into numbers"""
    for bl in b["blocks"]:
        for s in bl["s"]:
            rv = s.get("rv")
            if not isinstance(rv, dict):
                continue
            if rv["k"] == "cast" and "Expose" in rv.get("ck", ""):
                yield "turns an address into a number", s.get("sp")


def pure(program):
    viol, obligations, und = [], 0, []
    fns = set()
    seen = set()

    def v(cat, what, why, where):
        if (cat, what, where) in seen:
            return
        seen.add((cat, what, where))
        viol.append({"cat": cat, "what": what, "why": why, "where": where, "key": "rule|%s|%s" % (cat, what), "input": None})
    for cfg in ("debug", "release"):
        P = program(cfg)
        eff = P.effects
        for s in eff["statics"]:
            obligations += 1
            if s["mut"]:
                v("state", s["path"], "mutable static: state that outlives the call", s["sp"])
            elif s["thread_local"] or "std::thread::local::LocalKey" in s["ty"] or "std::thread::LocalKey" in s["ty"]:
                v("state", s["path"], "thread-local variable: state that outlives the call", s["sp"])
            elif s["hidden"] and s["static"]:
                if re.match(r"^(std|core)::(sync|cell)::(lazy_lock::LazyLock|LazyLock|lazy::LazyCell)<", s["ty"]):
                    continue        # initialised once by a closure without captures; the closure's body is under the same rule
                v("state", s["path"], "static of type %s (%s): state that outlives the call" % (s["ty"], s["hidden"]), s["sp"])
        for t in eff["types"]:
            obligations += 1
            if t["hidden"]:
                v("state", t["path"], "field with interior mutability or shared ownership (%s)" % t["hidden"], t["sp"])
            if t["reachable"]:
                for a in ("send", "sync"):
                    obligations += 1
                    if not t.get(a):
                        v("auto", "%s: %s" % (t["path"], a.capitalize()), "public type is not %s" % a.capitalize(), t["sp"])
        for u in eff["unsafe"]:
            if u["kind"] in ("impl", "extern"):
                v("unsafe", u["path"], "unsafe %s" % u["kind"], u["sp"])
            else:
                und.append("unsafe %s in %s at %s: not checked by the compiler" % (u["kind"], u["path"], u["sp"]))
        for b in P.own:
            fns.add(b["path"])
            obligations += 1
            for rp, gp, sp in callees(b):
                obligations += 1
                for rx, why in AMBIENT:
                    if why and (re.search(rx, rp) or re.search(rx, gp)):
                        v("ambient", "%s calls %s" % (b["path"], gp), why, sp)
                for rx, why in RAW:
                    if re.search(rx, rp) or re.search(rx, gp):
                        v("unsafe", "%s calls %s" % (b["path"], gp), why, sp)
            for why, sp in raw_places(b):
                v("ambient", b["path"], why, sp)
    return {"api": "whole crate", "obligations": obligations, "violations": viol, "undecided": und, "traces": 0, "fns": sorted(fns)}


RULES = {"pure": pure}
