"""The analysis evaluated on closed programs: every function of lib.rs must come out true."""
import os, subprocess, sys, json, time, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.setrecursionlimit(10000)
import extract
from engine import Program, Engine
from inputs import Inputs
from dom import Unsupported, VBool, Fork, ForkData


def dump():
    drv = extract.build_driver()
    out = "/tmp/selftest%d.json" % os.getpid()
    e = extract.env_base()
    e.update(MIRDUMP_OUT=out, MIRDUMP_CRATE="selftest")
    r = subprocess.run([drv, "--crate-name", "selftest", "--crate-type", "lib", "--edition", "2021", "-Zmir-opt-level=0", "-Awarnings",
                        "-Zinline-mir=no", "-C", "debug-assertions=on", "--emit=metadata", "--out-dir", "/tmp", os.path.join(HERE, "lib.rs")],
                       env=e, capture_output=True, text=True)
    if not os.path.exists(out):
        raise SystemExit(r.stderr)
    d = json.load(open(out))
    os.unlink(out)
    return d


class TO(Exception):
    pass


def main():
    P = Program(dump(), extract.load_shim())
    import models  # noqa
    names = {r["name"]: r["key"] for r in P.roots if "_" in r["name"] and r["name"][1] == "_"}
    want = sys.argv[1:]
    good = bad = 0
    for n, k in names.items():
        if want and n not in want:
            continue
        I = Inputs(P, 20000)
        E = Engine(P, I.W)
        E.unroll = 200
        res = []
        def alarm(*_):
            raise TO()
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(20)
        try:
            for s in E.run_fn(I.st, k, []):
                if s.status in ("panic", "unknown", "unreachable", "diverge", "run"):
                    res.append("%s %s" % (s.status, s.ret and s.ret[:3]))
                else:
                    v = E.force(s, s.ret)
                    res.append("true" if isinstance(v, VBool) and v.c == ("c", True) else repr(v))
        except TO:
            res.append("time")
        except Exception as ex:
            import traceback
            res.append("%s: %s" % (type(ex).__name__, str(ex)[:150]))
            if want:
                traceback.print_exc()
        signal.alarm(0)
        if res == ["true"]:
            good += 1
        else:
            bad += 1
            print(n, [x[:230] for x in res[:2]])
    print(good, "true;", bad, "not")


main()
