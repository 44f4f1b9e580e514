"""Which observations decide which property, and the control runs that attribute them."""
import copy

from . import run

LIVE = ("persist", "argument")


def _f(m, *prefixes):
    return m.field.split(":")[0] in prefixes


def c01(m):
    return m.op == "iterate" and (_f(m, "P", "acc", "cons", "range", "error", "unreadable")) or \
        m.op == "prog" and _f(m, "P", "acc", "error") or m.op == "drive" and _f(m, "P", "acc")


def c02(m):
    return m.op == "iterate" and _f(m, "P", "R", "I", "error") and m.lanes != "halted" or \
        m.op == "flags" and _f(m, "threshold", "halted", "all", "any", "dep", "error", "unreadable")


def c03(m):
    return m.op == "iterate" and m.lanes == "halted" or m.op == "iterate" and _f(m, "error") or \
        m.op == "iterate" and _f(m, "defs", "eps", "dep")


def c04(m):
    return m.op in ("cache", "iterate", "reset") and _f(m, "accepted", "errtype", "error", "slot", "upd", "cons") or \
        m.op == "cache" and not _f(m, *LIVE) or m.op == "flags" and _f(m, "ready", "cached", "error") or \
        m.op == "iterate" and _f(m, "acc")


def c05(m):
    return m.op == "reset" and not _f(m, *LIVE)


def c06(m):
    return _f(m, *LIVE) or m.op == "setattr"


def c09(m):
    return m.op in ("restore", "crash", "resume") and not _f(m, *LIVE)


def c12(m):
    return m.op == "drive" or m.op == "drive_honest"


def c13(m):
    return m.op == "drive_byz" or m.op in ("drive", "drive_honest") and _f(m, "error") or \
        m.op == "drive_honest"


def c14(m):
    return m.op in ("view", "mask", "transform")


def c15(m):
    return m.op in ("edit", "set", "ebuild", "srep")


def c17(m):
    return _f(m, "meta") or m.op in ("iterate", "reset", "prog", "cache", "drive", "build", "define", "view", "mask", "restore",
                                     "edit", "set", "ebuild", "srep") and _f(m, "error", "unreadable", "kind")


def c18(m):
    return m.op in ("new_builder", "new_builder_bad", "define", "define_bad", "build") or \
        _f(m, "persist") and m.field == "persist:builder"


def c19(m):
    return m.op == "flax" or m.op == "flax-inline-submodule"


def c21(m):
    return m.op == "grad"


def anything(m):
    return True


def nothing(m):
    return False


def lane(m):
    return m.field.startswith("lane:")


def chan(m):
    return m.field.startswith("chan:")


def hist(m):
    return m.field.startswith("hist:")


MATCH = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": anything, "C08": anything,
         "C09": anything, "C10": anything, "C11": lane, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": chan,
         "C17": c17, "C18": c18, "C19": c19, "C21": c21, "C22": hist}
ALL = sorted(MATCH)


def ops_of(trace):
    if trace.get("scen") == "threads":
        yield from trace.get("pre", [])
        for t in trace["tasks"]:
            yield from t
    else:
        yield from trace["ops"]


def control_trace(prop, trace):
    """The same history without what the property is about: without faults (C07), without
    preemption (C08), without restarts (C09), all eager (C10)."""
    t = copy.deepcopy(trace)
    if prop == "C07":
        for op in ops_of(t):
            op.pop("inj", None)
            op.pop("fault", None)
    elif prop == "C08":
        t["schedule"] = []
    elif prop == "C09":
        if t["scen"] == "resume":
            t["scen"] = "hist"
        for op in ops_of(t):
            if op["op"] in ("rt", "crash"):
                op["how"] = "none"
            if op["op"] == "crash":
                op.pop("fresh", None)
    elif prop == "C10":
        for op in ops_of(t):
            if op["op"] == "prog":
                op["how"] = "eager"
            elif op["op"] == "drive":
                op["mode"] = "nojit"
            elif op.get("mode", "eager") != "eager":
                op["mode"] = "eager"
    return t


CONTROLLED = ("C07", "C08", "C09", "C10")


def hits_of(prop, res):
    return [(n, m) for n, m in res.mism if MATCH[prop](m)]


def evaluate(prop, trace, known=()):
    """-> (result, hits, known hits); a hit is (operation number, Mismatch)."""
    res = run.execute(trace)
    hits = hits_of(prop, res)
    if prop in CONTROLLED and (hits or prop == "C10"):
        control = run.execute(control_trace(prop, trace)) if (hits or _worth_control(trace)) else None
        if control is not None:
            if prop == "C10":
                a = {(n, m.field.split(":")[0]) for n, m in res.mism}
                b = {(n, m.field.split(":")[0]) for n, m in control.mism}
                hits = [(n, m) for n, m in res.mism if (n, m.field.split(":")[0]) not in b] + \
                       [(n, m) for n, m in control.mism if (n, m.field.split(":")[0]) not in a]
            else:
                seen = {m.key() for _, m in control.mism}
                own = ("restore", "crash", "resume", "threads")
                hits = [(n, m) for n, m in hits if m.op in own and prop != "C07" or m.key() not in seen]
    knowns = []
    for k in known:
        mine = [(n, m) for n, m in hits if k.matches(prop, m)]
        if mine:
            knowns.append((k, mine))
            hits = [h for h in hits if h not in mine]
    return res, hits, knowns


def _worth_control(trace):
    """C10 needs the eager run too, in case only the eager one is wrong; one trace in four."""
    return len(trace.get("ops", [])) % 4 == 0
