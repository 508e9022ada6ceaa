"""Runs the contracts of one property over the current tree, judges the obligations, writes evidence."""
import os, sys, time, json, re, signal, traceback, importlib, multiprocessing, collections
from . import lin, build
from .world import World, MissingAnchor, Ob, TERM
from .interp import Imprecise

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ["vector", "string", "alloc", "bitset", "list", "format", "format32", "os", "inline", "inline_nolibc", "libc", "argparse", "macros", "macros_cxx", "api"]


# that loops end is an obligation of every analysis; these are the units that do not only repeat what the others cover
LOOPS = {"format": "^unsigned", "format32": "^unsigned"}


class Task:
    """one analysis unit: contract function + arguments; serves the listed properties"""

    def __init__(s, mod, t):
        s.mod, s.t = mod, t
        s.name = "%s.%s(%s)" % (mod, t[0].__name__, ", ".join(str(a) for a in t[1:] if not isinstance(a, tuple)))


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


_W = {}
PROP = None        # the property that is being checked


def world(config):
    if config not in _W:
        _W[config] = World(config)
    _W[config].want = PROP
    return _W[config]


def run_task(task, config, tier, limit):
    """prove; where that leaves something open, look for a refutation"""
    w = world(config)
    out = {"name": task.name, "config": config, "obs": [], "notes": [], "funcs": [], "loops": [], "inst": 0, "acc": 0, "dt": 0}
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)

    own = set()

    def one(unroll, lim):
        w.obs, w.unroll, w.deadline = [], unroll, None
        w.stuck, w.undef = [], []
        note = None
        signal.alarm(max(1, int(lim)))
        try:
            task.t[0](w, *task.t[1:])
        except Imprecise as e:
            note = "construct outside the analysis: %s" % e
        except Timeout:
            note = "time limit reached"
        except RecursionError:
            note = "recursion limit of the analyser reached"
        except MissingAnchor:
            raise
        except Exception as e:
            note = "analyser error: %s: %s at %s" % (type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1][:3])
        finally:
            signal.alarm(0)
        # an operation that does not come back does not do what its contract says
        for fn, case, what, detail, loc in w.stuck:
            if PROP not in (None, TERM) and any(o.fn == fn and o.case == case and PROP in o.props for o in w.obs):
                o = Ob((PROP,), fn, case, what, "violated", detail, loc)
                o.key = what
                w.obs.append(o)
        # neither does one whose behaviour is undefined: the analysis does not follow such a path any further
        if not unroll:
            own.update(o.fn for o in w.obs if PROP in o.props)
        for fn, case, what, status, detail, loc in w.undef:
            if PROP not in (None, TERM) and fn in own and (not unroll or status == "violated"):
                o = Ob((PROP,), fn, case, what, status, detail, loc)
                o.key = what
                w.obs.append(o)
        return list(w.obs), note
    try:
        obs, note = one(0, limit)
    except MissingAnchor as e:
        out["missing"] = str(e)
        return out
    if note:
        out["notes"].append(note)
    open_ = note or any(o.status != "ok" and (PROP is None or PROP in o.props) for o in obs)
    if open_ or tier == "thorough":
        for n in ((1, 3) if tier != "thorough" else (1, 3, 6)):
            try:
                obs2, note2 = one(n, limit)
            except MissingAnchor:
                break
            obs += [o for o in obs2 if o.status == "violated"]
            if note2:
                out["notes"].append("refutation pass: " + note2)
    out["obs"] = [(o.props, o.fn, o.case, o.what, o.status, o.detail, o.loc) for o in obs]
    out["funcs"] = sorted(w.funcs)
    out["loops"] = sorted(set((x[1], x[2]) for x in w.loops))
    out["inst"], out["acc"] = w.inst, w.accesses
    out["dt"] = time.time() - t0
    return out


def _child(args):
    sys.setrecursionlimit(20000)
    try:
        return run_task(*args)
    except BaseException as e:
        return {"name": args[0].name, "config": args[1], "obs": [], "notes": ["analyser error: %r" % e], "funcs": [], "loops": [], "inst": 0,
                "acc": 0, "dt": 0, "crash": True}


def load_tasks(prop):
    out = []
    for mn in MODULES:
        m = importlib.import_module("zsa.contracts_" + mn)
        own = any(re.fullmatch(p, prop) for p in m.SERVES)
        if not own and prop != TERM:
            continue
        for t in m.tasks(prop if own else None):
            if not own and not re.search(LOOPS.get(mn, "."), t[0].__name__):
                continue
            out.append((Task(mn, t), getattr(m, "CONFIG", "debug")))
    return out


def known(prop):
    """[(regex on 'function/case: obligation', description)]"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


def main(prop):
    global PROP
    PROP = prop
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tasks = load_tasks(prop)
    if not tasks:
        print("ERROR: no analysis is registered for property %s" % prop)
        return 2
    jobs = []
    for t, config in tasks:
        jobs.append((t, config, tier, 100 if tier == "quick" else 300))
        if tier == "thorough" and config == "debug":
            jobs.append((t, "ndebug", tier, 300))
    dropped, uses = [], []
    for c in sorted(set(j[1] for j in jobs)):
        try:
            world(c)
        except build.BuildError as e:
            msg = str(e)
            use = next((l for l in msg.split("\n") if "error:" in l and "macros.c" in l), None)
            if c not in ("macros", "macros_cxx") or use is None:
                print("ERROR: %s" % e)
                return 2
            # X01 is about this too; the other form is analysed all the same
            jobs = [j for j in jobs if j[1] != c]
            dropped.append("the uses of the macros do not compile in configuration %s" % c)
            uses.append((("H01",), "macros.c", "C++" if c == "macros_cxx" else "C", "documented uses of the macros compile", "violated", use[:300],
                         re.sub(r"^.*?(macros\.c:\d+).*$", r"\1", use)))
    ctx = multiprocessing.get_context("fork")
    kn = known(prop)
    res, budget, bad = [], (780 if tier == "quick" else 6 * 3600), None
    with ctx.Pool(min(8, os.cpu_count() or 4), maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_child, jobs, chunksize=1)
        for _ in jobs:
            lim = t0 + budget - time.time()
            if bad is not None:
                lim = min(lim, max(bad + 10, t0 + 60) - time.time())      # a violation is known: no need to finish everything
            try:
                r = it.next(max(0.1, lim))
            except multiprocessing.TimeoutError:
                break
            res.append(r)
            if bad is None and any(prop in o[0] and o[4] == "violated" and not any(rx.search("%s/%s: %s" % (o[1], o[2], o[3])) for rx, _ in kn) for o in r["obs"]):
                bad = time.time()
        if len(res) < len(jobs):
            pool.terminate()
    res.sort(key=lambda r: (r["name"], r["config"]))
    missing = [r["missing"] for r in res if "missing" in r]
    obs = [o for r in res for o in r["obs"] if prop in o[0]] + [o for o in uses if prop in o[0]]
    uniq = {}
    rank = {"violated": 0, "undecided": 1, "ok": 2}
    for o in obs:
        pass
    cnt = collections.Counter(o[4] for o in obs)
    viol, hits = {}, {}
    for o in obs:
        if o[4] != "violated":
            continue
        key = "%s/%s: %s" % (o[1], o[2], o[3])
        k = next((d for rx, d in kn if rx.search(key)), None)
        if k is not None:
            hits.setdefault(k, []).append(o)
        else:
            viol.setdefault((o[1], o[3]), []).append(o)
    undec = collections.OrderedDict()
    for o in obs:
        if o[4] == "undecided":
            undec.setdefault((o[1], o[2], o[3]), o[5])
    notes = ["%s [%s]: %s" % (r["name"], r["config"], n) for r in res for n in r["notes"]]
    notes += dropped
    if len(res) < len(jobs):
        notes.append("%d of %d analysis units not finished: %s" % (len(jobs) - len(res), len(jobs), "stopped after a violation" if bad else "time budget used up"))
    wall = time.time() - t0
    meta = meta_of(prop)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    groups = collections.Counter((o[1], o[3]) for o in obs)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": meta.get("level", "proof"),
        "coverage": {
            "obligations": len(obs), "discharged": cnt["ok"],
            "checker_cmd": "python3 /verif/check.py %s" % prop,
            "trusted_base": meta.get("trusted_base", TRUSTED),
            "rule": meta.get("rule") or ("abstract interpretation of the LLVM IR of /repo/src from every modelled entry state"),
            "explanation": meta.get("explanation", "Each obligation is a contract clause checked on one exit partition (or one memory access) of one exported "
                                    "function, analysed for all inputs of the stated entry states; 'discharged' means proved in the abstract domain."),
            "undecided": cnt["undecided"], "refuted": cnt["violated"],
            "functions_analysed": sorted(set(f for r in res for f in r["funcs"])),
            "analysis_units": len(res),
            "ir_instructions_interpreted": sum(r["inst"] for r in res),
            "memory_accesses_checked": sum(r["acc"] for r in res),
            "loops_summarised": sorted(set("%s %s" % tuple(l) for r in res for l in r["loops"])),
            "distinct_clauses": len(groups),
            "clauses": ["%s: %s (%d exits/accesses)" % (f, w_, n) for (f, w_), n in sorted(groups.items())][:400],
            "samples": [dict(function=o[1], entry=o[2], clause=o[3], verdict=o[4]) for o in obs[:3]],
            "undecided_list": ["%s/%s: %s :: %s" % (k + (d[:200],)) for k, d in undec.items()][:60],
            "notes": notes[:60],
            "known_findings": sorted(hits),
        },
        "assumptions": meta.get("assumptions", ASSUMPTIONS),
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    evp = os.path.join(VERIF, "evidence", prop + ".json")
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1)
    for n in notes:
        print("NOTE: " + n)
    for k, d in list(undec.items())[:20]:
        print("UNDECIDED: %s/%s: %s :: %s" % (k + (d[:160],)))
    for k in sorted(hits):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s: %d obligations, %d proved, %d undecided, %d refuted; %d functions, %.1fs" %
          (prop, len(obs), cnt["ok"], cnt["undecided"], cnt["violated"], len(ev["coverage"]["functions_analysed"]), wall))
    if missing:
        for x in missing:
            print("ERROR: anchor vanished: " + x)
    if viol:
        rp = os.path.join(VERIF, "evidence", prop + ".violation.txt")
        with open(rp, "w") as f:
            f.write("property %s is violated; reproduce with: python3 /verif/check.py %s\n\n" % (prop, prop))
            for (fn, what), os_ in viol.items():
                o = os_[0]
                f.write("function %s, entry state '%s'%s\n  clause: %s\n  %s\n\n" % (fn, o[2], (" at " + o[6]) if o[6] else "", what, o[5]))
        for (fn, what), os_ in list(viol.items())[:8]:
            o = os_[0]
            print("  %s [%s] %s: %s :: %s" % (fn, o[2], o[6], what, o[5][:300]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if missing:
        return 2
    if not cnt["ok"]:
        print("ERROR: no obligation of %s could be established" % prop)
        return 2
    return 0


TRUSTED = ["clang 18 / LLVM 18 front end, SROA and loop-simplify (source to IR)",
           "/verif/zsa: bitcode reader, abstract domains (polyhedra over monomials, bits, array logs), transfer functions",
           "/verif/zsa/models.py: contracts of libc, pthread and OS calls",
           "/verif/zsa/contracts_*.py: the stated entry states and clauses"]
ASSUMPTIONS = ["x86-64 Linux data model; one object occupies at most 2^55 bytes",
               "entry states are all states satisfying the representation invariant the same checks re-establish on every exit",
               "user callbacks (allocator, constructor, destructor, comparison) keep their documented contract and do not modify the container"]
SYNTACTIC = {
    "G01": ["the clang 18 front end", "/verif/zsa/contracts_api.py: the effect analysis and the lists of external functions"],
    "N01": ["the clang 18 front end", "/verif/zsa/contracts_api.py: the enumeration of symbol references"],
    "X01": ["the clang 18 front end", "/verif/zsa/contracts_api.py: the queries"],
}


def meta_of(prop):
    """level and technique as claimed in MANIFEST.json"""
    m = {}
    try:
        for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
            if c["property"] == prop:
                m = {"level": c["level"], "rule": c["technique"]}
    except (OSError, ValueError, KeyError):
        pass
    if prop in SYNTACTIC:
        m["trusted_base"] = SYNTACTIC[prop]
        m["assumptions"] = ["x86-64 Linux data model, POSIX configuration of the headers"]
        m["explanation"] = "Each obligation is one (function, call, object, header, declaration or macro use) of the current tree, judged by the rule in one configuration."
    return m
