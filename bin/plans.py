"""What each property's check runs."""
import json, os, subprocess, sys
import vlib
from vlib import CPUS, CheckError, ROOT

PLANS = {}


def plan(*pids):
    def f(g):
        for p in pids:
            PLANS[p] = g
        return g
    return f


def seed_of(c, k):
    return str(c.seed * 1000 + k)


# ------------------------------------------------------------------ embedding algorithms
def ecfg(obl):
    return "SPECIFICATION TSpec\nCONSTANT Obl = {%s}\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n" % \
        ", ".join('"%s"' % o for o in obl)


# property -> (algorithms, obligations recorded runs are checked against, obligations that are this property's own)
EMB = {
    "C01": ("p", ["emb", "obs"], ["emb"]),
    "C02": ("p", ["emb", "obs"], ["obs"]),
    "C03": ("o", ["emb", "obs"], ["emb"]),
    "C04": ("o", ["emb", "obs"], ["obs"]),
    "C05": ("2", ["obs", "free"], None),
    "C06": ("3", ["obs", "free"], None),
    "C07": ("4", ["obs", "free"], None),
    "C08": ("d", ["emb", "obs", "vis", "sort"], ["emb", "vis"]),
    "C10": ("pod234", ["dfs", "sort"], None),
}


def with_witness(run, k):
    """Add an (untrusted) witness against the answer in event k of the run."""
    ld = json.loads(run[0])
    ev = json.loads(run[k])
    if ev.get("ev") != "embed":
        return None
    p = subprocess.run(["python3-vt", os.path.join(ROOT, "bin", "witness.py")], capture_output=True, text=True,
                       input=json.dumps(dict(alg=ev["alg"], n=ld["n"], es=ld["es"], ret=ev["ret"])), timeout=300)
    if p.returncode:
        raise CheckError("witness search failed: " + p.stderr[-1000:])
    ev["wit"] = json.loads(p.stdout)
    return run[:k] + [json.dumps(ev)] + run[k + 1:]


def emb_judge(own):
    def judge(c, r):
        """Is the rejection this property's? Either its own obligations fail or the answer itself is wrong."""
        if '"abort"' in r.event():
            return True
        j = dict(r.job, cfg=ecfg(own))
        if vlib.validate(j, r.run)[1]:
            return True
        w = with_witness(r.run, r.k)
        if w and vlib.validate(dict(r.job, cfg=ecfg(["ans"])), w)[1]:
            r.run, r.job = w, dict(r.job, cfg=ecfg(own + ["ans"]))
            return True
        return False
    return judge


def mathcfg(n, brute, rot, invs):
    return "SPECIFICATION Spec\nCONSTANTS N = %d\n Brute = %s\n Rot = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (
        n, str(brute).upper(), str(rot).upper(), " ".join(invs))


def mcecfg(n, algs, alln):
    return "SPECIFICATION Spec\nCONSTANTS N = %d\n Algs = {%s}\n AllNumberings = %s\nINVARIANTS GoodNum NothingLost SortTwice OneAnswer\nCHECK_DEADLOCK %s\n" % (
        n, ", ".join('"%s"' % a for a in algs), str(alln).upper(), str(alln).upper())


def emb_models(c, algs):
    a = [x for x in algs if x in "po24"] or ["p"]
    c.model("MCEmbed", mcecfg(3, a, True))
    c.model("MCEmbed", mcecfg(4, a, c.tier == "thorough"))
    inv = {"p": ["Kuratowski"], "d": ["Kuratowski"], "o": ["Outer", "K23Agrees", "K4Agrees"], "2": ["K23Agrees", "K23Reduces"],
           "4": ["K4Agrees"], "3": ["Kuratowski"]}
    iv = sorted({i for x in algs for i in inv[x]})
    if c.tier == "quick":
        c.model("MCMath", mathcfg(4, True, True, iv))
        if set(iv) - {"Kuratowski", "Outer"}:
            c.model("MCMath", mathcfg(5, True, False, iv))
    else:
        c.model("MCMath", mathcfg(5, True, True, iv))
        if "K23Reduces" in iv:
            c.model("MCMath", mathcfg(6, False, False, ["K23Reduces"]))


def emb_plan(c):
    algs, obl, own = EMB[c.pid]
    emb_models(c, algs)
    h = vlib.build(["h_embed"])["h_embed"]
    opts = ["+sort"] if "sort" in obl else []
    opts += ["+vis"] if "vis" in obl else []
    na = len(algs)
    js = []

    def job(name, cmd):
        j = dict(name="%s-%s" % (c.pid, name), cmd=[h] + cmd + opts, module="TraceEmbed", cfg=ecfg(obl), group=name.split("-")[0])
        if own:
            j["judge"] = emb_judge(own)
        js.append(j)
    S = CPUS
    for ai, a in enumerate(algs):
        pre = "" if na == 1 else a
        runs, keep = c.q(120000, 800000) // na, c.q(90, 900) // na
        for s in range(S):
            job("rand%s-%d" % (pre, s), ["rand", a, seed_of(c, s), str(runs), str(keep), "1", "20", "@OUT@"] + (["+hist"] if s % 4 == 1 else []))
        for s in range(c.q(S // 2, S)):
            job("big%s-%d" % (pre, s), ["rand", a, seed_of(c, 100 + s), str(c.q(12000, 80000) // na), str(max(1, c.q(6, 60) // na)),
                                        "20", str(c.q(45, 70)), "@OUT@"])
        for n, step in c.q([(3, 1), (4, 1), (5, 4 if na == 1 else 16), (6, 201 if na == 1 else 801)],
                           [(3, 1), (4, 1), (5, 1), (6, 2 if na == 1 else 9), (7, 1001 if na == 1 else 6001)]):
            tot = 2 ** (n * (n - 1) // 2) // step
            sh = 1 if tot < 300 else S
            for s in range(sh):
                job("all%s%d-%d" % (pre, n, s), ["all", a, str(n), str(s), str(sh), str(step), seed_of(c, 200), "@OUT@"])
    c.jobs(js)
    c.assumptions += ["vertex counts beyond the sampled sizes behave like the sampled ones",
                      "runs are recorded when a C-side screen finds them odd, plus a random sample; TLC judges every recorded run"]


for _p in EMB:
    PLANS[_p] = emb_plan


# ------------------------------------------------------------------ the graph structure (Store)
TCFG = "SPECIFICATION TSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"


def mcs_cfg(n, caps, capmax, steps, hid, ops):
    return ("SPECIFICATION Spec\nCONSTANTS N = %d\n Cap0 = {%s}\n CapMax = %d\n Steps = %d\n HidMax = %d\n Ops = {%s}\n"
            "INVARIANTS SameView WellFormed StaysSimple CanMerge CanIdentify CopyAgrees Undoable\nCHECK_DEADLOCK FALSE\n") % (
        n, ", ".join(map(str, caps)), capmax, steps, hid, ", ".join('"%s"' % o for o in ops))


STORE = {
    # property: (harness mode, model ops, model steps quick/thorough, caps)
    "C12": ("hist", ["add", "delete", "dir", "insert"], (6, 8), [2, 6]),
    "C13": ("hide", ["add", "hide", "contract", "identify"], (5, 6), [6]),
    "C14": ("cap", ["add", "delete", "ensure", "hide"], (5, 6), [2, 4]),
    "C15": ("copy", ["add", "delete", "dir", "hide"], (5, 6), [2, 6]),
}


def store_plan(c):
    mode, ops, steps, caps = STORE[c.pid]
    c.model("MCStore", mcs_cfg(3, caps, 8, c.q(*steps), 3, ops))
    if c.tier == "thorough" and c.pid in ("C13", "C12"):
        c.model("MCStore", mcs_cfg(4, caps, 8, c.q(4, 5), 2, ops))
    js = []
    for fl, share in (("plain", 1), ("san", 2)):
        h = vlib.build(["h_store"], fl)["h_store"]
        for s in range(CPUS // 2):
            js.append(dict(name="%s-%s-%d" % (c.pid, fl, s), module="TraceStore", cfg=TCFG, group="random " + fl, chunk=1500,
                           cmd=[h, "rand", mode, seed_of(c, s + (0 if share == 1 else 50)), str(c.q(900, 30000)), "60", "@OUT@"]))
        for s in range(CPUS // 4):
            # every choice sequence of length 2 (sampled) and 3 (sampled thinner) after several prefixes
            for depth, step in ((1, 1), (2, c.q(97, 7)), (3, 2003)):
                if depth == 3 and (c.tier == "quick" or mode == "hist" or fl == "san"):
                    continue
                if depth == 2 and mode == "hist":
                    if c.tier == "quick" and (fl == "san" or s):
                        continue
                    step *= c.q(20, 5)
                js.append(dict(name="%s-%s-d%d-%d" % (c.pid, fl, depth, s), module="TraceStore", cfg=TCFG, group="enumerated " + fl, chunk=1500,
                               cmd=[h, "all", mode, str(c.seed * 10 + s), str(depth), "0", "1", str(step), "@OUT@"]))
    c.jobs(js)
    if mode == "cap":
        c.model("MCBulk", "SPECIFICATION Spec\nCONSTANTS N = 9\n Steps = %d\nINVARIANTS Fits CutPossible\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\n" % c.q(16, 40))
        b = vlib.build(["h_bulk"])["h_bulk"]
        c.jobs([dict(name="C14-bulk-%d" % s, module="TraceBulk", cfg=TCFG, group="large objects, by counts",
                     cmd=[b, seed_of(c, s)] + c.q(["7", "9", "20", "1000", "46341", "46342", "70001"], ["7", "8", "9", "12", "20", "50", "1000", "5000", "46340", "46341", "46342", "50000", "65536", "65537", "70001", "92682", "92683", "150000"]) + ["@OUT@"])
                for s in range(c.q(3, 16))])
    if mode == "copy":
        c.jobs(twin_jobs(c, "copy", 60, 2500))
    c.assumptions += ["objects have at most 8 vertices in the recorded histories; larger ones behave alike",
                      "hidden parts are restored in reverse order and no edges are added or deleted in between, as the interface demands"]


for _p in STORE:
    PLANS[_p] = store_plan


# ------------------------------------------------------------------ depth-first utilities
@plan("C11")
def dfs_plan(c):
    cfg = "SPECIFICATION MSpec\nCONSTANT N = %d\nINVARIANTS Forest AncDesc Twice LowAgrees Complete\nCHECK_DEADLOCK FALSE\n"
    c.model("MCDfs", cfg % 4)
    if c.tier == "thorough":
        c.model("MCDfs", cfg % 5)
    js = []
    for fl in ("plain", "san"):
        h = vlib.build(["h_dfs"], fl)["h_dfs"]
        for s in range(CPUS):
            js.append(dict(name="C11-%s-%d" % (fl, s), module="TraceDfs", cfg=TCFG, group="random " + fl, chunk=800,
                           cmd=[h, "rand", seed_of(c, s + (0 if fl == "plain" else 50)), str(c.q(250, 8000)), str(c.q(14, 24)), "@OUT@"]))
        if fl == "plain":
            for n, st in ((3, 1), (4, 1), (5, c.q(7, 1)), (6, c.q(211, 11))):
                for s in range(1 if n < 5 else CPUS // 2):
                    js.append(dict(name="C11-all%d-%d" % (n, s), module="TraceDfs", cfg=TCFG, group="all %d" % n, chunk=800,
                                   cmd=[h, "all", str(n), str(s), str(1 if n < 5 else CPUS // 2), str(st), "@OUT@"]))
    c.jobs(js)
    c.assumptions += ["numbering starts from a freshly initialised or reinitialised graph; edges are not changed between numbering and use"]


# ------------------------------------------------------------------ containers
@plan("C23")
def cont_plan(c):
    cfg = ("SPECIFICATION MSpec\nCONSTANTS N = %d\n Slots = {1, 2}\n Steps = %d\n Caps = {0, 1, 3}\n Vals = {1, 2}\n"
           "INVARIANTS SameLists Disjoint NoRepeat SameStack\nCHECK_DEADLOCK FALSE\n")
    c.model("MCContainers", cfg % ((3, 4) if c.tier == "quick" else (4, 5)))
    js = []
    for fl in ("plain", "san", "dbg"):
        h = vlib.build(["h_cont"], fl)["h_cont"]
        for s in range(CPUS // 2):
            js.append(dict(name="C23-%s-%d" % (fl, s), module="TraceContainers", cfg=TCFG, group="random " + fl, chunk=1500,
                           cmd=[h, "rand", seed_of(c, s + 20 * len(fl)), str(c.q(500, 20000)), "60", "@OUT@"]))
    c.jobs(js)
    c.assumptions += ["callers respect the documented preconditions (a node is in at most one list; without DEBUG, no push beyond the capacity)"]


# ------------------------------------------------------------------ streams
@plan("C24")
def stream_plan(c):
    cfg = ("SPECIFICATION MSpec\nCONSTANTS L = %d\n Alpha = {10, 97}\n Steps = %d\n"
           "INVARIANTS StringReads FileReads CanPutBack\nCHECK_DEADLOCK FALSE\n")
    c.model("MCStreams", cfg % c.q((3, 6), (4, 8)))
    js = []
    for fl in ("plain", "san"):
        h = vlib.build(["h_stream"], fl)["h_stream"]
        for s in range(CPUS // 2):
            js.append(dict(name="C24-%s-%d" % (fl, s), module="TraceStreams", cfg=TCFG, group="random " + fl, chunk=1500,
                           cmd=[h, "rand", seed_of(c, s + 20 * len(fl)), str(c.q(500, 20000)), "60", "@OUT@"]))
    c.jobs(js)
    c.assumptions += ["a single character is put back between reads, as for C streams; carriage returns occur only in front of newlines"]

# ------------------------------------------------------------------ file formats and graph6 iterators
FMT_CFG = ("SPECIFICATION MSpec\nCONSTANTS N = %d\n K = %d\nINVARIANTS Delivered Counts\nCHECK_DEADLOCK FALSE\n")
def fmt_plan(c, modes):
    c.model("MCFormats", FMT_CFG % c.q((5, 2), (6, 4)))
    js = []
    for fl in ("plain", "san"):
        h = vlib.build(["h_io"], fl)["h_io"]
        for mode, quick, thorough, chunk in modes:
            for s in range(CPUS // 2):
                js.append(dict(name="%s-%s-%s-%d" % (c.pid, mode, fl, s), module="TraceFormats", cfg=TCFG, group="%s %s" % (mode, fl), chunk=chunk,
                               cmd=[h, mode, seed_of(c, s + 20 * len(fl)), str(c.q(quick, thorough)), "@OUT@"]))
    return js, h
def exh_jobs(c, h, sizes):
    return [dict(name="%s-exh%d-%d" % (c.pid, n, s), module="TraceFormats", cfg=TCFG, group="all graphs of order %d" % n, chunk=3000,
                 cmd=[h, "exh", str(n), str(s), str(k), "@OUT@"]) for n, k in sizes for s in range(k)]
IO_ASSUME = "the graph is not embedded a second time without being reinitialised"
@plan("C16")
@plan("C17")
def c16(c):
    js, h = fmt_plan(c, [("round", 150, 6000, 1500)])
    c.jobs(js + exh_jobs(c, h, c.q([(3, 1), (4, 1), (5, 2)], [(3, 1), (4, 1), (5, 2), (6, 8)])))
    c.assumptions += [IO_ASSUME, "neighbour lists hold no neighbour twice; a matrix holds no digits but 0 and 1"]
@plan("C18")
def c18(c):
    js, h = fmt_plan(c, [("round", 100, 4000, 1500), ("iter", 60, 2000, 1500)])
    p = vlib.build(["h_io"], "plain")["h_io"]
    js += exh_jobs(c, h, c.q([(3, 1), (4, 1), (5, 2)], [(3, 1), (4, 1), (5, 2), (6, 8)]))
    js += [dict(name="C18-large-%d" % n, module="TraceFormats", cfg=TCFG, group="large orders", cmd=[p, "large", str(n), str(k), "@OUT@"], htimeout=600)
           for n, k in c.q([(62, 20), (63, 20), (64, 20), (4095, 5), (4096, 5), (46342, 1)], [(62, 200), (63, 200), (4095, 50), (4097, 50), (46341, 1), (46342, 1), (65536, 1), (65537, 1), (70001, 1)])]
    c.jobs(js)
    c.assumptions += [IO_ASSUME]
@plan("C19")
def c19(c):
    js, h = fmt_plan(c, [("iter", 200, 6000, 1500)])
    c.jobs(js)
    c.assumptions += [IO_ASSUME, "an iteration is started once per iterator, and after a refused line it is only ended"]
@plan("C20")
def c20(c):
    js, h = fmt_plan(c, [("bad", 400, 20000, 3000), ("edit", 12, 600, 4000)])
    k = c.q(4, 6)
    js += [dict(name="C20-alpha-%d" % s, module="TraceFormats", cfg=TCFG, group="all short texts", chunk=6000, cmd=[h, "alpha", str(k), str(s), str(c.q(2, 8)), "@OUT@"]) for s in range(c.q(2, 8))]
    c.jobs(js)
    c.assumptions += ["graph orders up to a few thousand", "loops, repeated neighbours, plus signs and separators other than the documented ones are left open"]
@plan("C21")
def c21(c):
    js, h = fmt_plan(c, [("leda", 500, 20000, 3000)])
    c.jobs(js)
    c.assumptions += ["lines of at most 250 characters"]


# ------------------------------------------------------------------ objects with the same past
REPLAY_CFG = ("SPECIFICATION Spec\nCONSTANTS N = %d\n Cap = %d\n Steps = %d\n Reuse = \"clean\"\n"
              "INVARIANTS Deterministic SamePastSameView ViewShown\nCHECK_DEADLOCK FALSE\n")


def twin_jobs(c, mode, quick, thorough):
    js = []
    for fl in ("plain", "san"):
        h = vlib.build(["h_twin"], fl)["h_twin"]
        for s in range(CPUS // 2):
            js.append(dict(name="%s-twin-%s-%d" % (c.pid, fl, s), module="TraceReplay", cfg=TCFG, group="objects with the same past " + fl, chunk=2500,
                           cmd=[h, mode, seed_of(c, s + 20 * len(fl)), str(c.q(quick, thorough)), str(8 + 4 * (s % 4)), "@OUT@"]))
    return js


@plan("C25")
def c25(c):
    c.model("MCReplay", REPLAY_CFG % c.q((2, 4, 7), (3, 6, 7)))
    c.jobs(twin_jobs(c, "reinit", 150, 5000))
    c.assumptions += ["a graph is embedded once between reinitialisations", "edges beyond three times the order are left out, since capacity is kept"]


# ------------------------------------------------------------------ attaching and detaching features
FEAT_CFG = "SPECIFICATION MSpec\nCONSTANTS Feats = {%s}\n Fns = {1, 2}\n Steps = %d\nINVARIANT Chains\nCHECK_DEADLOCK FALSE\n"


@plan("C22")
def c22(c):
    c.model("MCFeatures", FEAT_CFG % c.q(("1, 2, 3", 6), ("1, 2, 3, 4", 7)))
    js = twin_jobs(c, "feat", 150, 5000)
    for fl in ("plain", "san"):
        x = vlib.build(["h_ext"], fl)["h_ext"]
        for s in range(CPUS // 4):
            js.append(dict(name="C22-ext-%s-%d" % (fl, s), module="TraceFeatures", cfg=TCFG, group="user-defined extensions " + fl, chunk=1500,
                           cmd=[x, "rand", seed_of(c, s + 20 * len(fl)), str(c.q(400, 15000)), "@OUT@"]))
    h = vlib.build(["h_embed"])["h_embed"]
    for a in "pod234":
        for s in range(2):
            js.append(dict(name="C22-embed-%s-%d" % (a, s), module="TraceEmbed", cfg=ecfg(["emb", "obs", "free", "chk", "sort", "vis"]), group="algorithms with further features attached",
                           cmd=[h, "rand", a, seed_of(c, 300 + s), str(c.q(3000, 60000)), str(c.q(25, 300)), "1", "16", "@OUT@", "+sort", "+vis", "+feats"]))
    c.jobs(js)
    c.assumptions += ["the feature of an algorithm is attached before the embedding and kept until its result has been used"]


# ------------------------------------------------------------------ random graph generators
GEN_CFG = ("SPECIFICATION MSpec\nCONSTANTS N = %d\n Caps = {%s}\n Reqs = {%s}\nINVARIANTS Progress Outcome Maximal\nCHECK_DEADLOCK FALSE\n")


def gen_judge(c, r):
    """Rotations are only certificates: before a rejection counts, an independently computed one is tried."""
    ev = json.loads(r.run[r.k])
    if ev.get("ev") != "gen" or ev["kind"] != "ex":
        return True
    es = [[v + 1, w] for v, l in enumerate(ev["adj"]) for w in l if w > v + 1]
    p = subprocess.run(["python3-vt", os.path.join(ROOT, "bin", "witness.py")], capture_output=True, text=True,
                       input=json.dumps(dict(alg="p", n=len(ev["adj"]), es=es, ret=-1)), timeout=300)
    if p.returncode:
        raise CheckError("witness search failed: " + p.stderr[-1000:])
    w = json.loads(p.stdout)
    if w["k"] != "rot":
        return True
    ev["rot"] = w["d"]
    k = r.k
    r.run = r.run[:k] + [json.dumps(ev)] + r.run[k + 1:]
    return vlib.validate(r.job, r.run)[1]


@plan("C26")
def c26(c):
    c.model("MCGen", GEN_CFG % (5, "4, 8, 15", "0, 4, 6, 9, 10, 99"))
    if c.tier == "thorough":
        c.model("MCGen", GEN_CFG % (6, "12, 18", "11, 12, 14, 99"))
    js = []
    for fl in ("plain", "san"):
        h = vlib.build(["h_gen"], fl)["h_gen"]
        for s in range(CPUS // 2):
            for nmax, runs, keep in ((8, c.q(15000, 300000), c.q(150, 3000)), (40, c.q(6000, 100000), c.q(40, 600)), (250, c.q(150, 3000), 1)):
                js.append(dict(name="C26-%s-%d-%d" % (fl, nmax, s), module="TraceGen", cfg=TCFG, group="orders up to %d %s" % (nmax, fl), chunk=1500, judge=gen_judge,
                               cmd=[h, "rand", seed_of(c, s + 20 * len(fl)), str(runs // (1 if fl == "plain" else 8)), str(keep), str(nmax), "@OUT@"]))
    c.jobs(js)
    c.assumptions += ["the object is empty when a generator is called", "runs are recorded when a C-side screen finds them odd, plus a random sample; TLC judges every recorded run",
                      "that a graph beyond the planar limit contains a maximal planar one is not decided"]


# ------------------------------------------------------------------ the result checker
CHK_CFG = "SPECIFICATION Spec\nCONSTANTS N = %d\n Rots = %s\nINVARIANTS Agree Faces\nCHECK_DEADLOCK FALSE\n"


@plan("C27")
def c27(c):
    c.model("MCChecker", CHK_CFG % (4, "TRUE"))
    c.model("MCChecker", CHK_CFG % (c.q(5, 6), "FALSE"))
    js = []
    for fl in ("plain", "san"):
        h = vlib.build(["h_chk"], fl)["h_chk"]
        for s in range(CPUS):
            for nmax, runs in ((9, c.q(400, 12000)), (25, c.q(120, 3000))):
                js.append(dict(name="C27-%s-%d-%d" % (fl, nmax, s), module="TraceChecker", cfg=TCFG, group="orders up to %d %s" % (nmax, fl), chunk=2500,
                               cmd=[h, "rand", "popo234d", seed_of(c, s + 20 * len(fl)), str(runs // (1 if fl == "plain" else 2)), str(nmax), "@OUT@"]))
    c.jobs(js)
    c.assumptions += ["results of searches that found nothing, and of a drawing that was impossible, are only checked when correct",
                      "the adjacency structure of a corrupted object stays symmetric; its depth-first data stay as the algorithm left them"]


# ------------------------------------------------------------------ renditions and saved drawings
DRAW_CFG = "SPECIFICATION MSpec\nCONSTANTS N = %d\n M = %d\nINVARIANTS Shows Survives\nCHECK_DEADLOCK FALSE\n"


@plan("C09")
def c09(c):
    c.model("MCDrawing", DRAW_CFG % (3, 3))
    c.model("MCDrawing", DRAW_CFG % (4, c.q(2, 3)))
    js = []
    for fl in ("plain", "san"):
        h = vlib.build(["h_draw"], fl)["h_draw"]
        for s in range(CPUS // 2):
            for nmin, nmax, runs, keep in ((2, 8, c.q(3000, 100000), c.q(150, 3000)), (9, 40, c.q(400, 10000), c.q(30, 500)),
                                           (100, 130, c.q(8, 150), c.q(8, 150)), (2, 300, c.q(60, 2000), c.q(2, 50))):
                js.append(dict(name="C09-%s-%d-%d" % (fl, nmax, s), module="TraceDrawing", cfg=TCFG, group="orders %d to %d %s" % (nmin, nmax, fl), chunk=1200,
                               cmd=[h, "rand", seed_of(c, s + 20 * len(fl)), str(runs), str(keep), str(nmin), str(nmax), "@OUT@"]))
    c.jobs(js)
    c.assumptions += ["graphs with at least one edge (a rendition without columns shows nothing)", "saved drawings are read into newly made objects with the drawing feature attached"]


CLI_CFG = "SPECIFICATION MSpec\nINVARIANTS KeepsGraph Totals\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxN = %d\n Len6 = 3\n"


def cli_jobs(c, modes, module="TraceCli"):
    js = []
    for fl in ("plain", "san"):
        e = vlib.build(["h_cli"], fl, app=True)
        for m, runs in modes:
            for s in range(CPUS // 2):
                js.append(dict(name="%s-%s-%s-%d" % (c.pid, m, fl, s), module=module, cfg=TCFG, group="%s %s" % (m, fl), chunk=400,
                               cmd=[e["h_cli"], "rand", e["planarity"], seed_of(c, s + 20 * len(fl) + ord(m)),
                                    str(runs if fl == "plain" else runs // 2), m, "@OUT@"]))
    c.jobs(js)


@plan("C28")
def c28(c):
    c.model("MCCli", CLI_CFG % c.q(3, 4))
    cli_jobs(c, [("t", c.q(300, 15000))])
    c.assumptions += ["graphs of at most 9 vertices, at most 12 per file; text after an empty line in the middle of a file is left open"]


@plan("C29")
def c29(c):
    c.model("MCCli", CLI_CFG % c.q(3, 4))
    cli_jobs(c, [("x", c.q(180, 10000)), ("s", c.q(250, 15000)), ("m", c.q(110, 8000))])
    c.assumptions += ["file names of at most 128 characters in the specific-graph mode", "graphs of at most 12 vertices (70 for transformations)"]


MENU_CFG = ("SPECIFICATION MSpec\nINVARIANTS KeepsGraph RightAnswer TypeOK\nPROPERTIES Closed OptionsStick SpecificOnlyWhenAsked\n"
            "CHECK_DEADLOCK FALSE\nCONSTANTS\n MaxN = %d\n Steps = %d\n")


@plan("C32")
def c32(c):
    c.model("MCMenu", MENU_CFG % (c.q(3, 4), c.q(5, 6)))
    cli_jobs(c, [("i", c.q(220, 12000))], module="TraceMenu")
    c.assumptions += ["one answer per line; file names of printable characters without blanks",
                      "answers to the questions for a number of graphs or vertices are numbers in the range shown",
                      "what is left of a graph after a search that found nothing, or after drawing a non-planar graph, is left open"]


# ------------------------------------------------------------------ allocation failures
ALLOC_CFG = ("SPECIFICATION MSpec\nCONSTANTS Objs = {o1, o2}\n Blocks = {%s}\n Calls = %d\n Need = 2\n Persistent = %s\n"
             "INVARIANTS Disjoint Contract\nPROPERTY Reported\nCHECK_DEADLOCK FALSE\n")


@plan("C31")
def c31(c):
    for p in ("FALSE", "TRUE"):
        c.model("MCAlloc", ALLOC_CFG % (c.q("b1, b2, b3, b4, b5", "b1, b2, b3, b4, b5, b6"), c.q(3, 5), p))
    js = []
    for fl in ("plain", "san"):
        h = vlib.build(["h_alloc"], fl)["h_alloc"]
        for s in range(CPUS):
            js.append(dict(name="C31-%s-%d" % (fl, s), module="TraceAlloc", cfg=TCFG, group="programs with failing allocations " + fl, chunk=1500,
                           env={"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_segv=0:handle_abort=0"},
                           cmd=[h, "rand", seed_of(c, s + 20 * len(fl)), str(c.q(1200 if fl == "plain" else 300, 60000 if fl == "plain" else 15000)), str(c.q(150, 3000)), "@OUT@"]))
    c.jobs(js)
    c.assumptions += ["an object in which a call failed is only released, except that a failed initialisation is tried again",
                      "whether a stream handed to a graph6 iteration that could not begin is closed is left open",
                      "runs are recorded when a C-side screen finds them odd, plus a random sample; TLC judges every recorded run"]


STEP_CFG = ("SPECIFICATION MSpec\nCONSTANTS N = %d\nPrefer = %s\nMinEdges = %d\n"
            "INVARIANTS Safe Finished NeverStuck Right\nCHECK_DEADLOCK FALSE\n")


@plan("C30")
def c30(c):
    for n, least in ((4, 0), (5, 0), (6, c.q(12, 0))) + c.q((), ((7, 16),)):
        for prefer in ("TRUE", "FALSE"):
            if n < 7 or prefer == "TRUE":
                c.model("MCSteps", STEP_CFG % (n, prefer, least))
    h = vlib.build(["h_step"], "plain")["h_step"]
    js = [dict(name="C30-all5", module="TraceSteps", cfg=TCFG, group="all graphs of order 5", chunk=1200,
               cmd=[h, "all", "po", "5", "0", "1024", c.q("2", "1"), "@OUT@"])]
    step = c.q(40, 4)
    for s in range(CPUS):
        js.append(dict(name="C30-all6-%d" % s, module="TraceSteps", cfg=TCFG, group="graphs of order 6", chunk=1200,
                       cmd=[h, "all", "po"[s % 2], "6", str(s * 4096 + (int(seed_of(c, s)) % step)), str((s + 1) * 4096), str(step), "@OUT@"]))
        js.append(dict(name="C30-rand-%d" % s, module="TraceSteps", cfg=TCFG, group="random graphs", chunk=800,
                       cmd=[h, "rand", "ppod", seed_of(c, s), str(c.q(250, 5000)), "14", "@OUT@"]))
        js.append(dict(name="C30-large-%d" % s, module="TraceSteps", cfg=TCFG, group="larger random graphs", chunk=250,
                       cmd=[h, "rand", "ppod", seed_of(c, s + 50), str(c.q(15, 400)), c.q("30", "60"), "@OUT@"]))
    c.jobs(js)
    c.assumptions += ["the embedder calls the functions that features may overload when it embeds an edge and when it finishes; states in between are not looked at",
                      "planarity, outerplanarity and drawing; the subgraph searches reduce the graph while embedding and are judged by their answers only (C04-C06)"]
