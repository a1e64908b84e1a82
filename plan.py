"""Which jobs decide which property, and what counts as a violation of it."""
import os

BUDGET = {"quick": 540, "thorough": 6000}  # seconds for a check; jobs end early rather than exceed it
GRACE = 90
ARCHES = ["386", "arm", "arm64", "mips", "mipsle", "mips64", "ppc64le", "s390x", "riscv64", "loong64", "wasip1/wasm", "js/wasm", "windows/386", "darwin/arm64"]
TOOLCHAINS = ["go1.23", "go1.24", "go1.25", "go1.26", "go1.27"]

SCALE = float(os.environ.get("VERIF_SCALE") or 1)  # for trying things out

ALL = ("LIN", "CONS", "ORDER", "RANGE", "RFROM", "LEN", "PROG", "WF", "SEQ", "ISO", "CB", "REP", "OWN")
CLASSES = {
    "C01": ("LIN",),
    "C02": ("CONS",),
    "C03": ("ORDER",),
    "C04": ("RANGE", "REP"),
    "C05": ("RFROM", "REP"),
    "C06": ("LEN",),
    "C07": ("SEQ", "PROG"),
    "C08": ("WF", "LIN", "RANGE", "RFROM", "LEN", "ORDER"),
    "C09": ("PROG",),
    "C10": ("RACE",),
    "C11": ("OWN", "RACE"),
    "C12": ("CB", "LIN", "CONS", "ORDER", "RANGE", "RFROM", "LEN", "PROG"),
    "C13": ("CMP", "REP"),
    "C14": ("COST",),
    "C15": ("LEAK",),
    "C16": ("ISO", "PROG", "RACE"),
    "C17": ALL + ("RACE", "BUILD", "CMP", "APART"),
    "C18": ALL + ("RACE", "BUILD", "CMP", "APART", "COST", "LEAK"),
    "C19": ("APART",),
}


def relevant_classes(prop):
    # a crash inside the package or a value nobody supplied breaks whatever is being observed
    return CLASSES.get(prop, ()) + ("PANIC", "CORRUPT")


def relevant(prop, v):
    return v["cls"] in relevant_classes(prop)


def build_decides(prop, build):
    """A build failure that refutes the property itself (the tree compiles natively)."""
    if prop == "C17":
        return "386" in build or "go1" in build
    return prop == "C18" and "regen" in build and build.startswith("nat")


def steps(prop):
    return {"C17": ["platforms"], "C18": ["regenerate"]}.get(prop, [])


def J(id, build, engine, n, thorough=30, **kw):
    d = dict(id=id, build=build, engine=engine, n=n, thorough=thorough)
    d.update(kw)
    return d


def hist(profile, n, **kw):
    return J("controlled/" + profile, "ctl", "hist", n, profile=profile, **kw)


def crowd(profile, n, build="ctl"):
    return J("crowded/" + profile if build == "ctl" else build + "/crowded", build, "crowd", n, profile=profile)


def burst(profile, n):
    return J("overtaken by bursts/" + profile, "ctl", "burst", n, profile=profile)


def nat(profile, n, **kw):
    return J("native/" + profile, "nat", "nat", n, profile=profile, **kw)


JOBS = {
    "C01": [hist("arc", 900000), hist("all", 100000), crowd("arc", 8000), burst("arc", 12000), nat("arc", 20000), J("native/free", "nat", "free", 1500)],
    "C02": [hist("cons", 800000), hist("ar", 100000), crowd("cons", 8000), burst("cons", 20000), nat("cons", 15000), J("native/free", "nat", "free", 2500)],
    "C03": [hist("iter", 900000), crowd("iter", 8000), nat("iter", 12000), J("native/free", "nat", "free", 2500)],
    "C04": [hist("range", 900000), crowd("range", 8000), nat("range", 12000), J("native/free", "nat", "free", 2500)],
    "C05": [hist("rfrom", 900000), crowd("rfrom", 8000), nat("rfrom", 12000), J("native/free", "nat", "free", 2500)],
    "C06": [hist("len", 900000), crowd("len", 8000), nat("len", 15000), J("native/free", "nat", "free", 2000), J("sequential", "ctl", "seq", 20000),
            J("sequential, large", "ctl", "big", 36, thorough=10)],
    "C07": [J("sequential", "ctl", "seq", 160000), J("sequential/recorded order", "ctl", "cmp", 20000),
            J("sequential, large", "ctl", "big", 54, thorough=10)],
    "C08": [J("suspended and overtaking updates", "ctl", "freeze", 900000), hist("iter", 50000)],
    "C09": [hist("ar", 900000), hist("all", 100000), crowd("ar", 14000), burst("ar", 8000), J("sequential", "ctl", "seq", 20000), J("native/free", "nat", "free", 1500)],
    "C10": [J("race detector, controlled", "ctl+race", "hist", 60000, profile="all"),
            J("race detector, controlled, updates", "ctl+race", "hist", 30000, profile="ar"),
            J("race detector, native", "nat+race", "free", 300),
            J("race detector, native with delays", "ctl+race", "free", 120, delay=True, free=True, procs=4),
            J("address sanitizer", "nat+asan", "free", 300),
            J("constant collection, freed memory clobbered", "nat", "free", 150, gogc=1, godebug="clobberfree=1"),
            hist("ar", 150000), hist("all", 150000), crowd("all", 800, "ctl+race"), crowd("all", 2000), nat("all", 4000),
            J("constant collection, controlled", "ctl", "hist", 4000, profile="all", gogc=1, godebug="clobberfree=1")],
    "C11": [J("ownership, race detector, controlled", "ctl+race", "own", 120000),
            J("ownership, controlled", "ctl", "own", 150000),
            J("ownership, race detector, native", "nat+race", "ownfree", 6000),
            J("ownership, race detector, native with delays", "ctl+race", "ownfree", 1000, delay=True, free=True, procs=4),
            J("ownership, native", "nat", "ownfree", 30000)],
    "C12": [hist("cb", 600000), crowd("cb", 8000), J("callbacks that panic or exit", "ctl", "panic", 150000),
            J("comparisons that panic or exit", "ctl", "less", 60000), nat("cb", 6000)],
    "C13": [J("recorded comparisons", "ctl", "cmp", 250000)],
    "C14": [J("cost", "ctl+tick", "cost", 72), J("cost, large", "ctl+tick", "cost", 18, deep=True, thorough=10),
            J("cost after concurrent churn", "ctl+tick", "churn", 6000)],
    "C15": [J("weak pointers", "ctl", "leak", 60000), J("heap", "ctl", "heap", 2500)],
    "C16": [J("several sets", "ctl", "iso", 250000), J("several sets, native", "nat", "isofree", 4000),
            J("several sets, same goroutines", "ctl", "isoshared", 150000, profile="all"),
            J("several sets, same goroutines, race detector", "ctl+race", "isoshared", 5000, profile="all"),
            J("several sets, race detector", "ctl+race", "iso", 12000), J("several sets, race detector, native", "nat+race", "isofree", 500)],
    "C17": [J("386/sequential", "ctl+386", "seq", 30000), J("386/controlled", "ctl+386", "hist", 120000, profile="all"),
            J("386/suspended", "ctl+386", "freeze", 30000), J("386/recorded", "ctl+386", "cmp", 20000),
            crowd("all", 1500, "ctl+386"), J("386/callbacks", "ctl+386", "panic", 12000), J("386/ownership", "ctl+386", "own", 15000),
            J("386/several sets", "ctl+386", "iso", 15000), J("386/neighbours", "ctl+386", "apart", 15000),
            J("386/native", "nat+386", "free", 800), J("386/native, histories", "nat+386", "nat", 4000)]
           + [J(g + "/sequential", "ctl+" + g, "seq", 3000) for g in TOOLCHAINS[:-1]]
           + [J(g + "/controlled", "ctl+" + g, "hist", 20000, profile="all") for g in TOOLCHAINS[:-1]]
           + [J(g + "/race detector", "ctl+race+" + g, "hist", 3000, profile="all") for g in TOOLCHAINS[:1]],
    "C18": [J("regenerated/sequential", "ctl+regen", "seq", 40000), J("regenerated/controlled", "ctl+regen", "hist", 250000, profile="all"),
            J("regenerated/recorded", "ctl+regen", "cmp", 30000), J("regenerated/suspended", "ctl+regen", "freeze", 50000),
            J("regenerated/native", "nat+regen", "free", 600),
            crowd("all", 3000, "ctl+regen"), J("regenerated/race detector", "ctl+race+regen", "hist", 8000, profile="all"),
            J("regenerated/ownership", "ctl+race+regen", "own", 8000), J("regenerated/callbacks", "ctl+regen", "panic", 12000),
            J("regenerated/several sets", "ctl+regen", "iso", 15000), J("regenerated/neighbours", "ctl+regen", "apart", 25000),
            J("regenerated/weak pointers", "ctl+regen", "leak", 3000), J("regenerated/heap", "ctl+regen", "heap", 250),
            J("regenerated/cost", "ctl+regen", "cost", 16),
            J("committed/sequential", "ctl", "seq", 20000), J("committed/controlled", "ctl", "hist", 60000, profile="all")],
    "C19": [J("updates next to and apart from suspended ones", "ctl", "apart", 300000)],
}


def REGENERATED_AGAIN(k):
    """If the generator does not always turn out the same: the other outcomes."""
    b = "ctl+regen%d" % k
    return [J(b + "/sequential", b, "seq", 8000), J(b + "/controlled", b, "hist", 30000, profile="all"), J(b + "/recorded", b, "cmp", 4000)]


def jobs(prop, tier, base=None):
    out = []
    for j in base or JOBS[prop]:
        j = dict(j)
        f = j.pop("thorough")
        if tier == "thorough":
            j["n"] *= f
        if SCALE != 1:
            j["n"] = max(16, int(j["n"] * SCALE))
        out.append(j)
    return out


HIST_RULE = ("A case is a random program (2-8 goroutines, 1-14 operations each, 1-20 values, random prefill; the kind of set cycles through all generated sources) "
             "run on the real package under a random controlled schedule (uniform, sticky, PCT, long parks; towers biased from flat to full height), or on real threads. Crowded: with up to 2100 further members, up to 139 goroutines, or iterations nested up to 140 deep. Overtaken by bursts: an operation is suspended while 256 or 65536 updates are made beside it. "
             "Non-trivial: operations on a common value overlapped and, in controlled runs, a goroutine was preempted inside the package. Distinct: different schedule trace (every scheduling decision and kind of step) or results.")
RULE = {p: HIST_RULE for p in CLASSES}
RULE["C07"] = ("A case is a random sequential history (fills, drains, random operations, audits of every value) of one kind of set over a random domain of 1-3000 values; every result is compared with the model. "
               "Non-trivial: more than 5 operations and a non-empty set. Distinct: different sequence of operations or kind of set.")
RULE["C08"] = ("A case is one reading goroutine and 1-5 updating ones; at a random step all updaters are suspended (or they complete operations between every two steps of the reader), and the reader must end within its step bound. "
               "Non-trivial: at least one updater was suspended inside an operation, or operations overlapped the reads. Distinct: different schedule trace.")
RULE["C11"] = ("A case is 2-5 goroutines that hand plain memory over through the set (published slots, contended slots, tokens). Non-trivial: a slot was read after a sighting or changed by an owner. Distinct: different schedule trace or handover counts.")
RULE["C12"] = HIST_RULE + " Here the callbacks operate on the set, panic or exit their goroutine; in the jobs on comparisons a sequential history is interrupted by a panicking comparison (non-trivial: it fired)."
RULE["C13"] = "A case is a random sequential or concurrent program on a NewFunc set whose comparison function records its arguments and follows a secret random order. Non-trivial: comparisons were made (and a preemption took place, if concurrent). Distinct: different trace."
RULE["C14"] = "A case is one kind of set filled to 2^17 (or 2^20) members in one order, measured at 8 sizes, emptied and refilled; or a set churned by concurrent updates, then measured. Each is non-trivial; distinct by random seed or schedule trace."
RULE["C15"] = "A case is a random program on a set whose values are tracked by weak pointers, or a long history whose heap growth is measured. All cases count as non-trivial; distinct by schedule trace."
RULE["C19"] = "A case is 1-3 updating goroutines on one group of values, suspended for good at a random step, and one that updates values several members away, or makes calls without effect between the suspended ones; it must get through within its step bound. Non-trivial: at least one updater was suspended inside an operation. Distinct: different schedule trace."
RULE["C16"] = "A case is 2-4 sets, used alternately (with nesting) by one goroutine or each by its own goroutine, with suspension of all but one at a random step; each set is compared with its own model. Non-trivial: sets were interleaved. Distinct: different trace."

COMMON_ASSUMPTIONS = [
    "Exploration: the verdict covers the executions that were run, not all executions.",
    "Controlled runs schedule at every operation of sync and sync/atomic and are sequentially consistent (as Go's memory model makes sync/atomic); plain memory accesses are judged by the race-detector jobs.",
]
ASSUMPTIONS = {
    "C08": ["Step bound for one read: 4*(16*(K+2)+4*(K+2)+8) operations of sync/atomic with K values; steps are counted at sync and sync/atomic operations."],
    "C14": ["Steps are operations of sync/atomic and comparisons, and (first job) functions entered and loop bodies begun inside the package. Bound on means: 25+6*log2(n+2) steps (2.5 times that for Add and Remove, which may search more than once), 400+8*(25+6*log2(n+2)) functions and loop bodies; growth from n/16 to n at most 30 steps; Range at most 8 steps per member."],
    "C19": ["Updates several members away: towers are flat (the shim draws them); should the package draw towers otherwise, only a wait in 20 runs in a row counts."],
    "C17": ["Executed on linux/386 and with go1.23 to go1.27 on amd64; other platforms are only compiled, as no emulator is installed."],
}
