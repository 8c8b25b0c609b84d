"""What each check does: its bounded models, the plans of theirs that are
replayed into the code, and how many generated calls are recorded and judged."""

CHECKS = {}

# property -> (generated calls, [steps]); a step is
#   ("model", module, cfg)             checked
#   ("plan", module, cfg, step)        checked, every step-th case replayed
#   ("programs", step)                 the struct programs, all of them in the thorough tier
#   ("values", step)                   the types of MC_Table and their values (MC_Values)
#   ("more", driver, n)                 n generated calls of another driver, too
# cfgs of the thorough tier: the name with Big appended, where there is one.
STEPS = {
    "C01": (16000, [("plan", "MC_Struct", None, 4), ("programs", 4), ("more", "bigstd-all", 500)]),
    "C02": (14000, [("values", 3), ("plan", "MC_Json", "MC_JsonTok", 4), ("plan", "MC_Json", "MC_JsonStr", 2), ("more", "bigwf-all", 600), ("more", "huge", 150)]),
    "C03": (12000, [("plan", "MC_Escape", None, 1), ("plan", "MC_Escape", "MC_Runes", 1), ("more", "big-strings", 500), ("more", "huge-text", 300)]),
    "C04": (12000, [("programs", 1), ("plan", "MC_Tags", None, 1), ("more", "big-fields", 600)]),
    "C05": (16000, [("plan", "MC_Struct", None, 1), ("plan", "MC_Tags", None, 2), ("values", 3), ("more", "big-fields", 400)]),
    "C06": (16000, [("plan", "MC_Escape", None, 6), ("plan", "MC_Number", None, 6), ("plan", "MC_Tags", None, 3)]),
    "C07": (12000, [("plan", "MC_Maps", None, 1), ("more", "big-maps", 500), ("more", "huge-maps", 40), ("more", "huge-entry", 150)]),
    "C08": (12000, [("plan", "MC_Maps", None, 1), ("more", "big-sync", 800), ("more", "huge-maps", 40), ("more", "huge-entry", 150)]),
    "C09": (16000, [("values", 2), ("more", "count", 2500)]),
    "C10": (12000, [*[("plan", "MC_Json", c, 1) for c in ("MC_JsonTok", "MC_JsonStr", "MC_JsonWord", "MC_JsonNum", "MC_JsonHoles")], ("more", "big-texts", 600), ("more", "huge-json", 500)]),
    "C11": (14000, [("values", 1)]),
    "C12": (9000, [("plan", "MC_Bytes", None, 1), ("more", "big-strings", 300), ("model", "MC_Pump", None), ("more", "huge-anybytes", 500)]),
    "C13": (10000, [("plan", "MC_Number", None, 1), ("plan", "MC_Json", "MC_JsonNum", 1), ("plan", "MC_Json", "MC_JsonNumHoles", 1), ("more", "huge-number", 200), ("more", "huge-list", 150)]),
    "C14": (10000, [("plan", "MC_Time", None, 1)]),
    "C15": (12000, [("plan", "MC_Time", None, 1)]),
    "C16": (13000, [("programs", 2), ("plan", "MC_Options", None, 3), ("more", "big-lists", 500)]),
    "C17": (12000, [("plan", "MC_Options", None, 2), ("plan", "MC_Bytes", None, 2), ("more", "biga-all", 800), ("more", "huge", 250)]),
    "C18": (14000, [("plan", "MC_Struct", None, 3), ("values", 1), ("more", "huge", 250)]),
    "C21": (6000, [("values", 1), ("more", "big-deep", 500), ("more", "huge-deep", 150)]),
    "C22": (5000, [("plan", "MC_Cycle", None, 1), ("more", "big-deep", 300), ("more", "huge-deep", 300)]),
    "C23": (9000, [("plan", "MC_Options", None, 1), ("values", 2)]),
}
REFUTE = {"C07": [("MC_Maps", "MC_MapsEscaped"), ("MC_Maps", "MC_MapsMember")],
          "C05": [("MC_Struct", "MC_StructValue"), ("MC_Struct", "MC_StructName")],
          "C22": [("MC_Cycle", "MC_CycleNoLeave")],
          "C20": [("JCache", "MC_CacheDoneEarly"), ("JCache", "MC_CacheNoWait"), ("JCache", "MC_CacheWaitAtLoad")],
          "C19": [("JPool", "MC_PoolAlias"), ("JPool", "MC_PoolMapEarly"), ("JPool", "MC_PoolPutEarly"),
                  ("MC_History", "MC_HistoryName"), ("MC_History", "MC_HistoryAddr"), ("MC_History", "MC_HistoryDirty"),
                  ("MC_History", "MC_HistoryOpts"), ("MC_History", "MC_HistoryPanic")]}
KINDS = {"MC_Time": {"C14": ("times",), "C15": ("durations",)},
         "MC_Number": {"C06": ("floats", "ints")}}


def steps(run, todo):
    for st in todo:
        if st[0] == "model":
            run.model(st[1], run.cfg(st[1], st[2]))
        elif st[0] == "plan":
            run.planned(st[1], run.cfg(st[1], st[2]), step=st[3] if run.tier == "quick" else 1,
                        kinds=KINDS.get(st[1], {}).get(run.prop))
        elif st[0] == "programs":
            if run.tier == "quick":
                run.programs(step=st[1])
            else:
                run.programs("MC_ProgramsBig.cfg")
        elif st[0] == "values":
            run.values(run.cfg("MC_Table", None), step=st[1] if run.tier == "quick" else 1)
        elif st[0] == "more":
            n = st[2] if run.tier == "quick" else 10 * st[2]
            for k in range(0, n, 4000):
                run.calls(min(4000, n - k), first=k, prop=st[1], procs=4 if run.tier == "quick" else 8)
        if run.violations:
            return
    if run.tier == "thorough":
        for m, c in REFUTE.get(run.prop, []):
            run.refuted(m, c + ".cfg")


def calls(p):
    n, todo = STEPS[p]

    def f(run):
        steps(run, todo)
        if run.tier == "thorough":
            for k in range(12):
                run.calls(n, first=k * n, catseed=run.seed + k % 3, procs=8, judge_procs=8)
        else:
            run.calls(n)
        return "recorded calls judged by TraceCalls; plans of the bounded models replayed"
    return f


for _p in STEPS:
    CHECKS[_p] = calls(_p)


def c19(run):
    t = run.tier == "thorough"
    steps(run, [("model", "JPool", "MC_Pool"), ("plan", "MC_History", None, 2)])
    run.histories(40000 if t else 15000, 250, range(8 if t else 6))
    return "histories: the calls of a case in different orders, in different processes"


def c20(run):
    t = run.tier == "thorough"
    steps(run, [("model", "JCache", "MC_Cache")])
    run.schedules(5000 if t else 500, run.cfg("MC_Sched", None))
    run.pairs(run.cfg("MC_Pairs", None))
    run.histories(300, 300, [0, *range(1, 25 if t else 9), *range(100, 160 if t else 106)], race=True, fresh=400)
    run.calls(2000 if t else 200, prop="mut", race=True, fresh=400, env={"GORACE": "halt_on_error=1 exitcode=66"})
    return ("the calls of a case one after another, at the same time (race detector on), and in schedules "
            "of the shared operations and of all statements; sync.Maps changed while they are encoded")


CHECKS["C19"] = c19
CHECKS["C20"] = c20
