"""What each check runs, per tier."""


class M:
    """a model: its module, its bounds and how many of its cases are run (0: all of them), per tier"""
    def __init__(self, module, quick=None, thorough=None, cap=0, deep=0, cfg=None, only=None):
        self.module, self.quick, self.thorough = module, quick or {}, thorough if thorough is not None else (quick or {})
        self.cap, self.deep, self.cfg, self.only = cap, deep, cfg, only

    def run(self, run, exe, extra=()):
        quick = run.tier == "quick"
        if self.only and self.only != run.tier:
            return
        run.model(exe, self.module, self.quick if quick else self.thorough, self.cap if quick else self.deep,
                  cfg=self.cfg, extra=extra)


def decide(run, exe, n, models, extra=()):
    """cases of the models, then events recorded from the code on drawn inputs, all judged by the specification"""
    quick, thorough = n
    for m in models:
        m.run(run, exe, extra)
    if run.tier == "quick":
        run.events(exe, run.prop, quick, extra=extra)
    else:
        for k in range(3):
            run.events(exe, run.prop, thorough, seed=run.seed + 1000 * k, extra=extra)


def recorded(quick, thorough, *models):
    return lambda run: decide(run, run.build(), (quick, thorough), models)


def drawn(quick, thorough, *models):
    return lambda run: decide(run, run.build(extra=("-tags", "graph")), (quick, thorough), models)


def drawtool(quick, thorough, *models):
    def plan(run):
        exe = run.build(extra=("-tags", "graph"))
        cli = run.build(pkg="github.com/flowchartsman/aql/cmd/aqlgraph", name="aqlgraph")
        decide(run, exe, (quick, thorough), models, extra=("-tool", cli))
    return plan


def bridge(quick, thorough, *models):
    """the browser bridge, compiled for the browser and run by node"""
    def plan(run):
        exe = run.build()
        wasm = run.build(pkg="github.com/flowchartsman/aql/wasm/aqlparse", name="aqlparse.wasm", env={"GOOS": "js", "GOARCH": "wasm"})
        decide(run, exe, (quick, thorough), models, extra=("-tool", run.browser(wasm)))
    return plan


def tool(quick, thorough, *models):
    def plan(run):
        exe = run.build()
        cli = run.build(pkg="github.com/flowchartsman/aql/cmd/aqltest", name="aqltest")
        decide(run, exe, (quick, thorough), models, extra=("-tool", cli))
    return plan


def pages(quick, thorough, *models):
    """the page's server, built to listen where it is told"""
    def plan(run):
        exe = run.build()
        server = run.build(pkg="github.com/flowchartsman/aql/wasm/aqlparse/server", name="server", extra=("-overlay", run.listening()))
        decide(run, exe, (quick, thorough), models, extra=("-tool", server))
    return plan


def shared(quick, thorough, *models):
    """schedules of our choosing, then free running goroutines under the race detector"""
    def plan(run):
        exe, how = run.instrumented()
        run.notes["instrumented"] = how
        free = run.build(name="aqlverif-race", extra=("-race",), may_fail=True) or run.build()
        run.notes["race_detector"] = free.endswith("-race")
        for m in models:
            m.run(run, exe)
        seeds = [run.seed] if run.tier == "quick" else [run.seed + 1000 * k for k in range(4)]
        for seed in seeds:
            n, m = quick if run.tier == "quick" else thorough
            run.events(exe, "C17", n, seed=seed, label=f"schedules, seed {seed}")
            run.events(free, "C17stress", m, seed=seed, label=f"free running, seed {seed}", once=True)
    return plan


PLAN = {
    "C01": recorded(20000, 100000, M("MC_Bool", {"LEAVES": 3, "NOTS": 2}, {"LEAVES": 4, "NOTS": 2}, 2500, 40000)),
    "C02": recorded(20000, 100000, M("MC_Path", {"PREDS": "value", "DEPTH": 2}, {"PREDS": "value", "DEPTH": 3})),
    "C03": recorded(20000, 100000, M("MC_Path", {"PREDS": "kind", "DEPTH": 2}, {"PREDS": "kind", "DEPTH": 3})),
    "C04": recorded(20000, 100000, M("MC_Num", {"EXPS": 0}, {"EXPS": 1})),
    "C05": recorded(20000, 100000, M("MC_Time", {"DATES": 0}, {"DATES": 1})),
    "C06": recorded(20000, 100000, M("MC_Text", {"PATTERN": 3, "VALUE": 2}, {"PATTERN": 3, "VALUE": 3})),
    "C07": recorded(20000, 100000, M("MC_Regex", {"OPS": 2, "TEXT": 3}, {"OPS": 3, "TEXT": 3}, 6000, 60000)),
    "C08": recorded(20000, 100000, M("MC_Net")),
    "C09": recorded(12000, 60000, M("MC_List", {"MEMBERS": 2}, {"MEMBERS": 3})),
    "C10": recorded(20000, 100000, M("MC_Clauses", {"TOKENS": 5}, {"TOKENS": 6}, 6000, 60000),
                    M("MC_Comparison", {"TOKENS": 5}, {"TOKENS": 6}, 6000, 60000)),
    "C11": recorded(20000, 100000, M("MC_Args", {"VALUES": 2}, {"VALUES": 3}, 0, 60000)),
    "C12": recorded(20000, 100000, M("MC_Clauses", {"TOKENS": 5}, {"TOKENS": 6}, 5000, 60000),
                    M("MC_Comparison", {"TOKENS": 5}, {"TOKENS": 6}, 5000, 60000), M("MC_Args", {"VALUES": 2}, {"VALUES": 2}, 1000)),
    "C13": recorded(15000, 60000, M("MC_Walk", {"LEAVES": 2, "SIZE": 4, "MESSAGES": 0}, {"LEAVES": 2, "SIZE": 4, "MESSAGES": 0}, 9000)),
    "C14": recorded(15000, 60000, M("MC_Walk", {"LEAVES": 2, "SIZE": 3, "MESSAGES": 1}, {"LEAVES": 2, "SIZE": 3, "MESSAGES": 1}, 12000)),
    "C15": recorded(20000, 100000, M("MC_Advice", {"PIECES": 3}, {"PIECES": 4})),
    "C16": recorded(10000, 50000, M("MC_Stats", {"LEAVES": 3, "DOCS": 2}, {"LEAVES": 4, "DOCS": 2}, 6000, 60000)),
    "C17": shared((60, 400), (300, 2000), M("MC_Conc", {"SIZE": 1}, {"SIZE": 2}, 1200),
                  M("MC_Conc", {"SIZE": 0, "CALLERS": 3}, {"SIZE": 0, "CALLERS": 3}, 400, cfg="MC_Conc3")),
    "C18": recorded(8000, 40000, M("MC_Json", {"TOKENS": 5}, {"TOKENS": 6})),
    "C19": recorded(15000, 60000, M("MC_Window", {"LEN": 6}, {"LEN": 8})),
    "C20": recorded(4000, 20000, M("MC_Sampler", {"DEPTH": 2, "STEPS": 1}, {"DEPTH": 3, "STEPS": 1})),
    "C21": recorded(1500, 8000, M("MC_Sampler", {"DEPTH": 1, "STEPS": 3}, {"DEPTH": 1, "STEPS": 4}, 4000, 60000)),
    "C22": recorded(4000, 20000, M("MC_Sampler", {"DEPTH": 2, "STEPS": 1, "ODDKEYS": 1}, {"DEPTH": 3, "STEPS": 1, "ODDKEYS": 1})),
    "C23": drawn(6000, 20000, M("MC_Graph", {"LEAVES": 3}, {"LEAVES": 4}, 0, 20000)),
    "C24": tool(2500, 15000, M("MC_Cli")),
    "C28": bridge(8000, 40000, M("MC_Bridge", {"PIECES": 3}, {"PIECES": 4})),
    "C30": pages(800, 4000, M("MC_Pages", {"STEPS": 3}, {"STEPS": 3}, 1500, 8000)),
    "C29": recorded(6000, 30000, M("MC_Told", {"CHARS": 2}, {"CHARS": 3}, 4000, 60000)),
    "C27": drawtool(3000, 15000, M("MC_Draw")),
    "C26": recorded(2500, 12000, M("MC_Printed", {}, {}, 2500, 18000)),
    "C25": recorded(6000, 30000, M("MC_Handed", {"PIECES": 3}, {"PIECES": 4}, 3000)),
}

NOTES = {
    "*": ("TLA+ specification; models explored by TLC and their cases replayed into the real code; "
          "recorded runs of the real code judged by TLC",
          "Bounded by the sizes of the models and the generated inputs. Trusts TLC, the Go toolchain and the recorder; inputs on which the "
          "specification is deliberately silent are counted as undecided, not as held."),
}
