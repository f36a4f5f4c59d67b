#!/usr/bin/env python3
"""check.py <property> - decide one property of the aql tree in /repo.

Builds the harness against the working tree, lets TLC work out cases from the
specification and runs them on the code, records what the code does on
generated inputs and lets TLC judge the recordings.

Exit 0: the property held on everything explored.  Exit 1: it is broken, and a
line VIOLATION property=<id> replay=<path> says so.  Anything else: the check
itself did not work.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN  # noqa: E402

REPO = "/repo"
TLA = "/opt/veriftools/tla"
JAVA = ["java", "-Xss1g", "-Xmx8g", "-XX:+UseParallelGC", "-cp",
        f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC"]
PART = 32 << 20  # bytes of events judged at a time


class Broken(Exception):
    """the check could not be carried out"""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.replay = replay


def goenv():
    env = dict(os.environ)
    env.update(GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", GOWORK="off",
               GORACE="halt_on_error=1 exitcode=66")
    if os.path.isdir("/opt/veriftools/go1.27.3/bin"):
        env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "")
    return env


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.plan = PLAN[prop]
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.start = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"aqlverif-{prop}-")
        self.states = self.transitions = self.validated = self.undecided = 0
        self.samples, self.notes, self.parts = [], {}, {}

    # ------------------------------------------------------------- building
    def build(self, pkg=".", name="aqlverif", extra=(), cwd=None, may_fail=False, env=None):
        out = os.path.join(self.scratch, name)
        cmd = ["go", "build"] + list(extra) + ["-o", out, pkg]
        r = subprocess.run(cmd, cwd=cwd or os.path.join(HERE, "harness"), env={**goenv(), **(env or {})},
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 and may_fail:
            return None
        if r.returncode != 0:
            raise Broken(f"{' '.join(cmd)} failed:\n{r.stdout[-4000:]}")
        return out

    def go(self, *args):
        r = subprocess.run(["go", *args], cwd=os.path.join(HERE, "harness"), env=goenv(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise Broken(f"go {' '.join(args)} failed:\n{r.stderr[-2000:]}")
        return r.stdout

    def browser(self, wasm):
        """a program that runs the compiled bridge in place of a browser"""
        node = shutil.which("node")
        if not node:
            raise Broken("no node to run the bridge with")
        lib = os.path.join(self.go("env", "GOROOT").strip(), "lib", "wasm", "wasm_exec.js")
        path = os.path.join(self.scratch, "browser")
        with open(path, "w") as f:
            f.write(f"#!/bin/sh\nexec {node} {HERE}/harness/bridge/run.js {lib} {wasm}\n")
        os.chmod(path, 0o700)
        return path

    def listening(self):
        """an overlay with which servers listen where the environment says, so that no port need be free"""
        net = os.path.join(self.go("env", "GOROOT").strip(), "src", "net")
        with open(os.path.join(net, "dial.go")) as f:
            text = f.read()
        start = "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n"
        files = {}
        if start in text:
            changed = os.path.join(self.scratch, "dial.go")
            with open(changed, "w") as f:
                f.write(text.replace(start, start + "\tnetwork, address = verifListen(network, address)\n"))
            files = {os.path.join(net, "dial.go"): changed, os.path.join(net, "verif.go"): os.path.join(HERE, "harness", "listen.txt")}
        path = os.path.join(self.scratch, "overlay-net.json")
        with open(path, "w") as f:
            json.dump({"Replace": files}, f)
        return path

    def instrumented(self):
        """the harness, built with scheduling points before every statement of the matching code"""
        tool = self.build(pkg="./instrument", name="instrument")
        module = "github.com/flowchartsman/aql"
        files = []
        for line in self.go("list", "-deps", "-f", "{{$d := .Dir}}{{$p := .ImportPath}}{{range .GoFiles}}{{$p}} {{$d}}/{{.}}\n{{end}}",
                            module + "/jsonmatcher").splitlines():
            if line.strip():
                pkg, f = line.split(" ", 1)
                if (pkg == module or pkg.startswith(module + "/")) and not pkg.endswith("/grammar"):
                    files.append(f)
        used = self.go("list", "-deps", "-f", "{{with .Module}}{{.Path}} {{.Dir}}{{end}}", module + "/jsonmatcher")
        mods = dict(l.split(" ", 1) for l in used.splitlines() if " " in l)
        lib = mods.get("go.uber.org/atomic")
        for how in ("statements, atomics, counters", "statements, counters", "statements, atomics", "statements", "nothing"):
            d = tempfile.mkdtemp(prefix="ins-", dir=self.scratch)
            extra = []
            if "statements" in how:
                cmd = [tool] + (["-atomic"] if "atomics" in how else []) + [d] + files
                if subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 0:
                    continue
                over = {f: os.path.join(d, f"{i}_{os.path.basename(f)}") for i, f in enumerate(files)}
                with open(os.path.join(d, "overlay.json"), "w") as f:
                    json.dump({"Replace": over}, f)
                extra += ["-overlay", os.path.join(d, "overlay.json")]
            if "counters" in how:
                if not lib:
                    continue
                u = os.path.join(d, "uatomic")
                shutil.copytree(lib, u, ignore=shutil.ignore_patterns("*_test.go", "internal", ".*"))
                subprocess.run(["chmod", "-R", "u+w", u], check=True)
                src = [os.path.join(u, f) for f in sorted(os.listdir(u)) if f.endswith(".go")]
                if subprocess.run([tool, "-methods", u] + src, stdout=subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL).returncode != 0:
                    continue
                for n in ("go.mod", "go.sum"):
                    shutil.copy(os.path.join(HERE, "harness", n), d)
                with open(os.path.join(d, "go.mod"), "a") as f:
                    f.write(f"\nreplace go.uber.org/atomic => {u}\n")
                extra += ["-modfile", os.path.join(d, "go.mod")]
            exe = self.build(name="aqlverif-sched", extra=extra, may_fail=True)
            if exe:
                return exe, how
        raise Broken("the harness does not build")

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, env=None, cfg=None, workers="8", timeout=600, extra=()):
        meta = tempfile.mkdtemp(prefix="meta-", dir=self.scratch)
        e = dict(os.environ)
        e.update(env or {})
        cmd = JAVA + ["-workers", workers, "-noGenerateSpecTE", "-metadir", meta] + list(extra)
        if cfg:
            cmd += ["-config", cfg]
        cmd.append(module)
        out = os.path.join(self.scratch, f"tlc-{module}-{len(self.parts)}.out")
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=os.path.join(HERE, "spec"), env=e, stdout=f,
                                   stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Broken(f"TLC did not finish on {module} in {timeout} s")
        shutil.rmtree(meta, ignore_errors=True)
        text = open(out, errors="replace").read()
        if r.returncode != 0 or "Model checking completed. No error has been found" not in text:
            raise Broken(f"TLC failed on {module} (exit {r.returncode}):\n{text[-3000:]}")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        gen, dist = int(m[-1][0]), int(m[-1][1])
        self.transitions += gen
        self.states += dist
        return text, gen, dist

    # ------------------------------------------------- recordings, judged
    def drive(self, cmd, path, limit):
        """run a driver; a crash or hang on one input, confirmed alone, is a violation"""
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, env=goenv())
        except subprocess.TimeoutExpired:
            self.confirm(cmd, path, "hangs")
        for m in re.findall(r"^SUMMARY (.*)$", r.stdout.decode(errors="replace"), re.M):
            for k, v in json.loads(m).items():
                self.notes[k] = self.notes.get(k, 0) + v
        log = r.stderr.decode(errors="replace")
        if r.returncode == 4 and "deadlock in" in log:
            s = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, env=goenv())
            if s.returncode == 4:
                raise Violation(f"callers wait for each other for ever: {log.strip()[:500]}", {"observed": log[:3000]})
            raise Broken("a deadlock that was not seen again\n" + log[:2000])
        if r.returncode == 66 and "DATA RACE" in log:
            if "github.com/flowchartsman/aql" in log:
                raise Violation("callers race for the same memory: " + open(path + ".last").read()[:500],
                                {"observed": log[:6000]})
            raise Broken("a data race outside the code\n" + log[:3000])
        if r.returncode == 3:
            raise Broken(f"driver: {r.stderr.decode(errors='replace')[-2000:]}")
        if r.returncode != 0:
            self.confirm(cmd, path, "crashes", r.stderr.decode(errors="replace")[:3000])

    def confirm(self, cmd, path, how, log=""):
        last = path + ".last"
        if not os.path.exists(last) or os.path.getsize(last) == 0:
            raise Broken(f"the driver {how}, input unknown\n{log}")
        what = open(last, errors="replace").read()
        one = [cmd[0], "-prop", self.prop, "-in", last, "one"]
        for _ in range(2):
            try:
                r = subprocess.run(one, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=goenv())
                if r.returncode in (0, 3):
                    raise Broken(f"the driver {how} near {what} but not on that input alone\n{log}")
            except subprocess.TimeoutExpired:
                pass
        raise Violation(f"the code {how} on {what.strip()}",
                        {"input": json.loads(what), "observed": how, "log": log})

    def verdicts(self, path):
        """let TLC judge a file of events, a part at a time (TLC keeps a whole file in memory):
        how many there are, the numbers of the undecided, the numbers of the bad with what was expected"""
        n, und, bad = 0, set(), []
        part = path + ".part"

        def ask(lines):
            with open(part, "wb") as f:
                f.writelines(lines)
            text, gen, dist = self.tlc("Trace", {"TRACE": part}, timeout=1500 if self.tier == "quick" else 5000)
            if dist != len(lines):
                raise Broken(f"{path}: {len(lines)} events, TLC saw {dist}")
            und.update(n + int(i) for i in re.findall(r'<<"UND", (\d+)>>', text))
            bad.extend((n + int(i), want) for i, want in re.findall(r'<<"MISMATCH", (\d+), (.*)>>\s*$', text, re.M))
            return n + len(lines)
        lines, size = [], 0
        with open(path, "rb") as f:
            for line in f:
                lines.append(line)
                size += len(line)
                if size > PART:
                    n = ask(lines)
                    lines, size = [], 0
        if lines:
            n = ask(lines)
        if os.path.exists(part):
            os.remove(part)
        return n, und, sorted(bad)

    def judge(self, path, label, rerun):
        """let TLC judge a file of events; rerun() produces the file again, for confirmation"""
        n, und, bad = self.verdicts(path)
        if n == 0:
            raise Broken(f"no events in {label}")
        self.undecided += len(und)
        self.validated += n - len(und)
        self.parts[label] = {"events": n, "undecided": len(und)}
        side = open(path + ".side").readlines()
        step = max(1, n // 3)
        for i in range(0, n, step):
            if i + 1 not in und and len(self.samples) < 6:
                s = side[i].strip()
                self.samples.append(json.loads(s) if len(s) < 4000 else s[:400] + "...")
        if bad:
            lines = open(path).readlines()
            again = rerun() if rerun else None
            for i, want in bad:
                k = i - 1
                if again is not None:
                    other = open(again).readlines()
                    if k >= len(other) or other[k] != lines[k]:
                        continue
                raise Violation(f"{side[k].strip()[:2000]}",
                                {"recorded": json.loads(side[k]), "event": json.loads(lines[k]),
                                 "specification": want, "mismatches": len(bad), "events": n})
            # the code does not do the same twice; is the second recording wrong as well?
            if self.verdicts(again)[2]:
                k = bad[0][0] - 1
                raise Violation(f"(not the same when repeated) {side[k].strip()[:2000]}",
                                {"recorded": json.loads(side[k]), "event": json.loads(lines[k]),
                                 "specification": bad[0][1], "mismatches": len(bad), "events": n})
            raise Broken(f"{label}: {len(bad)} mismatches, none seen again when repeated")

    def events(self, exe, prop, n, seed=None, label=None, limit=None, extra=(), once=False):
        """record events and judge them; once: what was recorded need not be seen again"""
        seed = self.seed if seed is None else seed
        label = label or f"{prop} seed {seed}"
        path = os.path.join(self.scratch, f"ev-{prop}-{seed}")

        def cmd(p):
            return [exe, "-prop", prop, "-seed", str(seed), "-n", str(n), *extra, "-out", p, "drive"]
        limit = limit or (180 if self.tier == "quick" else 1500)
        self.drive(cmd(path), path, limit)

        def rerun():
            p = path + ".again"
            self.drive(cmd(p), p, limit)
            return p
        self.judge(path, label, None if once else rerun)

    # ------------------------------------------------- models, replayed
    def model(self, exe, module, bounds=None, cap=0, cfg=None, label=None, extra=(), timeout=None):
        """TLC explores a model and checks its invariants; the cases it prints are run on the code,
        and what the code does is judged like any other recording"""
        quick = self.tier == "quick"
        bounds = {k: str(v) for k, v in (bounds or {}).items()}
        label = label or " ".join([cfg or module] + [f"{k}={v}" for k, v in bounds.items()])
        text, gen, dist = self.tlc(module, bounds, cfg=f"{cfg}.cfg" if cfg else None,
                                   timeout=timeout or (600 if quick else 6000))
        # TLC prints them in any order
        cases = sorted({json.loads(l)[5:] for l in text.splitlines() if l.startswith('"CASE ')})
        if not cases:
            raise Broken(f"{label} yields no cases")
        found = len(cases)
        if cap and found > cap:
            cases = sorted(random.Random(self.seed).sample(cases, cap))
        base = os.path.join(self.scratch, "cases-" + re.sub(r"\W+", "-", label))
        with open(base, "w") as f:
            f.writelines(c + "\n" for c in cases)
        limit = 300 if quick else 3000

        def cmd(p):
            return [exe, "-prop", self.prop, "-in", base, *extra, "-out", p, "replay"]
        self.drive(cmd(base + ".ev"), base + ".ev", limit)

        def rerun():
            self.drive(cmd(base + ".again"), base + ".again", limit)
            return base + ".again"
        self.judge(base + ".ev", label, rerun)
        self.parts[label].update({"model_states": dist, "model_cases": found, "cases_run": len(cases)})

    # ------------------------------------------------------------- outcome
    def evidence(self, violations):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated,
               "undecided_by_specification": self.undecided,
               "parts": self.parts, "samples": self.samples or ["none"]}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "wall_s": round(time.time() - self.start, 2), "violations": violations}
        path = os.path.join(HERE, "evidence", f"{self.prop}.json")
        with open(path + ".new", "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        os.replace(path + ".new", path)


def known_findings(prop):
    """inputs of this property that are known to fail: (input, text) pairs"""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) input=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in PLAN:
        print("usage: check.py <property>; one of", " ".join(sorted(PLAN)), file=sys.stderr)
        return 2
    run = Run(sys.argv[1])
    code = 2
    try:
        try:
            run.plan(run)
            run.evidence([])
            print(f"{run.prop}: held on {run.validated} traces ({run.undecided} undecided), "
                  f"{run.states} states, {time.time() - run.start:.1f} s")
            code = 0
        except Violation as v:
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            replay = os.path.join(HERE, "evidence", f"replay-{run.prop}.json")
            with open(replay, "w") as f:
                json.dump({"property": run.prop, "seed": run.seed, "tier": run.tier, "what": str(v),
                           "replay": v.replay}, f, indent=1, ensure_ascii=False)
                f.write("\n")
            run.evidence([{"what": str(v)[:500], "replay": replay}])
            print(str(v)[:2000])
            print(f"VIOLATION property={run.prop} replay={replay}")
            code = 1
        except Broken as b:
            print(f"{run.prop}: check did not work: {b}", file=sys.stderr)
            code = 2
    finally:
        shutil.rmtree(run.scratch, ignore_errors=True)
    return code


if __name__ == "__main__":
    sys.exit(main())
