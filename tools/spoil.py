#!/usr/bin/env python3
"""spoil.py [property...] - is the judge awake?

Records events from the code, changes one observed detail in every event that
the specification found right, and has TLC judge the spoiled events.  Prints
per kind of event how many spoiled ones were rejected; a kind of event without
a rejection is an error.  Also runs the models that must fail.
"""
import copy, json, os, random, re, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402

# what the code did, as opposed to what it was given
OBSERVED = {
    "match": ["r"], "table": ["rs"], "bool": ["r"], "set": ["r", "twin"],
    "C10": ["r", "n"], "C11": ["r", "p"], "C12": ["n", "p"], "C13": ["seen", "r", "who", "at"], "C14": ["msgs"],
    "advice": ["r", "ms"], "stats": ["steps"], "total": ["vs"], "submit": ["r"], "shown": ["v"],
    "terminal": ["gap", "carets", "text"], "sampler": ["steps"], "fields": ["keys", "rs"],
    "graph": ["g", "r"], "draw": ["exit", "told", "target", "others", "g"], "cli": ["exit", "res", "st", "kinds", "told"],
    "handed": ["ways"], "printed": ["ps"], "bridge": ["out", "r", "tree", "ms"], "pages": ["steps", "up", "port"],
    "told": ["text", "json", "fty", "fmsg", "fq", "term"],
    "shared": ["calls", "final", "st"],
}
# parts of those that are not observations, or not this property's
GIVEN = {"stats": {"d", "bad", "n"}, "sampler": {"d", "n", "b", "op", "pct"}, "total": {"b"}, "printed": {"q"},
         "C10": {"p"}, "C12": {"f", "op", "ty", "v", "t"}, "handed": {"how", "rest"},
         "pages": {"op", "name", "path", "head", "from", "to", "long"}}


def leaves(x, path, skip):
    if isinstance(x, dict):
        for k in sorted(x):
            if k not in skip:
                yield from leaves(x[k], path + [k], skip)
    elif isinstance(x, list) and x and all(isinstance(c, int) and not isinstance(c, bool) for c in x):
        yield path
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from leaves(y, path + [i], skip)
    else:
        yield path


def spoiled(e, rnd):
    kind = e["k"]
    if kind == "C10" and e["r"] != "ok":
        e["n"] = []
    ps = [p for top in OBSERVED[kind] if top in e for p in leaves(e[top], [top], GIVEN.get(kind, set()))]
    if not ps:
        return None
    e = copy.deepcopy(e)
    path = rnd.choice(ps)
    at = e
    for k in path[:-1]:
        at = at[k]
    v, k = at[path[-1]], path[-1]
    if isinstance(v, bool):
        at[k] = not v
    elif isinstance(v, int):
        at[k] = v + 1
    elif isinstance(v, list):
        v = list(v)
        i = rnd.randrange(len(v))
        v[i] += 1
        at[k] = v
    elif kind == "submit":
        at[k] = "odd"
    elif isinstance(v, str):
        at[k] = {"T": "F", "F": "T", "X": "T", "ok": "err", "err": "ok"}.get(v, v + "x")
    else:
        return None
    return e, "/".join("*" if isinstance(x, int) else x for x in path)


def judged(run, path):
    text, _, _ = run.tlc("Trace", {"TRACE": path})
    return (set(map(int, re.findall(r'<<"UND", (\d+)>>', text))), set(map(int, re.findall(r'<<"MISMATCH", (\d+), ', text))))


def main():
    props = sys.argv[1:] or sorted(check.PLAN)
    rnd, asleep = random.Random(7), 0

    for prop in props:
        seen = []

        class Quick(check.Run):
            def model(self, *a, **k):
                pass

            def events(self, exe, p, n, seed=None, label=None, limit=None, extra=(), once=False):
                if once:
                    return
                path = os.path.join(self.scratch, "ev")
                subprocess.run([exe, "-prop", p, "-seed", str(seed or self.seed), "-n", str(min(n, 300)), *extra, "-out", path, "drive"],
                               check=True, env=check.goenv(), stdout=subprocess.DEVNULL)
                und, bad = judged(self, path)
                assert not bad, bad
                lines = open(path).readlines()[:2500]
                for i, line in enumerate(lines, 1):
                    s = i not in und and spoiled(json.loads(line), rnd)
                    if s:
                        seen.append((json.loads(line)["k"],) + s)
                with open(path + ".spoiled", "w") as f:
                    f.writelines(json.dumps(s[1], ensure_ascii=False) + "\n" for s in seen)
                self.und, self.bad = judged(self, path + ".spoiled")

        run = Quick(prop)
        try:
            run.plan(run)
            for kind in sorted({s[0] for s in seen}):
                ix = [i for i, s in enumerate(seen, 1) if s[0] == kind]
                no = sum(i in run.bad for i in ix)
                asleep += no == 0
                rest = {}
                for i in ix:
                    if i not in run.bad:
                        rest[seen[i - 1][2]] = rest.get(seen[i - 1][2], 0) + 1
                print(f"{prop} {kind}: {no} of {len(ix)} rejected", dict(sorted(rest.items(), key=lambda x: -x[1])[:6]) or "", flush=True)
        finally:
            check.shutil.rmtree(run.scratch, ignore_errors=True)

    if not sys.argv[1:]:
        run = check.Run("C17")
        try:
            run.tlc("MC_Conc", {"SIZE": "1"}, cfg="MC_Conc_careless.cfg")
            print("MC_Conc_careless holds, and should not")
            asleep += 1
        except check.Broken as b:
            print("MC_Conc_careless:", "fails as it should" if "is violated" in str(b) else str(b)[-500:])
            asleep += "is violated" not in str(b)
        finally:
            check.shutil.rmtree(run.scratch, ignore_errors=True)
    return 1 if asleep else 0


if __name__ == "__main__":
    sys.exit(main())
