#!/usr/bin/env python3
"""quiet.py [name...] - apply each refactoring to /repo, run the checks it concerns, restore.

Every check must stay quiet: the refactorings change how the code is written,
not what it does.  Nothing but this tool reads /verif/refactorings.
"""
import os, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIR = os.path.join(HERE, "refactorings")


def git(*a):
    return subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True)


def main():
    names = sys.argv[1:] or sorted(f[:-5] for f in os.listdir(DIR) if f.endswith(".diff"))
    if git("status", "--porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    loud = 0
    for name in names:
        r = git("apply", os.path.join(DIR, name + ".diff"))
        if r.returncode:
            print(name, "does not apply:", r.stderr)
            loud += 1
            continue
        try:
            for prop in open(os.path.join(DIR, name + ".props")).read().split():
                t = time.time()
                env = dict(os.environ)
                env.setdefault("VERIF_SEED", "5")
                r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop], env=env,
                                   capture_output=True, text=True)
                ok = r.returncode == 0
                loud += not ok
                print(name, prop, "quiet" if ok else f"LOUD {r.returncode} {(r.stdout + r.stderr)[-600:]}",
                      f"{time.time() - t:.0f}s", flush=True)
        finally:
            git("checkout", "--", ".")
    return 1 if loud else 0


if __name__ == "__main__":
    sys.exit(main())
