#!/usr/bin/env python3
"""Development helper (no check uses it): applies the text mutants of mutants/list_*.py, one at a time, to a scratch clone of /repo and runs the quick
checks they name.  usage: mutate.py check | run [ID or prefix ...]   (results appended to /tmp/mut/results.txt)"""
import glob, importlib.util, os, pathlib, shutil, subprocess, sys, time

HERE = pathlib.Path(__file__).resolve().parent.parent
SCR = pathlib.Path(os.environ.get("MUT_DIR", "/tmp/mut"))


def mutants():
    for f in sorted(glob.glob(str(HERE / "mutants" / "list_*.py"))):
        sp = importlib.util.spec_from_file_location(pathlib.Path(f).stem, f)
        mod = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(mod)
        yield from mod.MUTANTS


def main():
    sel = sys.argv[2:]
    SCR.mkdir(exist_ok=True)
    w = SCR / "w"
    if sys.argv[1] == "check":
        seen = set()
        for mid, props, f, old, new in mutants():
            t = (pathlib.Path("/repo") / f).read_text()
            if mid in seen:
                print("DUP", mid)
            seen.add(mid)
            c = t.count(old)
            if c != 1 or new is None or old == new:
                print(f"{mid} {f}: occurrences {c}")
            elif f.endswith(".py"):
                try:
                    compile(t.replace(old, new, 1), f, "exec")
                except SyntaxError as e:
                    print(mid, "syntax", e)
        print(len(seen), "mutants")
        return
    if w.exists():
        shutil.rmtree(w)
    subprocess.run(["git", "clone", "-q", "/repo", str(w)], check=True)
    for mid, props, f, old, new in mutants():
        if sel and not any(mid.startswith(s) for s in sel):
            continue
        p = w / f
        orig = p.read_text()
        if old not in orig:
            print(mid, "does not apply", flush=True)
            continue
        p.write_text(orig.replace(old, new, 1))
        for prop in props:
            t0 = time.time()
            r = subprocess.run(["bash", str(HERE / "run_check.sh"), prop, "quick"], env=dict(os.environ, VERIF_REPO=str(w)), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            (SCR / f"{mid}-{prop}.log").write_text(r.stdout[-20000:] + r.stderr[-5000:])
            res = "caught" if r.returncode == 1 and v else ("MISSED" if r.returncode == 0 else f"rc={r.returncode}")
            line = f"{mid} {prop} {res} {time.time() - t0:.0f}s"
            print(line, flush=True)
            with open(SCR / "results.txt", "a") as fh:
                fh.write(line + "\n")
        p.write_text(orig)


main()
