"""Worker process: runs scenarios of one check against the real code and reports what its monitors saw."""
from __future__ import annotations

import faulthandler
import importlib
import json
import os
import sys
import time
import traceback
import warnings

import numpy as np

REPO_PKG = os.path.realpath(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "slowquant")) + os.sep


def in_repo(e: BaseException) -> bool:
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        for fr in traceback.extract_tb(e.__traceback__):
            if os.path.realpath(fr.filename).startswith(REPO_PKG):
                return True
        e = e.__cause__ or e.__context__
    return False


def main():
    prop, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    faulthandler.enable()
    warnings.simplefilter("ignore")
    # Results go to the original stdout; whatever the code prints must not interfere.
    out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, "w")

    def send(x):
        out.write("\n@@VERIF@@" + json.dumps(x) + "\n")
        out.flush()

    from lib.mon import HarnessError, Monitor

    imp = None
    mod = importlib.import_module(f"checks.{prop.lower()}")
    try:
        mod.load()
    except BaseException as e:  # noqa: BLE001
        imp = {"in_repo": in_repo(e), "text": traceback.format_exc()[-1500:]}
    for line in sys.stdin:
        msg = json.loads(line)
        if imp is not None:
            send({"import_failure": imp})
            continue
        if "hello" in msg:
            send({"ok": 1})
            continue
        if "warm" in msg:
            try:
                if hasattr(mod, "warm"):
                    mod.warm()
            except BaseException:  # noqa: BLE001 - the scenarios decide
                pass
            send({"ok": 1})
            continue
        s = msg["run"]
        m = Monitor(prop, s)
        t = time.time()
        r_err = None
        try:
            h = int.from_bytes(__import__("hashlib").sha1(f"{prop}|{s['id']}".encode()).digest()[:4], "big")
            rng = np.random.default_rng([seed, h])
            np.random.seed(seed % 2**31)
            mod.run(s, m, rng)
        except HarnessError as e:
            r_err = f"harness: {e}"
        except BaseException as e:  # noqa: BLE001
            if in_repo(e):
                m._ev("no_unexpected_exception")
                m.violate("unexpected_exception", error=f"{type(e).__name__}: {str(e)[:300]}",
                          traceback=traceback.format_exc()[-1800:])
            elif isinstance(e, (ValueError, IndexError, KeyError, ZeroDivisionError, np.linalg.LinAlgError)):
                # The harness choked on what the code under test returned (wrong shape, NaN, missing entry).
                m.violate("malformed_result", error=f"{type(e).__name__}: {str(e)[:300]}",
                          traceback=traceback.format_exc()[-1800:])
            else:
                r_err = traceback.format_exc()[-2500:]
        r = m.result()
        r["id"] = s["id"]
        r["wall"] = time.time() - t
        if r_err:
            r["harness_error"] = r_err
        send(r)


if __name__ == "__main__":
    main()
