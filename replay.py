"""Replay counterexamples on the real, uninstrumented code.

replay.py FILE.json        one recorded violation (exit 1 when it reproduces)
replay.py --batch PROP     cases as JSON on stdin, results as '@@{...}' lines
"""
import importlib
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)


def run(mod, case):
    from pysx.api import ConcreteCx, CheckFailed, AssumeFailed
    cx = ConcreteCx(case["inputs"] or [])
    try:
        getattr(mod, case["h"])(cx, case["params"])
        return {"ok": True}
    except CheckFailed as e:
        return {"failed": True, "label": e.label, "detail": str(e.detail)[:2000]}
    except AssumeFailed:
        return {"assume": True}
    except KeyError as e:
        if e.args and isinstance(e.args[0], str) and e.args[0] not in cx.inputs and _from_cx(e):
            return {"missing": e.args[0]}
        return {"failed": True, "label": "uncaught:KeyError", "detail": traceback.format_exc()[-1500:]}
    except Exception as e:
        return {"failed": True, "label": "uncaught:" + type(e).__name__, "detail": traceback.format_exc()[-1500:]}
    finally:
        cx.finish()


def _from_cx(e):
    tb = e.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    return tb.tb_frame.f_code.co_name == "_get"


def main():
    if sys.argv[1] == "--batch":
        cases = json.load(sys.stdin)
        mod = importlib.import_module("harness." + sys.argv[2].lower())
        real = sys.stdout
        for i, c in enumerate(cases):
            sys.stdout = open(os.devnull, "w")
            try:
                r = run(mod, c)
            finally:
                sys.stdout = real
            r["i"] = i
            print("@@" + json.dumps(r, default=str), flush=True)
        return 0
    d = json.load(open(sys.argv[1]))
    mod = importlib.import_module("harness." + d["property"].lower())
    r = run(mod, d["case"])
    print(json.dumps(r, indent=1, default=str))
    return 1 if r.get("failed") else 0


if __name__ == "__main__":
    sys.exit(main())
