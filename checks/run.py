#!/usr/bin/env python3
"""Decides one property: run.py <id>. Exit 0: it held on everything explored;
1: it is broken (VIOLATION line); 2: the check itself failed."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from common import Violation, ToolError, cleanup, evidence, log


def dispatch(prop, st):
    if prop in ("W01", "W02", "W03", "W04", "W05", "W06"):
        import runtime
        runtime.builder(prop, st)
    elif prop in ("R01", "R02"):
        import runtime
        runtime.reader(prop, st)
    elif prop == "R03":
        import runtime
        runtime.iterator(prop, st)
    elif prop == "S04":
        import ways
        ways.s04(prop, st)
    elif prop in ("S01", "S02", "S03", "G06"):
        import frontend
        getattr(frontend, prop.lower())(prop, st)
    elif prop in ("G01", "G02", "G03", "G04", "G05", "G07", "G08"):
        import generated
        getattr(generated, prop.lower())(prop, st)
    else:
        raise ToolError("no check for " + prop)


def main():
    prop = sys.argv[1]
    t = time.time()
    st = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    code = 2
    try:
        dispatch(prop, st)
        evidence(prop, "model_checking", st, time.time() - t)
        code = 0
    except Violation as v:
        d = os.path.join(common.WORK, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (prop, common.SEED))
        with open(path, "w") as f:
            json.dump({"property": prop, "what": v.what, "info": v.info}, f, indent=1)
        st["samples"] = [common.cut(v.info, 3000)]
        evidence(prop, "model_checking", st, time.time() - t, violations=1)
        print("violated: %s" % v.what)
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        code = 1
    except ToolError as e:
        log("check failed: %s" % e)
    except Exception:
        traceback.print_exc()
    finally:
        cleanup()
    log("%s: exit %d after %.1f s" % (prop, code, time.time() - t))
    sys.exit(code)


main()
