"""re-execute one recorded case in this process and print what it finds"""
import importlib
import json
import os
import shutil
import sys
import tempfile

from . import engine

if __name__ == "__main__":
    rec = json.load(open(sys.argv[1]))
    scratch = tempfile.mkdtemp(prefix="verif-replay-", dir="/tmp")
    engine.setup_process(scratch)
    mod = importlib.import_module("mc.checks.%s" % rec["property"].lower())
    if hasattr(mod, "init_worker"):
        mod.init_worker()
    res = engine.execute(mod, rec["case"])
    if hasattr(mod, "end_worker"):
        mod.end_worker()
    shutil.rmtree(scratch, ignore_errors=True)
    for msg, key in res["findings"]:
        print("FINDING", key or "", msg)
    if res["harness"]:
        print(res["harness"])
    print("replayed: %d findings" % len(res["findings"]))
    sys.stdout.flush()
    os._exit(1 if res["findings"] else 0)
