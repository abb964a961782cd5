#!/opt/venv/bin/python
"""run.py <property>: runs one check.  run.py --replay <file>: replays one
recorded counterexample."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core  # noqa: E402

sys.path.insert(0, core.REPO)
os.environ.setdefault("OMP_NUM_THREADS", "1")

MODULES = {
    "C01": "tensors", "C02": "tensors", "C03": "tensors", "C04": "purity",
    "C05": "funcs", "C06": "funcs", "C07": "funcs", "C08": "funcs",
    "C09": "likes", "C10": "likes", "C11": "objective",
    "C12": "fits", "C13": "fits", "C14": "fits", "C15": "estimates",
    "C16": "fits", "C17": "objective",
    "C18": "prep", "C19": "prep", "C20": "prep",
    "C21": "copulas", "C22": "outcomes", "C23": "outcomes", "C24": "outcomes",
    "C25": "distrib", "C26": "distrib",
    "C27": "tensors", "C28": "domain",
}


def main():
    if sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        mod = importlib.import_module(MODULES[rec["property"]])
        core._init_worker()
        print_ = sys.__stdout__
        r = mod.replayer(rec["property"])(rec["trace"])
        print_.write("%s\n" % (r,))
        return 1 if r and "fail" in r else 0
    prop = sys.argv[1]
    mod = importlib.import_module(MODULES[prop])
    return core.main(prop, mod.CHECKS[prop])


if __name__ == "__main__":
    sys.exit(main())
