"""Objects that really move: pickled here, living on in another interpreter with
another hash seed and another heap, and sent back."""

import base64
import json
import os
import random
import subprocess
import sys

import numpy as np

from . import entropy, sut
from .core import hexval
from .runtime import array_of, call, dump, label_of, load


def travel(objs, how, calls, seed):
    """Pickle objs, make the calls [x, dt, label, tag] on them in another interpreter.
    -> {name: (outcomes, image on the way back)}"""
    job = {"images": {c: base64.b64encode(dump(o, how)[1]).decode() for c, o in objs.items()},
           "how": how, "calls": calls}
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(random.Random(seed).randrange(1, 4000000000))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.run([sys.executable, "-B", "-c", "import sys; sys.path.insert(0, %r); "
                        "from sim import abroad; abroad.child()" % here],
                       input=json.dumps(job), capture_output=True, text=True, env=env,
                       timeout=300)
    if p.returncode != 0:
        raise RuntimeError("the other interpreter failed: " + p.stderr[-500:])
    got = json.loads(p.stdout.splitlines()[-1])
    return {c: (g["seen"], base64.b64decode(g["image"]) if g["image"] else None)
            for c, g in got.items()}


def child():
    job = json.loads(sys.stdin.read())
    entropy.install()
    entropy.reseed(13)
    sut.restart()
    out = {}
    for c, image in job["images"].items():
        seen, back = [], ""
        try:
            o = load(("pickle", base64.b64decode(image)))
        except Exception as e:
            out[c] = {"seen": [["err", type(e).__name__]], "image": ""}
            continue
        seen.append(["ok", hexval(o.criterion_value)])
        for x, dt, lab, tag in job["calls"]:
            if isinstance(lab, list):
                st, v = call(o, np.array(x, dtype=float), np.array(lab))
            else:
                st, v = call(o, array_of(x, dt), label_of(lab, tag))
            seen.append([st, hexval(v) if st == "ok" else type(v).__name__])
        try:
            back = base64.b64encode(dump(o, job["how"])[1]).decode()
        except Exception as e:
            seen.append(["err", type(e).__name__])
        out[c] = {"seen": seen, "image": back}
    print(json.dumps(out))
