"""Common start of every driver: payload, ekosis import with scratch directories."""
import json, os, sys, logging
sys.dont_write_bytecode = True
PAYLOAD = json.load(sys.stdin)
SCRATCH = PAYLOAD["scratch"]
sys.argv = [os.path.join(SCRATCH, "drv.py"), "-i", "0", "-lfo"]
os.environ.setdefault("ECOENV_BUFFER_DIR", SCRATCH)

def result(obj):
    tmp = os.path.join(SCRATCH, "result.tmp")
    with open(tmp, "w") as f:
        json.dump(obj, f)
    os.rename(tmp, os.path.join(SCRATCH, "result.json"))

def payload_value(i):
    """A payload for message id i: any JSON-able value; varied in shape, distinct per id."""
    shapes = [
        lambda: {"n": i},
        lambda: {"n": i, "s": f"text-{i}", "l": [1, 2, i]},
        lambda: {"n": i, "u": "\u00e9\u4e2d\U0001f600 \"quoted\" \\ /\n\t", "z": None},
        lambda: {"n": i, "nested": {"a": {"b": [True, False, None, {"c": i}]}}, "f": i + 0.5},
        lambda: {"n": i, "big": 2 ** 53 + i, "neg": -i, "e": "", "empty": {}, "el": []},
        lambda: {"n": i, "long": "x" * 3000},
    ]
    return shapes[i % len(shapes)]()
