"""Runs the cases of one check against the code in /repo and writes one line per case."""
import contextlib
import importlib
import io
import json
import os
import shutil
import signal
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[0:0] = [os.path.dirname(HERE), HERE]
sys.path.insert(0, os.environ["OWC_REPO"])


class Late(BaseException):
    pass


def enc(x):
    """Plain JSON of numpy values: arrays become nested lists (0-d: a scalar)."""
    import numpy as np
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if isinstance(x, np.ma.MaskedArray):
        x = x.filled(np.nan)
    if isinstance(x, np.ndarray):
        return enc(x.tolist())
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if x is None:
        return None
    if isinstance(x, bytes):
        return x.decode("latin1")
    return str(x)


def main():
    name, d, limit = sys.argv[1], sys.argv[2], int(sys.argv[3])
    warnings.simplefilter("ignore")
    mod = importlib.import_module("checks." + name)
    with open(os.path.join(d, "in.json")) as f:
        cases = json.load(f)

    def late(*_):
        raise Late()
    signal.signal(signal.SIGALRM, late)
    with open(os.path.join(d, "out.jsonl"), "w") as out:
        for c in cases:
            box = os.path.join(d, "box")
            os.makedirs(box)
            signal.alarm(limit)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    r = enc(mod.run(c, box))
            except Late:
                r = {"error": "no result within %d s" % limit}
            except MemoryError:
                raise
            except BaseException as e:   # the code under test may even call sys.exit
                if isinstance(e, KeyboardInterrupt):
                    raise
                r = {"error": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-1200:]}
            signal.alarm(0)
            shutil.rmtree(box, ignore_errors=True)
            out.write(json.dumps([c["k"], r]) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
