"""Helper processes: the same operations under another string-hash seed."""
import json
import os
import subprocess
import sys

from . import seams

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def text(value):
    """Printed text, where it does not contain addresses."""
    try:
        s = repr(value)
    except Exception as e:
        return "raises " + type(e).__name__
    return None if " at 0x" in s else s


def main(ctx):
    """Reads {op, pool} lines, writes outcomes."""
    real_in, real_out = sys.stdin, sys.__stdout__
    sys.stdout = open(os.devnull, "w")
    for line in real_in:
        req = json.loads(line)
        out = []
        for op in req["ops"]:
            exp = ctx.oracle.expected(op, req["pool"], trace=False, with_text=True)
            out.append([exp.outcome, exp.text, exp.hung])
        real_out.write(json.dumps(out) + "\n")
        real_out.flush()


class Helper:
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([sys.executable, os.path.join(VERIF, "sim", "worker.py"), "serve"], env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def ask(self, ops, pool):
        self.p.stdin.write(json.dumps({"ops": ops, "pool": pool}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("helper process died")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
