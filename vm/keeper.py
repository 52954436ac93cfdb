"""Another process, which is handed stored modules and runs them."""
import io
import os
import pickle
import struct
import subprocess
import sys
import traceback

import torch

_proc = {}


def _send(f, obj):
    b = pickle.dumps(obj)
    f.write(struct.pack("<q", len(b)) + b)
    f.flush()


def _receive(f):
    head = f.read(8)
    if len(head) < 8:
        return None
    return pickle.loads(f.read(struct.unpack("<q", head)[0]))


def elsewhere(blob, jobs):
    """Outputs of the jobs, run by another process on the module stored in `blob`."""
    pid = os.getpid()
    if _proc.get("pid") != pid:
        _proc["pid"] = pid
        _proc["p"] = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "vm.keeper"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p = _proc["p"]
    try:
        _send(p.stdin, (blob, jobs))
        return _receive(p.stdout)
    except OSError:
        return None


def close():
    if _proc.get("pid") == os.getpid():
        _proc.pop("p").stdin.close()
        _proc.clear()


def load(blob):
    """A module from its stored form."""
    how, b = blob
    return torch.load(io.BytesIO(b), weights_only=False) if how == "save" else pickle.loads(b)


def store(m, how):
    if how == "save":
        f = io.BytesIO()
        torch.save(m, f)
        return how, f.getvalue()
    return how, pickle.dumps(m, protocol=int(how[-1]))


@torch.no_grad()
def work(m, jobs):
    """Run calls on a module; returns the output frames of each."""
    from . import zoo
    outs = []
    for op, x in jobs:
        if op == "f":
            outs.append([zoo.fwd(m, x)])
        elif op == "c":
            m.clean_state()
            outs.append([])
        else:
            outs.append(zoo.call(m, op, x))
    return outs


def main():
    import logging
    import warnings
    warnings.filterwarnings("ignore")
    logging.disable(logging.WARNING)
    torch.set_num_threads(1)
    out, sys.stdout = sys.stdout.buffer, sys.stderr
    while True:
        got = _receive(sys.stdin.buffer)
        if got is None:
            return
        blob, jobs = got
        try:
            _send(out, ("ok", work(load(blob), jobs)))
        except BaseException:
            _send(out, ("error", traceback.format_exc()))


if __name__ == "__main__":
    main()
