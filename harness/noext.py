"""A helper process in which philtorch has been imported without its compiled extension."""
import json, os, subprocess, sys

_proc = None


def call(kind, P, args):
    """ask the helper of this process; returns [(label, view)]"""
    global _proc
    if _proc is None:
        _proc = (os.getpid(), subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True))
    p = _proc[1]
    p.stdin.write(json.dumps([kind, P, args]) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        _proc = None
        return [("import", {"err": "the package cannot be used without its extension (the process ended)"})]
    r = json.loads(line)
    if isinstance(r, str):
        raise RuntimeError(r)
    return [tuple(x) for x in r]


def stop():
    if _proc is not None and _proc[0] == os.getpid():
        _proc[1].stdin.close()
        _proc[1].wait(20)


def serve():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.modules["philtorch._C"] = None
    import traceback
    import torch
    torch.set_num_threads(1)
    import philtorch
    assert not philtorch.EXTENSION_LOADED
    from core import Recorder
    import p_stream, p_grad, p_help
    fns = {"c10": p_stream.noext_c10, "c11": p_grad.noext_c11, "c20": p_help.noext_c20}
    for line in sys.stdin:
        kind, P, args = json.loads(line)
        try:
            r = fns[kind](Recorder(P, "noext", 0), **args)
        except Exception:
            r = traceback.format_exc()
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    serve()
