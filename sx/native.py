"""Runs harnesses on the real, uninstrumented code with given inputs.

`python -m sx.native` reads jobs (JSON lines) on stdin and answers each on
stdout; `run_one` is also what replay.py uses."""
import importlib
import json
import os
import sys
import threading
import traceback

from . import api


def load(prop):
    return importlib.import_module('props.%s' % prop.lower())


def in_thread(fn):
    """Call fn in a thread of its own, so that it starts from a fresh context."""
    out = []

    def body():
        try:
            out.append((True, fn()))
        except BaseException as ex:
            out.append((False, ex))
    t = threading.Thread(target=body)
    t.start()
    t.join()
    ok, v = out[0]
    if ok:
        return v
    raise v


def run_one(prop, harness, case, inputs):
    """(outcome, message, observed, known)"""
    mod = load(prop)
    h = [h for h in mod.HARNESSES if h.name == harness][0]
    n = api.set_native(api.Native(inputs))
    try:
        in_thread(lambda: h.fn(*case))
    except api.ReplayViolation as ex:
        return dict(outcome='violation', message=str(ex), observed=n.observed, known=n.known, trace='')
    except api.ReplayDiverged as ex:
        return dict(outcome='diverged', message=str(ex), observed=n.observed, known=n.known, trace='')
    except Exception as ex:
        return dict(outcome='exception', message='%s: %s' % (type(ex).__name__, ex), observed=n.observed,
                    known=n.known, trace=traceback.format_exc())
    return dict(outcome='held', message='', observed=n.observed, known=n.known, trace='')


def detuple(x):
    return tuple(detuple(y) for y in x) if isinstance(x, list) else x


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        job = json.loads(line)
        try:
            r = run_one(job['property'], job['harness'], detuple(job['case']), job['inputs'])
        except BaseException:
            r = dict(outcome='error', message=traceback.format_exc(), observed=[], known=[], trace='')
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
