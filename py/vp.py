#!/usr/bin/env python3
"""Runs the properties of one Python harness: vp.py HARNESS --id P35 --seed 1 --out result.json --replays DIR --work DIR

Every property is a Hypothesis test over generated inputs, run in a process of its own; Hypothesis shrinks a failure and
the minimal inputs go to the replay file.  A case that does not return within CASE_SECONDS of processor time, or a property
that makes no progress for STUCK_SECONDS, counts as a failure.
A harness with UNPRIVILEGED = True runs as user nobody in a scratch directory of its own.
"""
import argparse
import collections
import hashlib
import importlib
import importlib.util
import json
import multiprocessing
import os
import pathlib
import queue as _queue
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

ROOT = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("VP_REPO", "/repo"))
sys.path[:0] = [str(REPO / "src"), str(ROOT / "stubs"), str(ROOT)]
sys.dont_write_bytecode = True
CASE_SECONDS = 20
STUCK_SECONDS = 240
NOBODY = 65534
PROPS = []


class Timeout(BaseException):
    pass


class Context:
    """What a property may say about the case that is running."""

    def __init__(self):
        self.labels = collections.Counter()
        self.samples = []
        self.cases = 0
        self.discards = 0
        self.nontrivial_cases = 0
        self.distinct = set()
        self.begin("")

    def begin(self, text):
        self.text, self.is_nontrivial, self.case_labels = text, False, set()

    def label(self, name):
        self.case_labels.add(name)

    def nontrivial(self, condition=True):
        self.is_nontrivial = self.is_nontrivial or bool(condition)

    def end(self):
        self.cases += 1
        self.labels.update(self.case_labels)
        if self.is_nontrivial:
            self.nontrivial_cases += 1
            self.distinct.add(hashlib.blake2b(self.text.encode("utf-8", "replace"), digest_size=8).digest())
            if len(self.samples) < 5 and len(self.text) < 400:
                self.samples.append(self.text)


def prop(quick, thorough, **strategies):
    """Declares a property: a function (context, **generated inputs) which asserts."""
    def add(function):
        PROPS.append((function.__name__, quick, thorough, strategies, function))
        return function
    return add


def show(inputs):
    import numpy as np
    with np.printoptions(precision=17, threshold=60):
        return ", ".join("%s=%r" % kv for kv in inputs.items())


def run_one(name, count, strategies, function, seed, pid, progress):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    warnings.simplefilter("ignore")
    ctx = Context()
    state = {"last": "", "timeout": False}
    result = {"name": name, "planned": count, "failed": False, "flaky": False, "replay": "", "msg": "", "note": ""}

    def on_alarm(*_):
        raise Timeout()

    signal.signal(signal.SIGPROF, on_alarm)

    def case(**inputs):
        text = show(inputs)
        ctx.begin(text)
        state["begun"] = text
        progress.value = time.time()
        signal.setitimer(signal.ITIMER_PROF, CASE_SECONDS)
        try:
            function(ctx, **inputs)
        except hypothesis.errors.UnsatisfiedAssumption:
            ctx.discards += 1
            raise
        except Timeout:
            state["timeout"] = True
            raise
        except BaseException as e:
            # Hypothesis replays the minimal case last, so the last failure seen is the one to report
            if isinstance(e, (Exception, SystemExit)) and not isinstance(e, hypothesis.errors.StopTest):
                # with interactive data the draws are part of the text
                state["last"] = ctx.text
                state["trace"] = traceback.format_exc()
                state["error"] = "%s: %s" % (type(e).__name__, str(e)[:1500])
                if isinstance(e, SystemExit):
                    raise AssertionError("the code called exit()") from e
            raise
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.end()

    test = given(**strategies)(case)
    test = hypothesis.seed(int(hashlib.sha256(("%s/%s/%d" % (pid, name, seed)).encode()).hexdigest()[:12], 16))(test)
    test = settings(max_examples=count, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), derandomize=False,
                    phases=(Phase.generate, Phase.target, Phase.shrink))(test)
    begin = time.time()
    try:
        test()
    except Timeout:
        result.update(failed=True, msg="the call did not return within %d s" % CASE_SECONDS)
        state["last"], state["trace"], state["error"] = state["begun"], "", result["msg"]
    except BaseException as e:
        if "error" in state:
            result.update(failed=True, msg=state["error"])
            result["flaky"] = type(e).__name__ in ("Flaky", "FlakyFailure", "FlakyReplay")
        else:
            result["broken"] = traceback.format_exc()
    if result["failed"]:
        result["report"] = "property %s, check %s, seed %d\nminimal inputs: %s\nfailure: %s\n\n%s\n" % (
            pid, name, seed, state["last"], state["error"], state["trace"])
        result["note"] = state["last"][:2000]
    result.update(cases=ctx.cases, discards=ctx.discards, nontrivial=ctx.nontrivial_cases, distinct=len(ctx.distinct),
                  labels=dict(ctx.labels), samples=ctx.samples, seconds=round(time.time() - begin, 2))
    return result


def child(queue, k, scratch, unprivileged, *args):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        os.chdir(scratch)
        os.environ["TMPDIR"] = os.environ["HOME"] = os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = scratch
        import hypothesis  # noqa: F401 (before the privileges go)
        if unprivileged:
            os.chown(scratch, NOBODY, NOBODY)
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        sys.stdin = open(os.devnull)
        # whatever the code under test prints goes to a file of the scratch directory
        out = open("output.txt", "w", errors="replace")
        os.dup2(out.fileno(), 1)
        sys.stdout = sys.stderr = out
        queue.put((k, run_one(*args)))
    except BaseException:
        queue.put((k, {"name": args[0], "broken": traceback.format_exc()}))
    # threads that the code under test left behind do not keep the process
    queue.close()
    queue.join_thread()
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("harness")
    ap.add_argument("--id")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--replays")
    ap.add_argument("--work")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--only", default="")
    args = ap.parse_args()
    os.chdir(args.work)
    sys.modules["vp"] = sys.modules["__main__"]
    spec = importlib.util.spec_from_file_location("harness", args.harness)
    module = importlib.util.module_from_spec(spec)
    try:
        spec.loader.exec_module(module)
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        if not any(f.filename.startswith(str(REPO)) for f in frames):
            raise
        PROPS[:] = [("importing", 1, 1, {}, None)]
        text = traceback.format_exc()
        path = pathlib.Path(args.replays) / (args.id + "-importing.txt")
        path.write_text(text)
        print(text)
        pathlib.Path(args.out).write_text(json.dumps({"props": [dict(
            name="importing", planned=1, cases=1, discards=0, nontrivial=0, distinct=0, failed=True, flaky=False, replay=str(path),
            msg="the module does not import: %r" % e, note="", labels={}, samples=[])]}))
        return 1
    unprivileged = getattr(module, "UNPRIVILEGED", False)
    ctx = multiprocessing.get_context("fork")
    queue = ctx.Queue()
    todo, running, results = [], {}, {}
    for k, (name, quick, thorough, strategies, function) in enumerate(PROPS):
        if args.only and args.only not in name:
            continue
        count = max(1, int((thorough if args.thorough else quick) * args.scale))
        todo.append((k, name, count, strategies, function, args.seed, args.id, ctx.Value("d", 0.0)))
    order = [t[0] for t in todo]
    todo.reverse()
    while todo or running:
        while todo and len(running) < 8:
            t = todo.pop()
            scratch = tempfile.mkdtemp(prefix="vp-py-", dir="/tmp" if unprivileged else None)
            t[-1].value = time.time()
            p = ctx.Process(target=child, args=(queue, t[0], scratch, unprivileged, *t[1:]))
            p.start()
            running[t[0]] = (p, t, scratch)
        try:
            k, r = queue.get(timeout=1)
            results[k] = r
            p, t, scratch = running.pop(k)
            p.join()
            shutil.rmtree(scratch, ignore_errors=True)
        except _queue.Empty:
            for k, (p, t, scratch) in list(running.items()):
                if time.time() - t[-1].value > STUCK_SECONDS:
                    p.kill()
                    p.join()
                    running.pop(k)
                    shutil.rmtree(scratch, ignore_errors=True)
                    msg = "a call did not return within %d s" % STUCK_SECONDS
                    results[k] = dict(name=t[1], planned=t[2], cases=0, discards=0, nontrivial=0, distinct=0, labels={}, samples=[],
                                      seconds=0.0, failed=True, flaky=False, replay="", msg=msg, note="", report=msg)
                elif not p.is_alive() and queue.empty():
                    p.join()
                    time.sleep(0.2)
                    if not queue.empty():
                        continue
                    running.pop(k)
                    shutil.rmtree(scratch, ignore_errors=True)
                    results[k] = {"name": t[1], "broken": "the process ended with status %s" % p.exitcode}
    props = [results[k] for k in order]
    bad = [p for p in props if "broken" in p]
    for p in bad:
        print("check %s could not run:\n%s" % (p["name"], p["broken"]))
    for p in props:
        if "broken" not in p:
            print("  %-44s %7d cases %7d distinct non-trivial %6d discards %6.1f s %s" % (
                p["name"], p["cases"], p["distinct"], p["discards"], p["seconds"], "FAILED" if p["failed"] else ""))
    if bad:
        return 3
    for p in props:
        if p["failed"]:
            path = pathlib.Path(args.replays) / ("%s-%s.txt" % (args.id, p["name"]))
            path.write_text(p.pop("report"))
            p["replay"] = str(path)
    pathlib.Path(args.out).write_text(json.dumps({"props": props}))
    return 1 if any(p["failed"] for p in props) else 0


if __name__ == "__main__":
    sys.exit(main())
