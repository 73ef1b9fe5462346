#!/usr/bin/env python3
"""Runs the check of one property: python3 run.py <ID> [--thorough] [--scale X] [--only PROP] [--seed N]

Compiles the harness of the property against the current sources of /repo (VP_REPO overrides the path
for experiments), runs it, writes evidence/<ID>.json and replays/<ID>-*.  Exit status: 0 the property held on everything
explored, 1 it is violated (with a VIOLATION line), 2 the check itself could not run.
"""
import argparse
import concurrent.futures as cf
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("VP_REPO", "/repo"))
sys.path.insert(0, str(ROOT / "tools"))
from harnesses import HARNESSES  # noqa: E402

CXX = os.environ.get("VP_CXX", "g++")
FLAGS = ["-std=c++14", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
         "-fno-sanitize=nonnull-attribute", "-fno-omit-frame-pointer", "-w", "-include", "cstdint", "-include", "sys/types.h",
         "-I%s" % (REPO / "include"), "-I%s" % (ROOT / "cpp"), "-isystem", "/usr/include/eigen3", "-DBOOST_ALL_NO_LIB"]


def compile_all(h, build):
    """Compiles every translation unit in parallel, then links."""
    units = [(ROOT / "cpp" / "vp.cpp", [])]
    for u in h["units"]:
        units.append((ROOT / "cpp" / u, h.get("flags", [])))
    for u in h.get("repo", []):
        units.append((REPO / u, h.get("flags", [])))

    ros = ["-I%s" % (ROOT / "cpp" / "rosstubs")] if h.get("ros") else []

    def one(k):
        src, extra = units[k]
        obj = build / ("%d-%s.o" % (k, src.stem))
        r = subprocess.run([CXX, *FLAGS, *ros, *extra, "-c", str(src), "-o", str(obj)], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        return r.returncode, str(obj), r.stdout

    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(units))))
    for rc, obj, out in res:
        if rc != 0:
            sys.stdout.write(out[:4000])
            return None
    exe = build / "harness"
    r = subprocess.run([CXX, *FLAGS, *[o for _, o, _ in res], "-o", str(exe), *h.get("libs", []), "-lpthread"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        sys.stdout.write(r.stdout[:4000])
        return None
    return exe


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only", default="")
    ap.add_argument("--keep", action="store_true")
    args = ap.parse_args()
    t0 = time.time()
    thorough = args.thorough or os.environ.get("VERIF_TIER") == "thorough"
    tier = "thorough" if thorough else "quick"
    seed = args.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    h = HARNESSES[args.id]
    evidence = ROOT / "evidence"
    replays = ROOT / "replays"
    evidence.mkdir(exist_ok=True)
    replays.mkdir(exist_ok=True)
    for old in replays.glob(args.id + "-*"):
        old.unlink()
    work = pathlib.Path(tempfile.mkdtemp(prefix="vp-%s-" % args.id))
    try:
        out = work / "result.json"
        opts = ["--id", args.id, "--seed", str(seed), "--out", str(out), "--replays", str(replays),
                "--work", str(work / "w"), "--scale", str(args.scale)]
        if thorough:
            opts.append("--thorough")
        if args.only:
            opts += ["--only", args.only]
        (work / "w").mkdir()
        env = dict(os.environ, VP_REPO=str(REPO), OMP_NUM_THREADS="3", OMP_WAIT_POLICY="passive", GOMP_SPINCOUNT="0", PYTHONDONTWRITEBYTECODE="1", HOME=str(work), TMPDIR=str(work / "w"))
        if "py" in h:
            cmd = ["/opt/veriftools/pyvenv/bin/python3", str(ROOT / "py" / "vp.py"), str(ROOT / "py" / h["py"]), *opts]
        else:
            exe = compile_all(h, work)
            if exe is None:
                print("harness of %s does not compile against %s" % (args.id, REPO))
                return 2
            print("  compiled in %.1f s" % (time.time() - t0))
            sys.stdout.flush()
            if args.keep:
                shutil.copy(exe, ROOT / "replays" / (args.id + "-harness"))
            cmd = [str(exe), *opts]
        rc = subprocess.run(cmd, env=env, cwd=str(work / "w")).returncode
        if rc not in (0, 1) or not out.exists():
            print("harness of %s ended with status %s" % (args.id, rc))
            return 2
        res = json.loads(out.read_text())
    finally:
        if not args.keep:
            shutil.rmtree(work, ignore_errors=True)
    props = res["props"]
    failed = [p for p in props if p["failed"]]
    known = {}
    kf = ROOT / "known_findings.txt"
    if kf.exists():
        for line in kf.read_text().splitlines():
            if line.startswith("known: property=%s " % args.id):
                print("KNOWN-FINDING: property=%s %s" % (args.id, line.split(" ", 2)[2]))
    samples = []
    for p in props:
        samples += ["%s: %s" % (p["name"], s) for s in p["samples"][:2]]
    ev = dict(property=args.id, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=sum(p["cases"] for p in props),
                            distinct_nontrivial=sum(p["distinct"] for p in props),
                            rule=h["rule"], samples=samples or ["(no non-trivial case ran)"],
                            sub_properties=[{k: p[k] for k in ("name", "planned", "cases", "discards", "nontrivial",
                                                               "distinct", "labels", "failed", "flaky")} for p in props]),
              assumptions=h.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(failed))
    (evidence / (args.id + ".json")).write_text(json.dumps(ev, indent=1) + "\n")
    for p in failed:
        print("VIOLATION property=%s replay=%s" % (args.id, p["replay"]))
        print("    %s: %s" % (p["name"], p["msg"]))
    print("%s %s: %d cases, %d distinct non-trivial, %d violations, %.1f s" % (
        args.id, tier, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], len(failed),
        time.time() - t0))
    return 1 if failed else 0


if __name__ == "__main__":
    sys.exit(main())
