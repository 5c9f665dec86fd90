"""Confirms planted changes in a scratch copy of /repo, bind-mounted over /repo in a private namespace.

plant.py confirm ID...   builds, runs the stable tests and the demonstration with and without the change
plant.py check ID [P..]  runs the quick check of its property (or the given ones) with the change
plant.py repo CMD        runs a command with the scratch copy in place of /repo"""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("PLANT_COPY", "/tmp/pl")
OUT = "/tmp/pl-out" if S == "/tmp/pl" else S + "-out"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def inside(cmd, cwd="/repo", env=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd %s && %s" % (S, cwd, cmd)],
                          capture_output=True, text=True, env=e)


def reset():
    if not os.path.isdir(S):
        sh("cp -a /repo %s" % S)
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD && git -C %s clean -fdq" % (S, S, S))


def apply(i):
    reset()
    p = os.path.join(V, "seeded", i, "patch.diff")
    r = sh("git -C %s apply %s" % (S, p))
    if r.returncode:
        sys.exit("%s: patch does not apply: %s" % (i, r.stderr))


def passed(x):
    if isinstance(x, dict):
        for k in ("passed", "stable", "pass"):
            if k in x:
                return set(x[k])
    return set(x)


def confirm(i):
    apply(i)
    os.makedirs(OUT, exist_ok=True)
    d = os.path.join(V, "seeded", i, "demo.sh")
    b = inside("bash /opt/vp/build.sh")
    if b.returncode:
        print(i, "DOES NOT BUILD", b.stderr[-1500:])
        return False
    r = inside("bash %s" % d)
    if r.returncode == 0:
        print(i, "DEMO PASSES WITH CHANGE", r.stdout[-300:], r.stderr[-300:])
        return False
    demo = (r.stdout + r.stderr)[-200:].strip()
    inside("bash /opt/vp/test.sh %s/out.json" % OUT)
    base = passed(json.load(open("/opt/vp/BASELINE.json")))
    got = passed(json.load(open(OUT + "/out.json")))
    lost = base - got
    if lost:
        print(i, "TESTS FAIL", len(lost), sorted(lost)[:4])
        return False
    reset()
    r = inside("bash %s" % d)
    if r.returncode:
        print(i, "DEMO FAILS WITHOUT CHANGE", r.stdout[-1500:], r.stderr[-1500:])
        return False
    print(i, "confirmed:", demo.split("\n")[-1])
    return True


def check(i, props):
    apply(i)
    if not props:
        props = [json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]]
    for p in props:
        r = inside("python3-vt check.py %s quick" % p, cwd=V, env={"VF_BUILD": OUT + "/build", "VF_EVID": OUT + "/evidence"})
        v = [l for l in r.stdout.split("\n") if l.startswith(("violation", "VIOLATION", "ERROR", "Traceback"))]
        last = r.stdout.strip().split("\n")[-1] if not v else ""
        und = sum(1 for l in r.stdout.split("\n") if l.startswith("UNDECIDED"))
        print(i, p, "exit", r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED", "; ".join(x[:200] for x in v), last,
              "undecided %d" % und if und else "", r.stderr[-500:], flush=True)
    reset()


if __name__ == "__main__":
    if sys.argv[1] == "confirm":
        for i in sys.argv[2:]:
            confirm(i)
    elif sys.argv[1] == "check":
        ids = [a for a in sys.argv[2:] if os.path.isdir(os.path.join(V, "seeded", a))]
        for i in ids:
            check(i, [a for a in sys.argv[2:] if a not in ids])
    else:
        r = inside(" ".join(sys.argv[2:]))
        print(r.stdout, r.stderr)
