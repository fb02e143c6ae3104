#!/usr/bin/env python3
"""C18: runs the native monitors and the exhaustive small histories under Miri; merges the evidence."""
import json, os, re, subprocess, sys, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tier = "quick"
native_args, replay_case = sys.argv[1:], None
if len(sys.argv) > 2 and sys.argv[1] == "--replay":
    m = re.search(r"^miri: (.*)$", open(sys.argv[2]).read(), re.M)
    if m:
        replay_case = m.group(1)
elif len(sys.argv) > 1 and sys.argv[1] == "thorough":
    tier = "thorough"
start = time.time()
target = os.path.join(here, "harness", "target")
BASE = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-data-race-detector -Zmiri-disable-weak-memory-emulation"

def miri(args, flags="", **kw):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(target, "miri"), MIRIFLAGS=(BASE + " " + flags).strip(), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    return subprocess.Popen(["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "--"] + [str(a) for a in args], cwd=os.path.join(here, "miri"), env=env, **kw)

def error_of(txt):
    m = re.search(r"^error: (Undefined Behavior: .*|unsupported operation: .*|abnormal termination: .*|.*)$", txt, re.M)
    return m.group(1) if m else None

def die(msg):
    print(msg, file=sys.stderr)
    sys.exit(2)

build = miri(["--case", 0, 1], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
if replay_case:
    out, err = build.communicate()
    p = miri(["--case"] + replay_case.split("|")[0].split(), replay_case.split("|")[1], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out, err = p.communicate()
    print(out.strip())
    if p.returncode != 0:
        print("  what: " + str(error_of(err)))
        print(f"VIOLATION property=C18 replay={sys.argv[2]}")
        sys.exit(1)
    sys.exit(0)
# the native half
r = subprocess.run([os.path.join(target, "release", "memory_safety")] + native_args, stdout=subprocess.PIPE, text=True)
print(r.stdout, end="")
if "--replay" in native_args:
    sys.exit(r.returncode)
if r.returncode not in (0, 1):
    sys.exit(r.returncode)
bad = r.returncode == 1
out, err = build.communicate()
if build.returncode != 0:
    die("the Miri build failed:\n" + err[-4000:])

# (bound, lean, flags, what it is)
plan = [(4, "lean", "", "Stacked Borrows")]
limit = 700
if tier == "thorough":
    plan = [(5, "full", "", "Stacked Borrows"), (4, "full", "-Zmiri-tree-borrows", "Tree Borrows")]
    limit = 3 * 3600
cases = steps = panics = 0
bounds, viol = [], []
for bound, lean, flags, name in plan:
    n = 8
    logs = os.path.join(target, "miri-logs")
    os.makedirs(logs, exist_ok=True)
    procs = []
    for i in range(n):
        o = open(os.path.join(logs, f"{i}.out"), "w")
        e = open(os.path.join(logs, f"{i}.err"), "w")
        procs.append(miri([i, n, bound, lean], flags, stdout=o, stderr=e, start_new_session=True))
    end = time.time() + limit
    res = []
    for i, p in enumerate(procs):
        try:
            res.append(p.wait(max(1, end - time.time())))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            res.append("timeout")
    for i, rc in enumerate(res):
        out = open(os.path.join(logs, f"{i}.out")).read()
        err = open(os.path.join(logs, f"{i}.err")).read()
        d = re.search(r"^DONE cases=(\d+) steps=(\d+) total=(\d+) panics=(\d+)", out, re.M)
        if rc == 0 and d:
            cases += int(d.group(1)); steps += int(d.group(2)); panics += int(d.group(4))
            continue
        at = re.findall(r"^@(\d+)$", out, re.M)
        if not at:
            die(f"shard {i} ended with {rc} before its first case:\n" + err[-3000:])
        no = int(at[-1])
        # confirm on its own: the same history must fail again
        args = ["--case", no, bound, lean]
        p = miri(args, flags, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        try:
            out, err = p.communicate(timeout=120)
            what = None if p.returncode == 0 else error_of(err) or f"the interpreter ended with {p.returncode}"
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out, err = p.communicate()
            what = "does not terminate"
        if what is None:
            die(f"shard {i} ended with {rc} at case {no}, which passes on its own")
        nm = re.search(r"^CASE \d+ (.*)$", out, re.M)
        viol.append((nm.group(1) if nm else f"case {no}", what, f"{no} {bound} {lean}|{flags}"))
    bounds.append(f"under Miri ({name}): every n-ary and binary tree shape with <= {bound} nodes and every collection with < {bound} nodes x every traversal, leaves/context/ancestors, child edit, abandonment point and transform" + (" (fewer edits and node types at the largest size)" if lean == "lean" else ""))
    if viol:
        break
ev = os.path.join(here, "evidence", "C18.json")
e = json.load(open(ev))
c = e["coverage"]
c["states"] += cases + steps
c["transitions"] += steps
c["traces_validated_against_impl"] += cases
c["executions_under_miri"] = cases
c["steps_under_miri"] = steps
c.setdefault("bounds", []).extend(bounds)
if viol:
    c["exhaustive"] = False
e["wall_s"] = round(time.time() - start, 3)
e["violations"] = e.get("violations", 0) + len(viol)
e["assumptions"] = e["assumptions"] + ["panics are not undefined behaviour and are left to the other checks"]
json.dump(e, open(ev, "w"))
print(f"property=C18 tier={tier} under Miri: executions={cases} steps={steps} panics={panics} violations={len(viol)} wall={e['wall_s']:.1f}s")
os.makedirs(os.path.join(here, "evidence", "replays"), exist_ok=True)
for i, (case, what, rep) in enumerate(viol[:5]):
    path = os.path.join(here, "evidence", "replays", f"C18-miri-{i}.txt")
    open(path, "w").write(f"property: C18\ntier: {tier}\ncase: {case}\nwhat: {what}\nmiri: {rep}\nreplay: /verif/check.sh C18 --replay {path}\n")
    print(f"  case: {case}\n  what: {what}\nVIOLATION property=C18 replay={path}")
sys.exit(1 if bad or viol else 0)
