#!/usr/bin/env python3
"""corrupt.py PROP [SEED]: does validation notice?

Records a shard of the scenarios of PROP on /repo, damages one leaf of one call in every session (a number, a flag, a
word of an error kind or debug text), validates, and prints how many damaged sessions were accepted, by the place
of the damage.  Places that the lens of PROP does not compare are accepted, all others have to be rejected."""
import json, os, random, subprocess, sys, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop = sys.argv[1]
seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
rnd = random.Random(seed)
w = f"/tmp/corrupt-{prop}-{os.getpid()}"
os.makedirs(w)
subprocess.run([V + "/build/target/debug/conform", "run", "--prop", prop, "--seed", str(seed), "--scale", "2", "--shard",
                f"{seed % 8}/8", "--out", w + "/a"] + (["--events"] if prop == "C21" else []), check=True, stdout=subprocess.DEVNULL)
lines = [json.loads(l) for l in open(w + "/a")]
NOT = {"open", "pop", "clone", "clear", "close"}
ARGS = {"op", "t", "n", "w", "h", "q", "script", "sup", "mem", "vs"}


def leaves(x, path):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + [k])
    elif isinstance(x, list):
        if len(x) >= 2 and isinstance(x[0], str) and path[0] in ("cp", "vs", "loc", "ev"):
            x = [None, *x[1:]]      # labels stay
        if len(path) == 2 and path[0] == "vs":
            x = [None] + [None if isinstance(y, str) else y for y in x[1:]]
        for i, v in enumerate(x):
            yield from leaves(v, path + [i])
    elif x is not None:
        yield path


def change(x, path):
    for k in path[:-1]:
        x = x[k]
    v = x[path[-1]]
    if isinstance(v, bool):
        x[path[-1]] = not v
    elif isinstance(v, int):
        x[path[-1]] = v + rnd.choice([1, -1]) if v > 0 else v + 1
    elif isinstance(v, str):
        x[path[-1]] = {"Eof": "InvalidRecord"}.get(v, "Eof") if path[0] == "k" else v + "x"
    return v


sessions, cur = [], []
for i, l in enumerate(lines):
    if l["op"] == "open":
        cur = []
        sessions.append((i, cur))
    elif l["op"] not in NOT:
        cur.append(i)
done, where = {}, {}
for o, calls in sessions:
    if not calls or (lines[o]["ref"] == "set"):
        continue
    i = rnd.choice(calls)
    ls = [p for k in lines[i] if k not in ARGS or (lines[i]["op"] in ("again", "owned") and k == "vs")
          for p in leaves(lines[i][k], [k]) if p[-1] != "t"]
    if not ls:
        continue
    # choose the kind of place first, so that long byte strings do not crowd out the rest
    kinds = collections.defaultdict(list)
    for p in ls:
        kinds[tuple(k for k in p if isinstance(k, str))].append(p)
    kind = rnd.choice(list(kinds))
    p = rnd.choice(kinds[kind])
    if p == ["ok"]:
        # a success is turned into a failure
        if not lines[i]["ok"] or any(lines[j]["op"] in ("again", "owned") for j in calls):
            continue
        lines[i] = {k: v for k, v in lines[i].items() if k not in ("v", "loc", "cp", "dbg")}
        lines[i].update(ok=False, k="Eof", c=[], txt="", p=-1)
    else:
        change(lines[i], p)
    where[o + 1] = i
    done[o + 1] = (lines[i]["op"],) + kind
with open(w + "/b", "w") as f:
    for l in lines:
        f.write(json.dumps(l) + "\n")
out = subprocess.run(["java", "-XX:+UseSerialGC", "-Xss64m", "-Xmx3g", "-cp",
                      "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
                      "-workers", "1", "-noGenerateSpecTE", "-metadir", w + "/m", "-config", "PerfTrace.cfg", "PerfTrace.tla"],
                     cwd=V + "/spec", env=dict(os.environ, TRACE=w + "/b", LENS=prop), text=True, stdout=subprocess.PIPE).stdout
rej = {json.loads(json.loads(l)[7:])["open"] for l in out.splitlines() if l.startswith('"REJECT ')}
if "FINISHED" not in out:
    print("validation stopped:", "\n".join(l for l in out.splitlines() if "rror" in l or "attempt" in l.lower() or l.startswith("line "))[:1500])
if "FINISHED" not in out:
    sys.exit(1)
tot, miss = collections.Counter(), collections.Counter()
for o, k in done.items():
    tot[k] += 1
    if o not in rej:
        miss[k] += 1
print(f"{prop}: {len(done)} damaged sessions, {len(rej & set(done))} rejected, undamaged rejected: {len(rej - set(done))}")
for k, n in sorted(miss.items()):
    print("   accepted", n, "of", tot[k], "at", "/".join(k))
if len(sys.argv) > 3:
    for o, k in done.items():
        if o not in rej and "/".join(k) == sys.argv[3]:
            print(o, where[o] + 1 - o, {x: lines[o - 1][x] for x in ("note", "src", "nat", "al", "ref", "cuts", "hint")},
                  json.dumps(lines[where[o]])[:300], json.dumps([{x: y for x, y in l.items() if x in ("op", "t", "n", "ok")} for l in lines[o:where[o]]])[:400])
subprocess.run(["rm", "-rf", w])
