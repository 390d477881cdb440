#!/usr/bin/env python3
"""specmut.py [N] [SEED] [WORKERS] [OUT]: damage the specification and see whether the traces of the unchanged crate notice.

A damaged rule that every recorded trace still satisfies is a rule that the scenarios do not exercise (or a change
that means the same).  Survivors are printed; look at them and extend harness/src/gen.rs or the generators.
Works in a scratch copy under /tmp/specmut; /verif is only read.
"""
import os, re, sys, json, random, shutil, subprocess, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/specmut"
FILES = {  # module -> properties whose quick traces should notice
    "PerfDecode.tla": ["C04", "C03", "C01", "C05", "C11", "C17", "C18", "C12", "C13", "C16", "C14"],
    "PerfAbi.tla": ["C04", "C03", "C05", "C02", "C18", "C12", "C13", "C11", "C01", "C20"],
    "PerfParser.tla": ["C16", "C17", "C11", "C14", "C02", "C13", "C01"],
    "PerfBytes.tla": ["C03", "C04", "C18", "C16", "C01", "C20"],
    "PerfText.tla": ["C20"],
    "PerfSource.tla": ["C21"],
}
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SHARDS = 8


def mutants(path):
    out = []
    text = open(path).read()
    depth_lines = text.split("\n")
    inc = False
    for i, l in enumerate(depth_lines):
        s = l.split("\\*")[0]
        if s.strip().startswith("(*") or s.strip().startswith("---") or s.strip().startswith("EXTENDS"):
            continue
        if re.match(r"^\s*\S.*\*\)\s*$", s) and "(*" not in s:
            continue
        def sub(pat, rep):
            for m in re.finditer(pat, s):
                r = rep(m) if callable(rep) else m.expand(rep)
                out.append((i, s[:m.start()] + r + s[m.end():]))
        for a, b in [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" = ", " # "), (r" # ", " = "),
                     (r" \+ ", " - "), (r" - ", " + "), (r" /\\ (?=\S)", r" \\/ "), (r" \\/ (?=\S)", r" /\\ "),
                     (r"\bTRUE\b", "FALSE"), (r"\bFALSE\b", "TRUE"), (r" ~", " "), (r'"Eof"', '"InvalidRecord"'),
                     (r'"InvalidRecord"', '"Eof"'), (r'"UnsupportedConfig"', '"InvalidRecord"'),
                     (r'"UnsupportedData"', '"InvalidRecord"'), (r" \\cup \{[^}]*\}", ""), (r"Min2", "Max2"), (r"\\A ", r"\\E "),
                     (r"\\E ", r"\\A "), (r"Append\(", "Flip(")]:
            if b == "Flip(":
                continue
            sub(a, b)
        sub(r"IF ([^I]*?) THEN", lambda m: f"IF ~({m[1]}) THEN")
        sub(r"(?<![\w\".#])(\d+)(?![\w\"])", lambda m: str(int(m[1]) + 1))
        sub(r"(?<![\w\".#])([1-9]\d*)(?![\w\"])", lambda m: str(int(m[1]) - 1))
    return [(i, n) for i, n in dict.fromkeys(out) if n.rstrip() != depth_lines[i].split("\\*")[0].rstrip()]


def check(d, prop, k):
    meta = f"{d}/meta"
    try:
        p = subprocess.run(["java", "-XX:+UseSerialGC", "-Xss64m", "-Xmx3g", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
                            "-metadir", meta, "-config", "PerfTrace.cfg", "PerfTrace.tla"], cwd=d,
                           env=dict(os.environ, TRACE=f"{W}/traces/{prop}-{k}.jsonl", LENS=prop),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        out = p.stdout
    except subprocess.TimeoutExpired:
        return "timeout"
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    if "REJECT" in out:
        return "killed"
    if "FINISHED" in out:
        return "alive"
    return "stillborn" if "arsing or semantic analysis failed" in out or "Parse" in out else "error"


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 100
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    workers = int(sys.argv[3]) if len(sys.argv) > 3 else 4
    outp = sys.argv[4] if len(sys.argv) > 4 else W + "/out"
    only = sys.argv[5].split(",") if len(sys.argv) > 5 else list(FILES)
    os.makedirs(W + "/traces", exist_ok=True)
    sys.path.insert(0, V + "/bin")
    conform = V + "/build/target/debug/conform"
    for p in sorted({p for f in only for p in FILES[f]}):
        for k in range(SHARDS):
            t = f"{W}/traces/{p}-{k}.jsonl"
            if not os.path.exists(t):
                subprocess.run([conform, "run", "--prop", p, "--seed", "1", "--scale", "1", "--shard", f"{k}/{SHARDS}",
                                "--out", t] + (["--events"] if p == "C21" else []), check=True)
    ms = [(f, i, l) for f in only for i, l in mutants(f"{V}/spec/{f}")]
    random.Random(seed).shuffle(ms)
    print(len(ms), "mutants")
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            x = json.loads(l)
            done.add((x["f"], x["line"], x["new"]))
    q = queue.Queue()
    for f, i, l in ms:
        if (f, i + 1, l.strip()) not in done and q.qsize() < n:
            q.put((f, i, l))
    lock = threading.Lock()
    fo = open(outp, "a")

    def work(w):
        d = f"{W}/{w}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(V + "/spec", d)
        while True:
            try:
                f, i, l = q.get_nowait()
            except queue.Empty:
                return
            lines = open(f"{V}/spec/{f}").read().split("\n")
            old = lines[i]
            lines[i] = l
            open(f"{d}/{f}", "w").write("\n".join(lines))
            res = "alive"
            for k in range(SHARDS):
                for p in FILES[f]:
                    res = check(d, p, k)
                    if res != "alive":
                        break
                if res != "alive":
                    break
            shutil.copy(f"{V}/spec/{f}", f"{d}/{f}")
            with lock:
                fo.write(json.dumps(dict(f=f, line=i + 1, old=old.strip(), new=l.strip(), res=res)) + "\n")
                fo.flush()
                if res == "alive":
                    print(f"{f}:{i + 1}: {old.strip()}\n    -> {l.strip()}", flush=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
