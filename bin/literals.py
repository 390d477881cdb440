"""Numbers and strings written in the code under test, for the input generator.

A special case is easiest to hit with the value it is written for, so the
generator draws some of its values from here (as fuzzers do with a dictionary).
What is new since harness/literals.json (the literals of the tree this was
built for) is drawn most often.  This only chooses inputs: what is right is
decided by the specification, whatever the code looks like.
"""
import glob, json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.path.join(V, "harness", "literals.json")
NUM = r"(?:0x[0-9A-Fa-f_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|size))?"
TOKEN = re.compile(r"//[^\n]*|/\*.*?\*/|b?'(?:\\.[^']*|[^\\'])'|b?\"(?:\\.|[^\"\\])*\"|[A-Za-z_]\w*|" + NUM, re.S)
SUM = re.compile(rf"(?<![\w.])({NUM})\s*(<<|\+|-|\*)\s*({NUM})(?![\w.])")


def number(s):
    s = re.sub(r"[iu](8|16|32|64|size)$", "", s).replace("_", "")
    try:
        return int(s, 0) if not s.isdigit() else int(s)
    except ValueError:
        return None


def unescape(s):
    try:
        return re.sub(r"\\u\{(\w+)\}", lambda m: chr(int(m[1], 16)), s).encode("utf-8").decode("unicode_escape").encode("latin-1", "replace")
    except Exception:
        return b""


def named():
    """The kernel's constants by name."""
    names = {}
    for f in glob.glob(os.path.expanduser("~/.cargo/registry/src/*/perf-event-open-sys2-*/src/**/*.rs"), recursive=True):
        for m in re.finditer(r"pub const (\w+)\s*:\s*[\w:]+\s*=\s*(-?\d+)", open(f, errors="replace").read()):
            names.setdefault(m[1], int(m[2]))
    return names


def scan(repo):
    """{file: {literal: occurrences}}; a literal is "n<number>" or "s<hex>"."""
    names, res = named(), {}
    for f in sorted(glob.glob(os.path.join(repo, "src", "**", "*.rs"), recursive=True)):
        text = open(f, errors="replace").read().split("#[cfg(test)]\nmod ")[0]
        c = {}

        def add(k):
            c[k] = c.get(k, 0) + 1

        for m in TOKEN.finditer(text):
            t = m[0]
            if t[0] == "/":
                continue
            if t.endswith('"'):
                s = unescape(t[t.index('"') + 1:-1])
                if 0 < len(s) <= 40:
                    add("s" + s.hex())
            elif t.endswith("'"):
                s = unescape(t[t.index("'") + 1:-1])
                if len(s) == 1:
                    add(f"n{s[0]}")
            elif t[0].isdigit():
                n = number(t)
                if n is not None:
                    add(f"n{n % 2**64}")
            elif t in names:
                add(f"n{names[t] % 2**64}")
            elif t in ("MAX", "MIN"):
                before = text[max(0, m.start() - 8):m.start()]
                k = re.search(r"([iu])(8|16|32|64|size)::$", before)
                if k:
                    b = 64 if k[2] == "size" else int(k[2])
                    lo, hi = (0, 2**b - 1) if k[1] == "u" else (2**(b - 1), 2**(b - 1) - 1)
                    add(f"n{hi if t == 'MAX' else lo}")
        for m in SUM.finditer(re.sub(r"//[^\n]*", "", text)):
            a, b = number(m[1]), number(m[3])
            if a is not None and b is not None and not (m[2] == "<<" and b > 63):
                add(f"n{({'<<': a << min(b, 64), '+': a + b, '-': a - b, '*': a * b}[m[2]]) % 2**64}")
        res[os.path.relpath(f, repo)] = c
    return res


def hints(repo, path):
    now, base = scan(repo), json.load(open(BASE))
    new, every = set(), set()
    for f, c in now.items():
        every |= set(c)
        new |= {k for k in c if c[k] > base.get(f, {}).get(k, 0)}
    # literals that only moved to another file are not new
    total = lambda t, k: sum(c.get(k, 0) for c in t.values())
    new = {k for k in new if total(now, k) > total(base, k)}
    with open(path, "w") as f:
        for k in sorted(new):
            f.write(f"new {k}\n")
        for k in sorted(every - new):
            f.write(f"old {k}\n")


if __name__ == "__main__":
    json.dump(scan("/repo"), open(BASE, "w"), indent=0, sort_keys=True)
