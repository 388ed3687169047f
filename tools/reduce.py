#!/usr/bin/env python3
"""reduce.py REPLAY-OR-PROGRAM PATTERN: deletes tokens and lines while `exec` still prints PATTERN
(a regular expression), or, with PATTERN '@diff', while the three modes disagree. A debugging aid."""
import sys, re, subprocess, tempfile, os
from concurrent.futures import ThreadPoolExecutor
B = os.environ.get("FC", "/verif/build/target/debug/ferlium-check")
env = dict(os.environ, RUST_BACKTRACE="0", FERLIUM_STD_CACHE_DIR="/verif/build/stdcache")
text = open(sys.argv[1]).read()
if "--- case ---\n" in text:
    text = text.split("--- case ---\n", 1)[1]
pat = sys.argv[2]
import threading
local = threading.local()
def server():
    if not hasattr(local, "p"):
        local.p = subprocess.Popen([B, "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True, errors="replace")
        local.f = tempfile.mktemp(suffix=".fer")
    return local.p
def answer(t):
    p = server()
    open(local.f, "w").write(t)
    p.stdin.write(local.f + "\n"); p.stdin.flush()
    out = []
    while True:
        l = p.stdout.readline()
        if not l or l.startswith("\x01END"): break
        out.append(l)
    return "".join(out)
def bad(t):
    out = answer(t)
    if pat == "@diff":
        if "panicked" in out: return False
        m = re.findall(r"^(?:Hir|Mir|Opt): (.*)$", out, re.M)
        return len(m) == 3 and len(set(m)) > 1 and "limit" not in out
    return re.search(pat, out) is not None
assert bad(text), "does not reproduce"
pool = ThreadPoolExecutor(8)
def toks(t): return re.findall(r'"(?:\\.|[^"\\])*"|\w+|\s+|.', t, re.S)
def join(ts): return "".join(ts)
def match_close(ts, i):
    o = {"{": "}", "(": ")", "[": "]"}; d = 0
    for j in range(i, len(ts)):
        if ts[j] in "{([" and len(ts[j]) == 1: d += 1
        if ts[j] in "})]" and len(ts[j]) == 1:
            d -= 1
            if d == 0: return j
    return None
def candidates(ts):
    n = len(ts)
    seen = set()
    def emit(c):
        t = join(c)
        if t not in seen and t != join(ts):
            seen.add(t); return [c]
        return []
    # balanced regions: drop, keep inside, replace by simple values
    spans = [(i, j) for i in range(n) if ts[i] in ("{", "(", "[") for j in [match_close(ts, i)] if j]
    spans.sort(key=lambda s: s[0] - s[1])
    for i, j in spans:
        yield from emit(ts[:i] + ts[j+1:])
        for rep in (["0"], ["()"], ["false"], ['""'], ts[i+1:j]):
            yield from emit(ts[:i] + list(rep) + ts[j+1:])
    size = n // 2
    while size >= 1:
        for i in range(0, n, max(1, size // 2 if size > 1 else 1)):
            yield from emit(ts[:i] + ts[i+size:])
        size //= 2
    for i, j in spans:  # call to hole: name(...) -> value
        if i > 0 and re.match(r"\w", ts[i-1]):
            for rep in ("0", "()", "false", '""', "[]"):
                yield from emit(ts[:i-1] + [rep] + ts[j+1:])
lines = text
changed = True
while changed:
    changed = False
    # lines first
    ls = text.split("\n"); size = len(ls) // 2
    while size >= 1:
        i = 0
        while i < len(ls):
            c = [ls[:k] + ls[k+size:] for k in range(i, min(len(ls), i + 8 * size), size)]
            rs = list(pool.map(lambda c: bad("\n".join(c)), c))
            if any(rs):
                ls = c[rs.index(True)]; changed = True
            else: i += 8 * size
        size //= 2
    text = "\n".join(ls)
    ts = toks(text)
    gen = candidates(ts)
    while True:
        batch = [c for _, c in zip(range(16), gen)]
        if not batch: break
        rs = list(pool.map(lambda c: bad(join(c)), batch))
        if any(rs):
            ts = batch[rs.index(True)]; gen = candidates(ts); changed = True
    text = join(ts)
    print(len(text), file=sys.stderr)
print(re.sub(r"\n\s*\n+", "\n", text)); sys.stdout.flush(); os._exit(0)
