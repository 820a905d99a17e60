#!/usr/bin/env python3
"""Mutation sweep: how much of what a change can break do the checks notice?

  tools/mutate.py OUT.jsonl WORKERS COUNT SEED [FILE-PREFIX ...]

Each worker owns a copy of /verif (with its build output) and of /repo under /tmp/mw/K. A mutant is
one small edit of one line of a source file. Mutants that do not compile or fail a stable test are
set aside; the others are given to the checks of that file. Nothing here is used by any check.
"""
import json
import os
import random
import re
import subprocess
import sys
import threading

STABLE = {t.split("::", 1)[1] for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
CHECKS = {
    "src/matrix/mod.rs": "C01 C04 C02 C03 C16 C07 C09",
    "src/matrix/buffer.rs": "C01 C02 C07 C08 C04",
    "src/matrix/graph.rs": "C05 C09",
    "src/matrix/inverse.rs": "C07 C06 C11",
    "src/matrix/norm.rs": "C04",
    "src/matrix/sparse.rs": "C02 C03 C04 C08 C09 C10",
    "src/matrix/solve/direct.rs": "C08 C09 C06 C10",
    "src/matrix/solve/eigen.rs": "C10 C15",
    "src/matrix/solve/iterative.rs": "C09 C14",
    "src/matrix/solve/mod.rs": "C09 C10 C14",
    "src/element/constraint.rs": "C13 C14 C15",
    "src/element/element.rs": "C11 C12 C16 C14 C15 C24",
    "src/element/integrate.rs": "C17 C11 C12",
    "src/element/material.rs": "C11 C16 C18 C14 C20",
    "src/element/mod.rs": "C12 C13 C14 C15 C16 C30 C18 C24 C23",
    "src/element/strain.rs": "C11 C16 C14",
    "src/element/stress.rs": "C16",
    "src/file/": "C19 C18 C20 C27",
    "src/mesher/bounds.rs": "C23 C32 C20 C22 C21 C28 C29 C31 C27",
    "src/mesher/mod.rs": "C21 C22 C23 C20",
    "src/mesher/plane.rs": "C22 C21 C23 C28 C29 C31 C27",
    "src/visual/": "C24 C25",
    "src/spatial/": "C26 C24 C13 C21 C33",
    "src/main.rs": "C27",
}
OPS = [
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r" -= ", " += "),
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "), (r" > ", " < "),
    (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
    (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b1\b(?!\.)", "2"), (r"\b2\b(?!\.)", "1"), (r"\b3\b(?!\.)", "2"),
    (r"\b0\.0\b", "1.0"), (r"\b1\.0\b", "0.0"), (r"\b2\.0\b", "2.02"), (r"\b(\d+\.\d*[1-9]\d*)\b", r"(\1 * 1.01)"), (r"\b(\d+e-?\d+)\b", r"(\1 * 1000.0)"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\.0\b(?!\.)", ".1"), (r"\.1\b(?!\.)", ".0"), (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\[2\]", "[1]"),
    (r"\.\.=", ".."), (r"(?<!\.)\.\.(?![.=])(?=[\w(])", "..="),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.max_by\(", ".min_by("), (r"\.min_by\(", ".max_by("),
    (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"\.rev\(\)", ""), (r"\.abs\(\)", ""), (r"\.sqrt\(\)", ""),
    (r"\bif ([^{]+?) \{$", r"if true || \1 {"), (r"\bif (?!let)([^{]+?) \{$", r"if false && (\1) {"), (r"!(?=[\w(])", ""),
    (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\bSome\(", "None.or("), (r"\.skip\(1\)", ""), (r"\.unwrap_or\(", ".xor(None).unwrap_or("),
    (r"\b([a-z_]+)\.(row|col)\(", lambda m: f"{m[1]}.{'col' if m[2] == 'row' else 'row'}("),
    (r"\((\w+), (\w+)\)", r"(\2, \1)"), (r"\.cos\(\)", ".sin()"), (r"\.sin\(\)", ".cos()"), (r"-1\.0 \* ", ""),
    (r"^(\s+)(?=\S)(?!let |return|use |pub |//|impl|fn |\}|#)([^{}]+;)$", r"\1"), (r"\.filter\([^()]*\)", ""),
    (r"\b(x|y|i|j|a|b)\b", lambda m: {"x": "y", "y": "x", "i": "j", "j": "i", "a": "b", "b": "a"}[m[1]]),
    (r"\b([\w.\[\]()]+) == 0\.0\b", r"(\1 as f64).abs() < 1e-5"), (r"\b([\w.]+) != 0\.0\b", r"(\1 as f64).abs() > 1e-5"), (r"\.iter\(\)", ".iter().skip(1)"), (r" < 0\.0\b", " < -1e-5"), (r" > 0\.0\b", " > 1e-5"),
    (r"\.rev\(\)", ".clone()"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.insert\(", ".contains_key(&"),
]

# MUT_CLASS=caps: works until something has more than 64 (or 255) items
# MUT_CLASS=small: works until a value is small, large, or needs all its digits
EXPR = r"((?:[^;{}\[\]]|\[[^\[\]]*\])+)"
CLASSES = {
    "caps": [
        (r"(?<!into)(?<!\w)\.iter\(\)", ".iter().take(64)"), (r"(?<=\w)\.iter\(\)", ".iter().take(64)"), (r"\.into_iter\(\)", ".into_iter().take(64)"), (r"\.iter_mut\(\)", ".iter_mut().take(64)"),
        (r"\b0\.\.([\w.]+(?:\(\))?)", r"0..(\1).min(64)"), (r"\.len\(\)", ".len().min(200)"), (r"\bas usize\b", "as u8 as usize"),
        (r"^(\s*)([\w.]+)\.push\((.*)\);$", r"\1if \2.len() < 200 { \2.push(\3); }"), (r"^(\s*)([\w.]+)\.insert\((.*)\);$", r"\1if \2.len() < 200 { \2.insert(\3); }"),
        (r"\.enumerate\(\)", ".enumerate().take(64)"), (r"\.zip\(", ".take(64).zip("), (r"\b(\d+)\.\.(\w+)\b", r"\1..(\2).min(64)"),
    ],
    "small": [
        (r"^(\s*)let (mut )?(\w+)(: f64)? = " + EXPR + ";$", r"\1let \2\3 = { let v: f64 = \5; if v.abs() < 1e-10 { 0.0 } else { v } };"),
        (r"^(\s*)let (mut )?(\w+)(: f64)? = " + EXPR + ";$", r"\1let \2\3 = { let v: f64 = \5; v.min(1e8).max(-1e8) };"),
        (r"^(\s*)let (mut )?(\w+)(: f64)? = " + EXPR + ";$", r"\1let \2\3 = { let v: f64 = \5; v as f32 as f64 };"),
        (r" (\+|-|\*|/)?= " + EXPR + ";$", r" \1= { let v: f64 = \2; if v.abs() < 1e-10 { 0.0 } else { v } };"),
        (r" (\+|-|\*|/)?= " + EXPR + ";$", r" \1= { let v: f64 = \2; v as f32 as f64 };"),
        (r" < ", " + 1e-10 < "), (r" > ", " - 1e-10 > "), (r" <= ", " - 1e-10 <= "), (r" >= ", " + 1e-10 >= "), (r" < ", " < 1e-10 + "), (r" > ", " > 1e-10 + "), (r" <= ", " <= -1e-10 + "), (r" >= ", " >= -1e-10 + "),
        (r"\b([\w.\[\]()]+) == ([\w.\[\]()]+)", r"(\1 - \2).abs() < 1e-10"), (r"\b([\w.\[\]()]+) != ([\w.\[\]()]+)", r"(\1 - \2).abs() > 1e-10"),
    ],
}
if os.environ.get("MUT_CLASS"):
    OPS = CLASSES[os.environ["MUT_CLASS"]]


def mutants(prefixes):
    out = []
    for top, _, names in os.walk("/repo/src"):
        for n in sorted(names):
            rel = os.path.relpath(os.path.join(top, n), "/repo")
            if not rel.endswith(".rs") or rel.endswith("tests.rs") or rel == "src/lib.rs" or rel == "src/spatial/hull.rs":
                continue
            if prefixes and not rel.startswith(tuple(prefixes)):
                continue
            lines = open(os.path.join("/repo", rel)).read().split("\n")
            for k, l in enumerate(lines):
                if re.match(r"\s*#\[cfg\(test\)\]", l) and "mod" in "".join(lines[k + 1:k + 2]):
                    break
                code = l.split("//")[0]
                if not code.strip() or re.match(r"\s*(use|#|pub mod|mod|//|eprintln|\"|panic!|impl|assert)", code) or "<" in code and "fn " in code:
                    continue
                seen = set()
                for pat, rep in OPS:
                    for m in re.finditer(pat, code):
                        new = code[:m.start()] + m.expand(rep) + code[m.end():] if isinstance(rep, str) else code[:m.start()] + rep(m) + code[m.end():]
                        if new != code and new not in seen:
                            seen.add(new)
                            out.append((rel, k, new))
    return out


def run(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, ""


def prepare(k):
    """fresh copies of /verif and /repo for one worker"""
    base = f"/tmp/mw/{k}"
    V, R = f"{base}/verif", f"{base}/repo"
    os.makedirs(base, exist_ok=True)
    os.makedirs(V, exist_ok=True)
    for d in os.listdir("/verif"):
        if d in (".git", "seeded", "evidence", "replays") or d == "build" and os.path.isdir(f"{V}/build"):
            continue
        subprocess.run(["cp", "-a", f"/verif/{d}", V + "/"], check=True)
    if os.path.isdir(R):
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
        subprocess.run(["git", "-C", R, "pull", "-q"], check=True)
    else:
        subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
    env = dict(os.environ, VERIF_REPO=R, MC_MEM_GB="5", MC_HANG_S="25", MC_THREADS="3", CARGO_BUILD_JOBS="2", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               CARGO_NET_OFFLINE="true", PATH="/root/.cargo/bin:" + os.environ["PATH"])
    return V, R, env


def stable(V, env):
    """None if the stable tests pass on the changed tree"""
    run(["python3", f"{V}/tools/mirror.py", "core"], V, env, 60)
    os.makedirs(f"{V}/build/core/test_generated", exist_ok=True)
    e2 = dict(env, CARGO_TARGET_DIR=f"{V}/build/target")
    rc, out = run(["cargo", "test", "--offline", "--lib", "--", "--test-threads", "3"], f"{V}/build/core", e2, 240)
    ok = set(re.findall(r"^test (\S+)(?: - should panic)? \.\.\. ok", out, re.M))
    if rc == -9 or "running " in out and not STABLE <= ok:
        return "tests"
    if "running " not in out:
        return "nocompile"


def worker(k, todo, log, lock):
    V, R, env = prepare(k)
    while True:
        with lock:
            if not todo:
                return
            rel, ln, new = todo.pop()
        path = f"{R}/{rel}"
        orig = open(path).read()
        lines = orig.split("\n")
        old = lines[ln]
        lines[ln] = new
        open(path, "w").write("\n".join(lines))
        res = None
        try:
            core = not rel.startswith(("src/file/", "src/mesher/", "src/main.rs"))
            if core:
                res = stable(V, env)
            if res is None:
                checks = next(v for p, v in CHECKS.items() if rel.startswith(p)).split()
                errors = []
                for c in checks:
                    rc, out = run(["./check", c], V, env, 400)
                    if rc == 1 and f"VIOLATION property={c}" in out:
                        res = f"killed {c}"
                        break
                    if rc == 2 and "cannot build" in out:
                        res = "nocompile"
                        break
                    if rc != 0:
                        errors.append(f"{c}:{rc}")
                if res is None:
                    res = "SURVIVED" + (" " + " ".join(errors) if errors else "")
        finally:
            open(path, "w").write(orig)
        with lock:
            log.write(json.dumps(dict(file=rel, line=ln + 1, old=old.strip(), new=new.strip(), result=res)) + "\n")
            log.flush()


def main():
    out, workers, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    ms = mutants(sys.argv[5:])
    print(len(ms), "mutants possible")
    random.Random(seed).shuffle(ms)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    ms = [m for m in ms if (m[0], m[1] + 1, m[2].strip()) not in done][:count]
    log, lock = open(out, "a"), threading.Lock()
    ts = [threading.Thread(target=worker, args=(k, ms, log, lock)) for k in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
