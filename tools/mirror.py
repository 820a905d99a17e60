#!/usr/bin/env python3
"""Mirror /repo into /verif/build/{core,full}, the crates the harnesses are compiled against.

/repo itself cannot be a path dependency: its Cargo.toml needs the unpublished sibling crate
`spacemath`, which is not here. The mirror is /repo's working tree verbatim except for:
  Cargo.toml     spacemath points at /verif/standin/spacemath; mcstd is added; profiles dropped
  *.rs           the path `std::collections` reads `mcstd::collections` (same API and contract, but
                 the explorer decides the iteration order), and `static` atomic counters become
                 mcstd's, which hold one value per execution; skipped with --std
  build.rs       turns on cfg(bugi_verif), the guard of the hooks in /repo
  core only      `mod file;`, `mod mesher;`, main.rs and cli.yml are left out, so that a compile
                 error there cannot silence the checks of the layers below
Files are rewritten only when their content changed, so cargo rebuilds incrementally.
"""
import os
import re
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def apart(use, items):
    """`use std::{a, collections::B}` as one import per item"""
    parts, depth = [""], 0
    for ch in items:
        depth += {"{": 1, "}": -1}.get(ch, 0)
        if ch == "," and depth == 0:
            parts.append("")
        else:
            parts[-1] += ch
    return " ".join(f"{use}std::{p.strip()};" if not p.strip().startswith("self") else f"{use}std;" for p in parts if p.strip())


def mirror(kind, std):
    out = f"{ROOT}/build/{kind}"
    skip = ("src/main.rs", "src/cli.yml", "src/file/", "src/mesher/") if kind == "core" else ()
    wanted = {}
    for top, _, names in os.walk(f"{REPO}/src"):
        for n in names:
            path = os.path.join(top, n)
            rel = os.path.relpath(path, REPO)
            if skip and rel.startswith(skip):
                continue
            data = open(path, "rb").read()
            if rel.endswith(".rs"):
                text = data.decode("utf-8", "surrogateescape")
                if kind == "core" and rel == "src/lib.rs":
                    text = re.sub(r"(?m)^\s*(pub(\([a-z]+\))?\s+)?mod\s+(file|mesher)\s*;", "", text)
                if not std:
                    text = re.sub(r"(?m)^([ \t]*(?:pub(?:\([a-z]+\))?[ \t]+)?use[ \t]+)(?:::)?std::\{(.*?)\};", lambda m: apart(*m.groups()), text, flags=re.S)
                    text = re.sub(r"\bstd::collections\b", "mcstd::collections", text)
                    text = re.sub(r"(\bstatic\s+\w+\s*:\s*)(?:::)?(?:\w+\s*::\s*)*(Atomic[UI](?:32|64|size))(\s*=\s*)"
                                  r"(?:::)?(?:\w+\s*::\s*)*\2\s*::\s*new\(", r"\1mcstd::atomic::\2\3mcstd::atomic::\2::new(", text)
                data = text.encode("utf-8", "surrogateescape")
            wanted[rel] = data
    m = open(f"{REPO}/Cargo.toml").read()
    m = re.sub(r"(?m)^spacemath\s*=.*$", 'spacemath = { path = "../../standin/spacemath" }\nmcstd = { path = "../../mcstd" }', m)
    m = re.sub(r"(?ms)^\[profile\..*?(?=^\[|\Z)", "", m)
    if kind == "core":
        m = re.sub(r'(?m)^name\s*=\s*"bugi"', 'name = "bugi_core"', m, count=1)
        m += '\n[lib]\nname = "bugi"\npath = "src/lib.rs"\n'
    m += "\n[profile.dev]\nopt-level = 2\ndebug-assertions = true\noverflow-checks = true\n"
    wanted["Cargo.toml"] = m.encode()
    # the hooks of /repo, without touching how anything else is built
    wanted["build.rs"] = b"""fn main() {
    println!("cargo:rustc-check-cfg=cfg(bugi_verif)");
    println!("cargo:rustc-cfg=bugi_verif");
    println!("cargo:rerun-if-changed=build.rs");
}
"""
    if kind == "full":
        wanted["Cargo.lock"] = open(f"{ROOT}/tools/cli.Cargo.lock", "rb").read()
    for rel, data in wanted.items():
        path = os.path.join(out, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if not os.path.exists(path) or open(path, "rb").read() != data:
            with open(path, "wb") as f:
                f.write(data)
    for top, _, names in os.walk(f"{out}/src"):
        for n in names:
            path = os.path.join(top, n)
            if os.path.relpath(path, out) not in wanted:
                os.remove(path)


if __name__ == "__main__":
    for k in [a for a in sys.argv[1:] if not a.startswith("-")]:
        mirror(k, "--std" in sys.argv)
