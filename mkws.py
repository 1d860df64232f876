#!/usr/bin/env python3
"""Shadow cargo workspace for the harness: /repo's Cargo.toml minus the members
that need network dependencies, beside symlinks into /repo. Nothing is written
outside /verif/.build."""
import os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
W, R = os.path.join(HERE, ".build", "ws"), os.environ.get("VERIF_REPO", "/repo")
KEEP = ["number", "constraint-solver", "expression", "riscv-elf", "riscv-types",
        "isa-utils", "syscalls", "autoprecompiles", "openvm-bus-interaction-handler"]
os.makedirs(W, exist_ok=True)
text = open(f"{R}/Cargo.toml").read()
def members(m):
    items = re.findall(r'"([^"]+)"', m.group(2))
    keep = [i for i in items if i in KEEP]
    return m.group(1) + "[\n" + "".join(f'  "{i}",\n' for i in keep) + "]"
text = re.sub(r'(?ms)^(members\s*=\s*)\[(.*?)\]', members, text, count=1)
dst = f"{W}/Cargo.toml"
if not os.path.exists(dst) or open(dst).read() != text:
    open(dst, "w").write(text)
for n in KEEP + ["openvm-riscv"]:
    p = f"{W}/{n}"
    if not os.path.islink(p):
        os.symlink(f"{R}/{n}", p)
