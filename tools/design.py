"""Assembles DESIGN.md."""
import glob, json, os, re, subprocess
from oracles import ORACLE
def write(root, props):
    t = os.path.join(root, "tools")
    hs = {}
    for f in sorted(glob.glob(root + "/symex/h_*/src/*.rs")):
        for m in re.finditer(r'h!\(\s*"(C\d+)",\s*(\w+)[^,]*,\s*"((?:[^"\\]|\\.)*)"', open(f).read()):
            hs.setdefault(m[1], []).append((m[2], m[3]))
    out = [open(t + "/design_head.md").read().rstrip(), "", "## Properties", ""]
    na = []
    for p in sorted(props, key=lambda p: p["id"]):
        if "na" in p:
            na.append(f"* {p['id']} {p['title']}: {p['na']}")
            continue
        out += [f"### {p['id']} {p['title']}", "", p["statement"], "", ORACLE[p["id"]] + " " + p["level"].replace(p.get("_real", "\0"), ""), ""]
        for n, d in hs.get(p["id"], []):
            out.append(f"* `{n}`: {d}")
        if p["id"] == "C16":
            out.append("* `kani/src/lib.rs`: sequence, default_stream, streams_apart, wide, unit_f64, unit_f32, unit_pcg, kept (and deep_sequence)")
        out.append("")
    tail = open(t + "/design_tail.md").read()
    fixes = []
    for l in open(root + "/known_findings.txt"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        if m:
            fixes.append(f"* {m[1]} `{m[2]}`: {m[3]}")
    seeded = []
    notes = open(t + "/seeded.txt").read() if os.path.exists(t + "/seeded.txt") else ""
    tail = tail.replace("@FIXES@", "\n".join(fixes)).replace("@SEEDED@", notes.strip()).replace("@NA@", "\n".join(na) or "None.")
    open(root + "/DESIGN.md", "w").write("\n".join(out) + tail)
