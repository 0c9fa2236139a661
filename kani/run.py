#!/usr/bin/env python3
"""run.py C16 [quick|thorough] [--only NAME] | --replay FILE : decides C16 with Kani.

Every harness goes to cvc5 (which shares equal terms) and to cadical (which is quick to
find counterexamples) at once; the first verdict counts. A counterexample is run natively."""
import json, os, random, re, signal, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SOLVERS = ["cvc5", "cadical"]
ARGS = {  # argument widths
    "sequence": [64, 64], "default_stream": [64], "streams_apart": [64, 64, 64], "wide": [32, 32],
    "unit_f64": [32, 32], "unit_f32": [32], "unit_pcg": [64, 64], "kept": [64, 64],
}
ENCODES = {
    "sequence": "Pcg32::{with_stream,next_u32} against the published generator; every seed and stream",
    "default_stream": "Pcg32::new; every seed",
    "streams_apart": "Pcg32::with_stream, PartialEq; every seed and pair of streams",
    "wide": "RandomSource::next_u64; every pair of words",
    "unit_f64": "RandomScalar for f64; every pair of words, bit-precise doubles",
    "unit_f32": "RandomScalar for f32; every word, bit-precise",
    "unit_pcg": "next_unit of Pcg32<f64> and Pcg32<f32>; every seed and stream",
    "kept": "get_cache, set_cache, standard_normal from a kept draw; every seed and bit pattern",
}
env = dict(os.environ, CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR"):
    env.pop(k, None)


def native(name, args):
    r = subprocess.run([f"{ROOT}/target/release/pcg_replay", name] + [str(a) for a in args], capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr).strip()


def build():
    r = subprocess.run(["cargo", "build", "--release", "-q", "--offline", "--manifest-path", f"{HERE}/Cargo.toml"],
                       env=dict(env, RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=f"{ROOT}/target"), capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[-3000:], file=sys.stderr)
        print("kani crate does not build against /repo", file=sys.stderr)
        sys.exit(2)


def start(proof, solver):
    return subprocess.Popen(["cargo", "kani", "--target-dir", f"{ROOT}/target/kani-{solver}", "--harness", proof, "--exact",
                             "--solver", solver, "-Z", "concrete-playback", "--concrete-playback=print"],
                            cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def decide(proof, limit):
    """(verdict, solver, output)"""
    t0 = time.time()
    ps = {s: start(proof, s) for s in SOLVERS}
    import threading
    text = {}
    def drain(s, p):
        text[s] = p.communicate()[0]
    th = {s: threading.Thread(target=drain, args=(s, p), daemon=True) for s, p in ps.items()}
    for t in th.values():
        t.start()
    seen = set()
    verdict = ("unknown", "", "")
    while time.time() - t0 < limit and len(seen) < len(SOLVERS):
        time.sleep(0.05)
        for s in SOLVERS:
            if s in seen or th[s].is_alive():
                continue
            seen.add(s)
            o = text[s]
            if "VERIFICATION:- SUCCESSFUL" in o:
                verdict = ("holds", s, o)
            elif "VERIFICATION:- FAILED" in o and "CBMC failed" not in o and "timed out" not in o:
                verdict = ("fails", s, o)
            else:
                verdict = verdict if verdict[0] != "unknown" else ("unknown", s, o)
            if verdict[0] in ("holds", "fails"):
                seen = set(SOLVERS)
                break
    for p in ps.values():
        stop(p)
    for t in th.values():
        t.join(5)
    return verdict


def main():
    if sys.argv[1] == "--replay":
        build()
        w = next(l.split()[1:] for l in open(sys.argv[2]) if l.startswith("case "))
        rc, out = native(w[0], w[1:])
        print(out)
        sys.exit(rc)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("--") else "quick"
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    t0 = time.time()
    build()
    src = open(f"{HERE}/src/lib.rs").read()
    proofs = re.findall(r"fn ((?:quick|deep)_\w+)\(\)", src)
    proofs = [p for p in proofs if (p.startswith("quick_") or tier == "thorough") and (not only or p.endswith(only))]
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    rc, rep, sol_s, tot, dis, traces, samples = 0, [], 0.0, 0, 0, 0, []
    steps = vccs = 0
    for p in proofs:
        name = p.split("_", 1)[1]
        t1 = time.time()
        v, s, out = decide("proofs::" + p, 240 if tier == "quick" else 400)
        num = lambda pat: (lambda m: int(m.group(1)) if m else 0)(re.search(pat, out))
        n = num(r"\*\* \d+ of (\d+) failed")
        bad = num(r"\*\* (\d+) of \d+ failed")
        tot += n
        dis += n - bad
        steps += num(r"size of program expression: (\d+) steps")
        vccs += num(r"Generated (\d+) VCC")
        m = re.search(r"Verification Time: ([\d.]+)s", out)
        sol_s += float(m.group(1)) if m else 0
        # the same statement natively, on a few inputs
        for _ in range(6):
            a = [rng.getrandbits(w) for w in ARGS[name]]
            c, o = native(name, a)
            traces += 1
            if c == 0 and len(samples) < 16:
                samples.append(f"{name} {a}")
            if c and v == "holds":
                print(f"INCONCLUSIVE {name}: a native run disagrees: {o}")
                rc = max(rc, 2)
        rep.append({"harness": p, "encodes": ENCODES[name], "mode": "CBMC bit-precise", "verdict": v, "solver": s, "checks": n,
                    "wall_s": round(time.time() - t1, 2)})
        print(f"[{prop}] {p}: {v} by {s} ({n} checks) wall={time.time()-t1:.1f}s")
        if v == "unknown":
            if "error" in out and "Checking harness" not in out:
                print(out[-2000:], file=sys.stderr)
                print(f"INCONCLUSIVE {name}: kani gave no verdict")
                rc = max(rc, 2)
            else:
                print(f"BOUND {name}: no verdict within the time limit")
        if v == "fails":
            vals = [int.from_bytes(bytes(int(b) for b in m.split(",") if b.strip()), "little")
                    for m in re.findall(r"^\s*vec!\[([\d, ]+)\],?\s*$", out, re.M)][:len(ARGS[name])]
            c, o = native(name, vals)
            if c == 1:
                os.makedirs(f"{ROOT}/evidence/replay", exist_ok=True)
                path = f"{ROOT}/evidence/replay/{prop}-{name}.txt"
                with open(path, "w") as f:
                    f.write(f"property {prop}\nharness {name}\ncase {name} {' '.join(map(str, vals))}\n{o}\n# replay with: bash {ROOT}/check.sh --replay {path}\n")
                print(f"VIOLATION property={prop} replay={path}")
                print(f"  {o}")
                rc = 1
            else:
                print(f"INCONCLUSIVE {name}: counterexample {vals} did not reproduce natively")
                rc = rc or 2
    wall = round(time.time() - t0, 2)
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
               "coverage": {"states": steps, "transitions": vccs, "traces_validated_against_impl": traces, "obligations": tot, "discharged": dis,
                            "solver_s": round(sol_s, 2),
                            "explanation": "states = steps of the bounded symbolic execution by CBMC, transitions = verification conditions it generated; obligations are the assertion and safety checks decided for every input",
                            "samples": samples, "harnesses": rep}, "wall_s": wall}, open(f"{ROOT}/evidence/{prop}.json", "w"), indent=1)
    if rc == 0:
        print(f"OK property={prop} harnesses={len(proofs)} obligations={tot} wall={wall}s")
    sys.exit(rc)


main()
