#!/usr/bin/env python3
"""check.py <property> : builds what the property needs from /repo's working tree, searches simulated executions, writes
evidence/<property>.json, and reports confirmed violations.   Environment: VERIF_SEED, VERIF_TIER (quick|thorough)."""
import glob, json, os, re, shutil, struct, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import buildlib
from checks import CHECKS

WORKERS = 8
PY = "/opt/vp/venv/bin/python"


def known_findings(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) class=(\S+) match=/(.*)/ :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append(dict(id=m.group(2), cls=m.group(3), sub=m.group(4), text=m.group(5)))
    return out


def confirm(prop, v, replays, outdir):
    """does the violation show again when its replay file, or failing that its seed, is executed in fresh processes?"""
    dst = os.path.join(replays, "%s-%s" % (prop, os.path.basename(v["replay"])))

    def keep(src, camp):
        shutil.copy(src, dst)
        with open(dst, "a") as f:
            f.write("# replay with: cd %s && ./replay.py %s %s\n" % (V, prop, dst))
            f.write("#campaign %s\n" % camp)

    def replay():
        full = v["cmd"][:v["prefix"]] + ["replay"] + v["cmd"][v["prefix"]:] + ["--file", dst]
        r = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=v["env"])
        v.setdefault("replay_rc", []).append(r.returncode)
        v["replay_out"] = r.stdout[-300:]
        return r.returncode == 1, ('"class":"%s"' % v["class"]) in r.stdout.replace('": "', '":"')

    keep(v["replay"], v["campaign"])
    v["path"] = dst
    res = [replay() for _ in range(2)]
    if all(e for e, _ in res):
        return True
    res += [replay() for _ in range(3)]
    if sum(c for _, c in res) >= 2:
        v["inexact"] = True
        return True
    for _ in range(2):  # the unminimised execution
        full = v["cmd"][:v["prefix"]] + ["worker"] + v["cmd"][v["prefix"]:] + [
            "--first", str(v["seed"]), "--stride", "1", "--max", "1", "--time", "60", "--out", outdir, "--id", "again", "--audit", "0", "--stop", "1"]
        r = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=v["env"])
        try:
            d = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception:
            continue
        for w in d["violations"]:
            if w["class"] == v["class"]:
                keep(w["replay"], v["campaign"])
                if sum(replay()[1] for _ in range(3)) >= 1:
                    v["inexact"] = True
                    return True
    return False


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[prop]
    t0 = time.time()
    kf = known_findings(prop)
    outdir = tempfile.mkdtemp(prefix="qddsim-")
    replays = os.path.join(V, "replays")
    os.makedirs(replays, exist_ok=True)
    tot = dict(runs=0, steps=0, audited=0, diverged=0)
    counters, samples, camps, div = {}, [], [], []
    confirmed, unconf = [], []
    hashes, states = set(), set()
    try:
        for ci, c in enumerate(spec["campaigns"]):
            b = buildlib.build(c["target"])
            cmd = [x.replace("{B}", b).replace("{PY}", PY).replace("{V}", V) for x in c["cmd"]]
            n = c["quick"] if tier == "quick" else c["quick"] * c.get("deep", 12)
            tmax = c.get("tmax", 60) if tier == "quick" else c.get("tmax_thorough", 400)
            if confirmed:
                break
            base = (seed % 1000003) * 1000000007 + ci * 7919 + 1
            tc = time.time()
            procs = []
            W = c.get("workers", WORKERS)
            env = dict(os.environ, **{k: v.replace("{B}", b) for k, v in c.get("env", {}).items()})
            env["SIM_KNOWN"] = "\n".join("%s\t%s" % (k["cls"], k["sub"]) for k in kf)
            px = c.get("prefix", 1)
            for i in range(W):
                full = cmd[:px] + ["worker"] + cmd[px:] + [
                    "--first", str(base + i), "--stride", str(W), "--max", str((n + W - 1) // W), "--time", str(tmax),
                    "--out", outdir, "--id", "%d-%d" % (ci, i), "--audit", str(c.get("audit", 12)), "--stop", "1"]
                procs.append(subprocess.Popen(full, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env))
            cruns, found = 0, []
            for pr in procs:
                so, se = pr.communicate()
                try:
                    d = json.loads(so.strip().splitlines()[-1])
                except Exception:
                    print("ERROR worker of campaign %s failed (rc %s): %s %s" % (c["name"], pr.returncode, so[-500:], se[-2000:]))
                    sys.exit(2)
                for k in tot:
                    tot[k] += d[k]
                cruns += d["runs"]
                if d["diverged"]:
                    div.append("%s:%s" % (c["name"], d["divseeds"]))
                for k, v in d["counters"].items():
                    counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
                if len(samples) < 6:
                    samples += [dict(campaign=c["name"], run=s) for s in d["samples"][:1]]
                for v in d["violations"]:
                    v["campaign"], v["cmd"], v["env"], v["prefix"] = c["name"], cmd, env, px
                    found.append(v)
            camps.append(dict(name=c["name"], runs=cruns, wall_s=round(time.time() - tc, 2), real=c["real"], stub=c["stub"]))
            for v in found:
                (confirmed if confirm(prop, v, replays, outdir) else unconf).append(v)
        for pat, s in (("hashes", hashes), ("states", states)):
            for f in glob.glob(os.path.join(outdir, pat + "-*")):
                data = open(f, "rb").read()
                s.update(struct.unpack("<%dQ" % (len(data) // 8), data))
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
    wall = time.time() - t0
    faults = {k: v for k, v in sorted(counters.items()) if k.startswith("fault_")}
    for k in kf:
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, k["text"], k["id"]))
    runwall = sum(c["wall_s"] for c in camps) or 1e-9
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "exploration"), wall_s=round(wall, 2), violations=len(confirmed),
              assumptions=spec.get("assumptions", []),
              coverage=dict(evaluations=tot["runs"], distinct_nontrivial=len(hashes), rule=spec["rule"], samples=samples or ["(no run)"],
                            simulated_runs_per_hour=int(tot["runs"] / runwall * 3600), seeds_per_hour=int(tot["runs"] / runwall * 3600),
                            simulated_steps=tot["steps"], simulated_time="logical steps only: the system has no clock; %d scheduler/operation steps" % tot["steps"],
                            faults_injected=faults, probes={k: v for k, v in sorted(counters.items()) if not k.startswith("fault_")},
                            distinct_states=len(states), state_measure=spec.get("state_measure", ""),
                            determinism_audits=tot["audited"], determinism_divergences=tot["diverged"], campaigns=camps,
                            known_findings=[k["id"] for k in kf], known_finding_hits=counters.get("known_finding_hits", 0),
                            unconfirmed=[dict(cls=v["class"], msg=v["msg"], seed=v["seed"], replays=v.get("replay_rc")) for v in unconf], diverged_seeds=div))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs, %d distinct, %d steps, faults %s, %.0f s" % (prop, tier, tot["runs"], len(hashes), tot["steps"], faults, wall))
    if confirmed:
        for v in confirmed:
            print("  [%s] %s (seed %s; operations %s -> %s)%s" % (v["class"], v["msg"], v["seed"], v.get("ops_before"), v.get("ops_after"), " (replay differs in detail)" if v.get("inexact") else ""))
        print("VIOLATION property=%s replay=%s" % (prop, confirmed[0]["path"]))
        sys.exit(1)
    for v in unconf:
        print("WARNING: not reported, because it did not show again in a fresh process: [%s] %s (seed %s, campaign %s; %s)" % (v["class"], v["msg"], v["seed"], v["campaign"], v.get("replay_out")))
    if div:
        print("WARNING: simulated executions diverged between two runs of one seed: %s" % "; ".join(div))
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except buildlib.BuildError as e:
        print("ERROR build: %s" % e)
        sys.exit(2)
