"""CLI: check / replay / selftest.

    python -m sim.runner check C01 [--tier quick|thorough] [--cases N]
    python -m sim.runner replay replays/C01-....json
    python -m sim.runner selftest [C01 ...]
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

from sim import execcase, shrink as shrinkmod  # noqa: E402

FINDINGS = os.path.join(VERIF, "known_findings.jsonl")


def load(pid):
    return importlib.import_module(f"props.{pid.lower()}")


def make_case(prop, seed, index):
    rng = random.Random(f"{seed}:{prop.ID}:{index}")
    case = prop.gen(rng, index)
    case.setdefault("simseed", rng.getrandbits(40))
    if "sched" not in case:
        case["sched"] = gen_sched(rng)
    return json.loads(json.dumps(case))


def gen_sched(rng):
    """Swarm-style: which schedule disturbances are on is itself drawn per case."""
    s = {"dt": rng.choice((0.0, 1e-4, 0.001, 0.01))}
    if s["dt"] and rng.random() < 0.35:
        s["jump_p"] = rng.choice((0.01, 0.1))
    if rng.random() < 0.5:
        s["gc_p"] = rng.choice((0.01, 0.1))
    if rng.random() < 0.35:
        s["stall_p"] = rng.choice((0.1, 0.5))
    return s


def _chunk(args):
    pid, seed, idxs, deadline = args
    prop = load(pid)
    out = []
    for i in idxs:
        if time.monotonic() > deadline:
            break
        case = make_case(prop, seed, i)
        res = execcase.run_stable(prop, case)
        res["index"] = i
        res["casehash"] = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
        res["case"] = case if res["verdict"] != "ok" or i < 3 else None
        out.append(res)
        if res["verdict"] == "violation":
            break
    return out


def known_findings(pid):
    if not os.path.exists(FINDINGS):
        return []
    out = []
    with open(FINDINGS) as f:
        for line in f:
            line = line.strip()
            if line and not line.startswith("fixed:"):
                d = json.loads(line)
                if d.get("property") == pid and "match" in d:
                    out.append(d)
    return out


def matches_finding(f, res):
    m = f["match"]
    return res["kind"] == m["kind"] and m.get("msg", "") in (res["msg"] or "")


def check(pid, tier, ncases=None, jobs=None):
    prop = load(pid)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    n = ncases or (prop.QUICK if tier == "quick" else prop.THOROUGH)
    jobs = jobs or min(8, os.cpu_count() or 1)
    cap = 420.0 if tier == "quick" else 3 * 3600.0
    t0 = time.monotonic()
    print(f"property={pid} tier={tier} VERIF_SEED={seed} cases={n} jobs={jobs}", flush=True)
    idxs = list(range(n))
    csize = max(1, min(25, n // (jobs * 4) or 1))
    work = [(pid, seed, idxs[i:i + csize], t0 + cap) for i in range(0, n, csize)]
    results, bad = [], None
    import toffee  # noqa: F401  (load once, children inherit)

    toffee_path = os.path.dirname(os.path.abspath(toffee.__file__))
    finds = known_findings(pid)
    seen_finding = {}
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(jobs) as pool:
        for out in pool.imap(_chunk, work):
            for res in out:
                results.append(res)
                if res["verdict"] == "violation":
                    hit = next((f for f in finds if matches_finding(f, res)), None)
                    if hit is not None:
                        seen_finding[hit["id"]] = hit
                    elif bad is None:
                        bad = res
                elif res["verdict"] != "ok" and (bad is None or bad["verdict"] != "violation"):
                    bad = bad or res
            if bad is not None:
                break
        pool.terminate()
    wall = time.monotonic() - t0
    for f in finds:
        print(f"KNOWN-FINDING: property={pid} {f['what']}")
    ok = [r for r in results if r["verdict"] == "ok"]
    evidence(prop, tier, seed, n, results, wall, toffee_path, bad)
    print(f"ran {len(results)}/{n} cases, {sum(r['steps'] for r in results)} DUT steps, "
          f"{len({r['digest'] for r in ok})} distinct histories, {wall:.1f} s")
    if bad is not None and bad["verdict"] == "violation":
        path = report(prop, bad, seed)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if bad is not None:
        print(f"HARNESS-ERROR {bad['verdict']} {bad['kind']}: {bad['msg']} (case index {bad['index']})")
        return 2
    if len(results) < n:
        # the wall cap ended the batch: what was explored is clean, the evidence says how much
        if len(results) < min(n, 50):
            print("HARNESS-ERROR too few cases were run within the wall cap")
            return 2
    return 0


def report(prop, res, seed):
    case, kind = res["case"], res["kind"]
    runs = 0
    if kind not in ("hang", "crash"):
        case, runs = (case, 0) if os.environ.get("VERIF_NO_SHRINK") else shrinkmod.shrink(prop, case, kind)
        final = execcase.run_forked(prop, case)
    else:
        final = res
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{prop.ID}-{seed}-{res['index']}.json")
    doc = {
        "property": prop.ID, "verif_seed": seed, "index": res["index"], "kind": kind,
        "msg": final["msg"], "digest": final["digest"], "case": case, "original_case": res["case"],
        "shrink_runs": runs, "trace_tail": final["trace"],
    }
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    print(f"violation kind={kind} seed={seed} case={res['index']} (minimised in {runs} runs)")
    print(f"  {final['msg']}")
    print("  minimised case: " + json.dumps(case)[:1500])
    return path


def evidence(prop, tier, seed, n, results, wall, toffee_path, bad):
    faults, probes, sigs = {}, {}, set()
    for r in results:
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
        sigs.update(r["sig"])
    distinct = {r["digest"] for r in results if r["verdict"] == "ok" and r["nontrivial"]}
    samples = [{"index": r["index"], "case": r["case"], "history_sha1": r["digest"],
                "dut_steps": r["steps"], "loop_rounds": r["rounds"]}
               for r in results if r.get("case") is not None][:3]
    cov = {
        "evaluations": len(results),
        "distinct_nontrivial": len(distinct),
        "rule": prop.RULE,
        "samples": samples,
        "cases_planned": n,
        "runs_per_hour": round(len(results) / wall * 3600) if wall else 0,
        "distinct_cases_seeds": len({r["casehash"] for r in results}),
        "simulated_time_s": round(sum(r["vtime"] for r in results), 3),
        "simulated_dut_cycles": sum(r["steps"] for r in results),
        "event_loop_rounds": sum(r["rounds"] for r in results),
        "faults_injected": dict(sorted(faults.items())),
        "probes_hit": dict(sorted(probes.items())),
        "distinct_abstract_states": len(sigs),
        "distinct_abstract_states_measure": getattr(prop, "STATE_MEASURE", "states recorded by the property's sim.state()"),
        "real_components": "all of toffee imported from " + toffee_path
        + "; CPython asyncio tasks, futures, queues, events, locks, timeouts and run_until_complete",
        "stub_components": "DUT and pins (sim/dut.py), OS selector and wall clock (sim/core.py)",
    }
    doc = {
        "property": prop.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": [
            "asyncio's ready queue is FIFO (documented); the simulator varies what is put into it and when",
            "seeded sampling: a clean batch is evidence, not proof",
        ] + list(getattr(prop, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 3),
        "violations": 1 if bad is not None and bad["verdict"] == "violation" else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop.ID}.json"), "w") as f:
        json.dump(doc, f, indent=1)


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    prop = load(doc["property"])
    res = execcase.run_stable(prop, doc["case"])
    same = res["verdict"] == "violation" and res["kind"] == doc["kind"]
    exact = same and res["digest"] == doc["digest"]
    print(f"property={doc['property']} kind={res['kind']} verdict={res['verdict']} "
          f"same_violation={same} same_history={exact}")
    print(res["msg"])
    if res["trace"]:
        print("\n".join("  " + t for t in res["trace"][-25:]))
    if res["verdict"] == "violation":
        print(f"VIOLATION property={doc['property']} replay={path}")
        return 1
    return 0


def digests(pid, seed, count, start=0):
    prop = load(pid)
    out = []
    for i in range(start, start + count):
        r = execcase.run_stable(prop, make_case(prop, seed, i))
        out.append((i, r["verdict"], r["digest"], r["rounds"], r["steps"]))
    return out


def selftest(pids, count=40, seeds=(1, 2, 3)):
    """Same seeds under other hash seeds and process layouts: the histories must be identical."""
    import subprocess
    bad = 0
    for pid in pids:
        outs = []
        for hs in ("0", "1", "4242", "random"):
            env = dict(os.environ, PYTHONHASHSEED=hs)
            outs.append([subprocess.Popen(
                [sys.executable, "-m", "sim.runner", "digests", pid, "--seed", str(s), "--cases", str(count)],
                cwd=VERIF, env=env, stdout=subprocess.PIPE, text=True) for s in seeds])
        texts = [[p.communicate()[0] for p in row] for row in outs]
        same = all(t == texts[0] for t in texts) and all("[" in x for x in texts[0])
        print(f"{pid}: {'deterministic' if same else 'NOT DETERMINISTIC'} ({count * len(seeds)} cases x 4 interpreters)")
        if not same:
            bad += 1
            for row in texts[1:]:
                for a, b in zip(texts[0], row):
                    for la, lb in zip(a.splitlines(), b.splitlines()):
                        if la != lb:
                            print("  ", la, "!=", lb)
                            break
    return 1 if bad else 0


def all_ids():
    return sorted(f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "props"))
                  if f[0] == "c" and f[1:3].isdigit() and f.endswith(".py"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=("check", "replay", "selftest", "digests", "case"))
    ap.add_argument("what", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    if a.cmd == "check":
        return check(a.what[0], a.tier, a.cases, a.jobs)
    if a.cmd == "replay":
        return replay(a.what[0])
    if a.cmd == "digests":
        for d in digests(a.what[0], a.seed, a.cases or 40):
            print(list(d))
        return 0
    if a.cmd == "case":
        prop = load(a.what[0])
        case = make_case(prop, a.seed, int(a.what[1]))
        print(json.dumps(case))
        res = execcase.run_stable(prop, case)
        print(res["verdict"], res["kind"], res["msg"], res["probes"], res["faults"])
        return 0
    return selftest(a.what or all_ids(), a.cases or 40)


if __name__ == "__main__":
    sys.exit(main())
