#!/usr/bin/env python3
"""Decide one property of zigpy-cc with the TLA+ specification.

usage: check.py PROPERTY [--tier quick|thorough]
       check.py --replay FILE

1. TLC checks the specification of the part of the system the property is about
   (spec/*MC.tla) within the bounds of the tier.
2. TLC generates schedules/situations from the specification (spec/*Gen.tla).
3. The real code (from /repo's working tree) is run on these and on random
   scenarios (harness/*.py), and what it does is recorded.
4. TLC checks every recording against the specification (spec/*Trace.tla).

Exit 0: nothing breaks the property; 1: VIOLATION; 2: the machinery failed.
"""
import argparse
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vlib"))

from plan import CLAUSES, MODELS, PLAN, FINDING_CLAUSES  # noqa: E402

SPEC = os.path.join(HERE, "spec")
EVIDENCE = os.path.join(HERE, "evidence")
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4
TRACE_MODULE = {"wire": "WireTrace", "host": "HostTrace", "startup": "StartupTrace", "link": "LinkTrace"}


class Machinery(Exception):
    pass


def tlc(module, cfg, work, workers, env=None, mem="2g", timeout=800, extra=()):
    meta = tempfile.mkdtemp(prefix="meta", dir=work)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", "-Xss16m", "-Xmx" + mem, gc, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise Machinery("TLC took too long on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def with_constants(cfg, over, work):
    """The configuration with some constants replaced, as a file of its own."""
    text = open(os.path.join(SPEC, cfg)).read()
    for k, v in (over or {}).items():
        text, n = re.subn(r"\b%s = (\{[^}]*\}|\S+)" % re.escape(k), lambda _: "%s = %s" % (k, v), text)
        if n != 1:
            raise Machinery("no constant %s in %s" % (k, cfg))
    fd, path = tempfile.mkstemp(suffix=".cfg", dir=work)
    with os.fdopen(fd, "w") as f:
        f.write(text)
    return path


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)


def check_model(name, tier, work):
    m = MODELS[name]
    cfg = with_constants(m["cfg"], m.get(tier), work)
    t = time.time()
    rc, out = tlc(m["module"], cfg, work, CORES, mem="12g", timeout=m.get("timeout", 850 if tier == "quick" else 7200))
    if rc != 0 or "No error has been found" not in out:
        raise Machinery("the specification %s does not hold:\n%s" % (name, out[-3000:]))
    st, tr = counts(out)
    if st < 2:
        raise Machinery("the specification %s has no behaviour" % name)
    return {"model": name, "states": st, "transitions": tr, "wall_s": round(time.time() - t, 1),
            "constants": m.get(tier) or "as in spec/" + m["cfg"]}


# ---------------------------------------------------------------- schedules
def generate(gen, tier, seed, limit, work):
    """Schedules from the specification: a list of JSON lines."""
    over = dict(gen.get("over") or {})
    if tier == "thorough":
        over.update(gen.get("deep") or {})
    cfg = with_constants(gen["cfg"], over, work)
    rc, out = tlc(gen["module"], cfg, work, 4, mem="6g", timeout=850 if tier == "quick" else 3600)
    if rc != 0 or "No error has been found" not in out:
        raise Machinery("generating from %s failed:\n%s" % (gen["cfg"], out[-3000:]))
    found = set()
    for line in out.splitlines():
        if line.startswith('<<"SCHED"'):
            found.add(line[line.index(",") + 1: line.rindex(">>")].strip())
    found = [json.loads(x) for x in found]
    if gen["module"] == "HostGen":
        seqs = {tuple(json.dumps(x, sort_keys=True) for x in json.loads(js)) for js in found}
        shorter = {q[:i] for q in seqs for i in range(1, len(q))}
        leaves = sorted(q for q in seqs if q not in shorter)
        menu = gen["menu"]
        prod = int(re.search(r"Prod = (\d+)", open(cfg).read()).group(1))
        lines = ['{"menu": "%s", "prod": %d, "n": %d, "steps": [%s]}' % (menu, prod, n, ", ".join(q))
                 for n, q in enumerate(leaves)]
    else:
        lines = sorted(json.dumps(json.loads(x), sort_keys=True) for x in found)
    total = len(lines)
    if total == 0:
        raise Machinery("no schedules from %s" % gen["cfg"])
    if limit and total > limit:
        lines = random.Random("%s %s" % (seed, gen["cfg"])).sample(lines, limit)
    return {"gen": gen["cfg"], "reached": counts(out)[0], "schedules": total, "used": len(lines)}, lines


# ---------------------------------------------------------------- recordings
BAD = re.compile(r'<<\s*"(BAD|NOTE)",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', re.S)
OK = re.compile(r'<<\s*"OK",\s*(\d+)\s*>>')


def validate(family, path, work):
    """TLC's verdict on every recording: ({tid: (line, clauses)}, notes, number ok, states)"""
    lines = open(path).read().splitlines()
    bad, notes, good, states = {}, {}, set(), 0
    ids = list(range(1, len(lines) + 1))
    for _ in range(6):
        if not ids:
            break
        part = path + ".part"
        with open(part, "w") as f:
            f.write("\n".join(lines[i - 1] for i in ids) + "\n")
        module = TRACE_MODULE[family]
        rc, out = tlc(module, module + ".cfg", work, 1, env={"TRACES": part})
        st, _ = counts(out)
        states += st
        os.unlink(part)
        for kind, t, l, cl in BAD.findall(out):
            i = ids[int(t) - 1]
            cl = frozenset(re.findall(r'"([^"]*)"', cl))
            (bad if kind == "BAD" else notes)[i] = (int(l), cl)
        for t in OK.findall(out):
            good.add(ids[int(t) - 1])
        if "Finished in" in out and rc == 0 and "Error:" not in out:
            ids = [i for i in ids if i not in bad and i not in good]
            if ids:
                raise Machinery("recordings without a verdict: %s" % ids[:5])
            break
        # a recording the specification can not even read
        m = re.findall(r"\btid = (\d+)", out)
        if not m:
            raise Machinery("TLC failed on recordings:\n" + out[-3000:])
        i = ids[int(m[-1]) - 1]
        ln = re.findall(r"\bline = (\d+)", out)
        bad[i] = (int(ln[-1]) if ln else 0, frozenset(["uninterpretable"]))
        ids = [j for j in ids if j not in bad and j not in good]
    return bad, notes, good, len(lines), states


def run_shard(job, work):
    family, focus, seed, count, lines, n, only, limit = job
    base = os.path.join(work, "%s_%s_%s" % (family, focus, n))
    cmd = [PY, "-B", os.path.join(HERE, "harness", family + ".py"), focus, str(seed), str(count), base + ".jsonl"]
    if lines is not None:
        with open(base + ".sched", "w") as f:
            f.write("\n".join(lines) + "\n")
        cmd.append(base + ".sched")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    if only:
        env["ONLY"] = str(only)
    slow = False
    with open(base + ".err", "w") as err:
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=err, env=env, timeout=limit, text=True)
            rc, stdout = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            slow, rc, stdout = True, 0, ""
    errs = open(base + ".err").read()
    if rc != 0:
        raise Machinery("harness failed: %s\n%s" % (" ".join(cmd), errs[-3000:]))
    text = open(base + ".jsonl").read()
    if slow:  # drop a line which is not complete
        text = text[: text.rfind("\n") + 1]
        open(base + ".jsonl", "w").write(text)
    n = text.count("\n")
    if not slow and n != int(stdout.split()[-1]):
        raise Machinery("harness wrote %d recordings instead of %s" % (n, stdout))
    bad, notes, good, total, states = validate(family, base + ".jsonl", work)
    texts = text.splitlines()
    keep = {}
    for i in list(bad)[:40] + list(notes)[:3]:
        keep[i] = texts[i - 1]
    sample = texts[min(len(texts) - 1, 1)] if texts else ""
    if not bad and slow:
        raise Machinery("harness took too long: %s" % " ".join(cmd))
    os.unlink(base + ".jsonl")
    return dict(job=job, bad=bad, notes=notes, good=len(good), total=total, states=states, keep=keep,
                sample=sample, errs=errs)


def known_findings():
    """[(property, clause, text)] of the findings which are not repaired."""
    out = []
    for line in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"finding: property=(\S+) clause=(\S+) (.*)", line)
        if m:
            out.append(m.groups())
    return out


def short(line, upto=None):
    """A recording small enough to be read."""
    try:
        tr = json.loads(line)
    except ValueError:
        return line[:400]
    for k in ("ev", "steps"):
        if k in tr:
            if upto:
                tr[k] = tr[k][:upto]
            if len(json.dumps(tr)) > 2500:
                tr[k] = tr[k][:6] + ["... %d more" % max(0, len(tr[k]) - 6)]
    text = json.dumps(tr)
    return json.loads(text) if len(text) < 6000 else text[:1500]


def check(prop, tier, seed):
    t0 = time.time()
    plan = PLAN[prop]
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    deep = tier == "thorough"
    try:
        gens_out, jobs = [], []
        with cf.ThreadPoolExecutor(CORES) as ex:
            # schedules of the specification
            fut = []
            for run in plan["runs"]:
                for gen in run.get("gens", ()):
                    lim = None if deep and not gen.get("deep_limit") else (
                        gen["deep_limit"] if deep else gen["limit"])
                    fut.append((run, ex.submit(generate, gen, tier, seed, lim, work)))
            for run in plan["runs"]:
                shards = run.get("shards", 8)
                count = run["thorough" if deep else "quick"]
                for i in range(shards if count else 0):
                    jobs.append((run["family"], run["focus"], seed * 100 + i, count, None))
            for run, f in fut:
                info, lines = f.result()
                gens_out.append(info)
                per = max(200, min(8000, len(lines) // CORES + 1))
                for i in range(0, len(lines), per):
                    jobs.append((run["family"], run["focus"], seed * 100 + i // per, 0, lines[i:i + per]))
            jobs = [j + (n, None, 400 if not deep else 3000) for n, j in enumerate(jobs)]
            results = [f.result() for f in [ex.submit(run_shard, j, work) for j in jobs]]

        models = [check_model(m, tier, work) for m in plan["models"]]

        violations, other, notes = {}, {}, {}
        listed = {(p, c) for p, c, _ in known_findings()}
        for res in results:
            fam = res["job"][0]
            for src in (res["bad"], res["notes"]):
                for i, (line, clauses) in src.items():
                    for c in clauses:
                        if src is res["notes"] and (prop, c) in listed:
                            notes.setdefault(c, (res, i, line))
                        elif prop in CLAUSES[fam].get(c, ()):
                            violations.setdefault((fam, c), []).append((res, i, line, clauses))
                        elif c == "recording":
                            raise Machinery("a recording does not fit the modelled adapter: %s" % res["keep"].get(i, "")[:3000])
                        elif src is res["bad"] or c not in FINDING_CLAUSES:
                            other.setdefault((fam, c), []).append((res, i, line, clauses))
        for p, c, text in known_findings():
            if p == prop:
                if c in notes:
                    print("KNOWN-FINDING: property=%s %s" % (p, text))
                else:
                    print("note: the known finding %s of %s did not show up" % (c, p))
        for (fam, c), l in sorted(other.items()):
            print("note: clause %s of %s, which is not part of %s, broken in %d recordings" % (c, fam, prop, len(l)))

        os.makedirs(EVIDENCE, exist_ok=True)
        for f in os.listdir(EVIDENCE):
            if f.startswith("replay-%s-" % prop):
                os.unlink(os.path.join(EVIDENCE, f))
        shown = 0
        for n, ((fam, c), l) in enumerate(sorted(violations.items())):
            res, i, line, clauses = next((x for x in l if x[1] in x[0]["keep"]), l[0])
            path = os.path.join("evidence", "replay-%s-%s.json" % (prop, c))
            job = res["job"]
            with open(os.path.join(HERE, path), "w") as f:
                json.dump({"property": prop, "clauses": sorted(clauses), "event": line,
                           "recordings": len(l), "family": fam, "focus": job[1], "seed": job[2],
                           "count": job[3], "schedule": job[4][i - 1] if job[4] else None,
                           "index": i, "trace": short(res["keep"].get(i, '""'), line),
                           "stderr": res["errs"][-1500:]}, f, indent=1)
            print("violated: %s, in %d recordings, e.g. event %d of recording %d" % (c, len(l), line, i))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            shown += 1

        samples = [short(r["sample"]) for r in results[:: max(1, len(results) // 3)][:3]]
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": sum(m["states"] for m in models),
                "transitions": sum(m["transitions"] for m in models),
                "traces_validated_against_impl": sum(r["total"] for r in results),
                "trace_states_checked": sum(r["states"] for r in results),
                "models": models, "schedules": gens_out,
                "recordings": {"%s %s" % k: v for k, v in tally(results).items()},
                "recordings_with_a_broken_clause": sum(len(r["bad"]) for r in results),
                "samples": samples,
            },
            "assumptions": plan["assumptions"],
            "wall_s": round(time.time() - t0, 1),
            "violations": shown,
        }
        with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d model states, %d recordings, %d clauses broken, %.0f s" % (
            prop, tier, ev["coverage"]["states"], ev["coverage"]["traces_validated_against_impl"],
            len(violations), time.time() - t0))
        return 1 if violations else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def tally(results):
    out = {}
    for r in results:
        k = (r["job"][0], "scheduled" if r["job"][4] else "random")
        out[k] = out.get(k, 0) + r["total"]
    return out


def replay(path):
    d = json.load(open(path))
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        lines = [d["schedule"]] if d["schedule"] else None
        job = (d["family"], d["focus"], d["seed"], d["count"], lines, 0, None if lines else d["index"], 600)
        res = run_shard(job, work)
        for i, (line, clauses) in res["bad"].items():
            tr = json.loads(res["keep"][i])
            for n, e in enumerate(tr.get("ev", tr.get("steps"))[:line]):
                print("%3d %s" % (n + 1, json.dumps(e)))
            print("broken: %s" % ", ".join(sorted(clauses)))
            return 1
        print("not reproduced")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        if a.replay:
            return replay(a.replay)
        return check(a.prop, a.tier, int(os.environ.get("VERIF_SEED", "1")))
    except Machinery as e:
        print("MACHINERY: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
