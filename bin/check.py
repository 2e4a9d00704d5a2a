#!/usr/bin/env python3
"""Decides one property: bin/check.py <id> [--tier quick|thorough]

 1. model-checks the property's abstract specifications with TLC,
 2. generates programs from the specification with TLC's simulator (stateful
    properties),
 3. builds the harness driver from /repo's working tree, runs it section by
    section, each section recording a trace of the real library's operations,
 4. validates every trace against the property's trace specification in TLC.

Exit 0: everything explored satisfies the property.  Exit 1, with a line
"VIOLATION property=<id> replay=<path>": a trace of the real library is not a
behaviour of the specification (or the library crashed or hung while producing
it).  Exit 2: no verdict (build failure, tool failure).
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vbuild
from plan import PLAN

SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGILL, signal.SIGBUS}


class NoVerdict(Exception):
    pass


def tlc(spec, cfg, scratch, args=(), env=None, heap="3g", timeout=800, workers=1):
    meta = tempfile.mkdtemp(dir=scratch, prefix="meta_")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", f"-Xmx{heap}", "-Xss64m",
           "-Djava.io.tmpdir=" + scratch, "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", meta, "-config", f"{SPEC}/{cfg}.cfg"] + list(args) + [f"{SPEC}/{spec}.tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoVerdict(f"TLC timed out on {spec}/{cfg}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def stats(out):
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][1]), int(m[-1][0])


def model_check(job, scratch):
    spec, cfg = job["spec"], job.get("cfg", job["spec"])
    t = time.time()
    rc, out = tlc(spec, cfg, scratch, args=job.get("args", ()), workers=job.get("workers", 2),
                  heap=job.get("heap", "4g"))
    st, tr = stats(out)
    if rc != 0 or "No error has been found" not in out:
        raise NoVerdict(f"model {spec}/{cfg} does not satisfy its properties (rc {rc}):\n{out[-3000:]}")
    return dict(model=cfg, states=st, transitions=tr, wall_s=round(time.time() - t, 1))


def generate(gen, tier, seed, scratch, name):
    """Programs: TLC simulates gen.spec; each behaviour prints its program as JSON."""
    num = gen["num"][tier]
    depth = gen["depth"][tier] if isinstance(gen["depth"], dict) else gen["depth"]
    rc, out = tlc(gen["spec"], gen.get("cfg", gen["spec"]), scratch,
                  args=["-simulate", f"num={num}", "-depth", str(depth + 2), "-seed", str(seed)],
                  env={"DEPTH": str(depth)})
    progs = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"PROG '):
            progs.append(json.loads(line[6:-1].replace('\\"', '"')))
        elif line.startswith("PROG "):
            progs.append(json.loads(line[5:]))
    if rc != 0 or not progs:
        raise NoVerdict(f"generator {gen['spec']} failed (rc {rc}):\n{out[-3000:]}")
    uniq = []
    for p in progs:
        if p not in uniq:
            uniq.append(p)
    path = os.path.join(scratch, f"{name}.prog")
    with open(path, "w") as f:
        for i, p in enumerate(uniq):
            f.write(f"op=begin prog={i}\n")
            for s in p:
                f.write(" ".join(f"{k}={','.join(map(str, v)) if isinstance(v, list) else v}" for k, v in s.items()) + "\n")
    return path, uniq


def drive(exe, section, trace, prog, env, timeout):
    cmd = [exe, section, trace] + ([prog] if prog else [])
    try:
        r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=timeout)
        return r.returncode, (r.stdout + r.stderr)[-3000:]
    except subprocess.TimeoutExpired:
        return "timeout", f"no result within {timeout} s"


def section_job(pid, exe, sec, prog, scratch, tier, seed):
    name = sec["name"]
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier)
    env.setdefault("MALLOC_PERTURB_", "165")  # fresh memory is not zero
    env.setdefault("OMP_NUM_THREADS", str(sec.get("omp", 4)))
    trace = os.path.join(scratch, f"{name}.ndjson")
    t = time.time()
    for attempt in (1, 2):
        rc, msg = drive(exe, sec.get("run", name), trace, prog, env, sec.get("timeout", 300 if tier == "quick" else 800))
        if rc == 0:
            break
        crash = rc == "timeout" or (isinstance(rc, int) and rc < 0 and -rc in CRASH)
        if not crash:
            raise NoVerdict(f"driver section {name} ended with {rc}: {msg}")
        if attempt == 2:
            return dict(section=name, ok=False, trace=trace, wall_s=round(time.time() - t, 1),
                        why=f"the library {'hung' if rc == 'timeout' else 'crashed with signal %d' % -rc} in section {name}: {msg}")
    td = time.time() - t
    rc, out = tlc(sec["spec"], sec.get("cfg", sec["spec"]), scratch, env={"TRACE": trace}, heap=sec.get("heap", "3g"))
    st, tr = stats(out)
    res = dict(section=name, trace=trace, states=st, transitions=tr, drive_s=round(td, 1), wall_s=round(time.time() - t, 1))
    m = re.search(r'<<"ACCEPTED", (\d+)>>', out)
    if rc == 0 and m:
        res.update(ok=True, events=int(m.group(1)))
        if res["events"] < sec.get("min_events", 1):
            raise NoVerdict(f"section {name}: only {res['events']} events")
        return res
    rej = [x.strip().strip('"').replace('\\"', '"') for x in out.splitlines() if "REJECT" in x][:6]
    if not any("REJECT " in x for x in rej):  # an evaluation error, or no action for the line
        rej += [x for x in out.splitlines() if x.startswith(("Error", "TLC threw", "Attempted", "The exception"))][:4]
    if "OutOfMemoryError" in out or "StackOverflow" in out:
        raise NoVerdict(f"TLC ran out of memory on section {name}:\n{out[-2000:]}")
    if rc in (10, 11, 12, 13, 75, 76, 77, 78) or '<<"REJECTED"' in out:
        res.update(ok=False, why="; ".join(rej)[:1500] or out[-1500:], tlc=out)
        return res
    raise NoVerdict(f"TLC failed on section {name} (rc {rc}):\n{out[-3000:]}")


def sample_of(trace):
    try:
        with open(trace) as f:
            for line in f:
                if '"ev":"begin"' in line or '"ev":"key' in line:
                    continue
                return line[:400].strip() + ("..." if len(line) > 400 else "")
    except OSError:
        pass
    return ""


def check(pid, tier, seed, keep=False, only=None):
    t0 = time.time()
    plan = PLAN[pid]
    scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    try:
        secs = [s for s in plan["sections"] if tier == "thorough" or not s.get("thorough")]
        if only:
            secs = [s for s in plan["sections"] if s["name"] in only.split(",")]
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            fbuild = ex.submit(vbuild.build_all, sorted({(x.get("driver", plan["driver"]), tuple(x.get("flags", ()))) for x in secs}))
            mcs = [ex.submit(model_check, j, scratch) for j in plan.get("mc", [])
                   if tier == "thorough" or not j.get("thorough")]
            gens = {n: ex.submit(generate, g, tier, seed, scratch, n) for n, g in plan.get("gen", {}).items()}
            try:
                exes = fbuild.result()
            except vbuild.BuildError as e:
                raise NoVerdict(f"build failed: {e}")
            progs = {n: f.result() for n, f in gens.items()}
            tb = time.time() - t0
        with cf.ThreadPoolExecutor(max_workers=plan.get("par", 6)) as ex:
            fs = [ex.submit(section_job, pid, exes[(s.get("driver", plan["driver"]), tuple(s.get("flags", ())))], s, progs[s["gen"]][0] if "gen" in s else None, scratch, tier, seed)
                  for s in secs]
            results, errors = [], []
            for f in fs:
                try:
                    results.append(f.result())
                except NoVerdict as e:
                    errors.append(str(e))
        if keep:
            for r in results:
                print(f"  {r['section']:24s} ok={r['ok']} events {r.get('events', 0):6d} drive {r.get('drive_s', 0):6.1f} total {r['wall_s']:6.1f}")
        bad = [r for r in results if not r["ok"]]
        bad = [r for r in bad if not known(pid, r)]
        if bad:
            rep = os.path.join(OUT, pid)
            shutil.rmtree(rep, ignore_errors=True)
            os.makedirs(rep, exist_ok=True)
            for r in bad:
                if os.path.exists(r["trace"]):
                    shutil.copy(r["trace"], rep)
                with open(os.path.join(rep, r["section"] + ".txt"), "w") as f:
                    f.write(f"property {pid}, section {r['section']}, tier {tier}, VERIF_SEED={seed}\n{r['why']}\n\n{r.get('tlc','')}")
            for n, (p, _) in progs.items():
                shutil.copy(p, rep)
            with open(os.path.join(rep, "replay.sh"), "w") as f:
                f.write(f"#!/bin/sh\n# re-runs the check that failed\ncd {VERIF} && VERIF_SEED={seed} VERIF_TIER={tier} python3 bin/check.py {pid}\n")
            for r in bad:
                print(f"  section {r['section']}: {r['why'][:700]}")
            print(f"VIOLATION property={pid} replay={rep}")
            return 1
        if errors:
            raise NoVerdict("\n".join(x if i == 0 else x[-300:] for i, x in enumerate(errors)))
        mcr = [f.result() for f in mcs]
        cov = dict(
            states=sum(m["states"] for m in mcr) + sum(r["states"] for r in results),
            transitions=sum(m["transitions"] for m in mcr) + sum(r["transitions"] for r in results),
            traces_validated_against_impl=len(results),
            events_validated=sum(r["events"] for r in results),
            samples=[dict(section=r["section"], event=sample_of(r["trace"])) for r in results[:8]],
            models=mcr,
            sections=[{k: r[k] for k in ("section", "events", "drive_s", "wall_s")} for r in results],
        )
        if progs:
            cov["generated_programs"] = {n: len(u) for n, (_, u) in progs.items()}
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
                  assumptions=plan.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=0)
        with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{pid} {tier}: held; {len(mcr)} models, {cov['states']} states, {len(results)} traces, "
              f"{cov['events_validated']} events, build+gen {tb:.0f} s, total {ev['wall_s']} s")
        if keep:
            for m in mcr:
                print("  model", m)
        return 0
    finally:
        if keep:
            print("scratch:", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def known(pid, r):
    """Findings recorded in known_findings.txt: KNOWN-FINDING lines with section and reject label."""
    path = os.path.join(VERIF, "known_findings.txt")
    try:
        lines = open(path).read().splitlines()
    except OSError:
        return False
    for ln in lines:
        m = re.match(r"finding: property=(\S+) section=(\S+) reject=\"([^\"]+)\" (.*)", ln)
        if m and m.group(1) == pid and m.group(2) == r["section"] and m.group(3) in r.get("why", ""):
            print(f"KNOWN-FINDING: property={pid} {m.group(4)}")
            return True
    return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only", help="comma-separated sections (development)")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or "1")
    try:
        sys.exit(check(a.pid, "thorough" if a.tier == "thorough" else "quick", seed, a.keep, a.only))
    except NoVerdict as e:
        print(f"ERROR {a.pid}: {e}")
        sys.exit(2)


if __name__ == "__main__":
    main()
