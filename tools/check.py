#!/usr/bin/env python3
"""check.py PROPERTY: searches seeded simulated runs for a violation of one property.

Environment: VERIF_SEED (default 1), VERIF_TIER quick|thorough. Exit 0: held on everything explored;
1: "VIOLATION property=<id> replay=<path>"; 2: the check itself could not give an answer.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop = sys.argv[1]
seed = int(os.environ.get("VERIF_SEED", "1") or "1")
tier = os.environ.get("VERIF_TIER", "quick")
if tier not in ("quick", "thorough"): tier = "quick"
if len(sys.argv) > 2: tier = sys.argv[2]
WORKERS = 8
QUICK_RUNS, QUICK_SECS, THOROUGH_SECS = 5600, 75, 780
if os.environ.get("WSIM_SECS"): QUICK_SECS = THOROUGH_SECS = float(os.environ["WSIM_SECS"])
t0 = time.time()

def die(msg):
    print("ERROR property=%s %s" % (prop, msg)); sys.exit(2)

b = subprocess.run([V + "/tools/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
if b.returncode or not b.stdout.strip(): die("build failed\n" + b.stderr[-4000:])
wsim = b.stdout.strip().split("\n")[-1]

# known findings: "finding: property=<id> class=<violation class> <what fails>"; "fixed:" lines suppress nothing
known = {}
for l in open(V + "/known-findings.txt"):
    m = re.match(r"finding: property=(\S+) class=(\S+) (.*)", l)
    if m and m.group(1) == prop: known[m.group(2)] = m.group(3)

out = tempfile.mkdtemp(prefix="wsim-%s-" % prop)
kf = out + "/known"
open(kf, "w").write("".join("%s\t%s\n" % (prop, c) for c in known))
if tier == "quick": secs, runs, base = QUICK_SECS, QUICK_RUNS // WORKERS, seed * 1000000
else: secs, runs, base = THOROUGH_SECS, 10**9, seed * 1000000000 + 500000000
try: cpus = sorted(os.sched_getaffinity(0))
except Exception: cpus = list(range(os.cpu_count() or 1))
procs = []
for w in range(WORKERS):
    def pin(w=w):
        try: os.sched_setaffinity(0, {cpus[w % len(cpus)]})
        except Exception: pass
    f = open(out + "/log-%d" % w, "w")
    procs.append(subprocess.Popen([wsim, "batch", prop, str(base), str(WORKERS), str(secs), out, str(w), kf, str(runs)],
                                  stdout=f, stderr=subprocess.DEVNULL, preexec_fn=pin))
def logs():
    r = []
    for w in range(WORKERS):
        for l in open(out + "/log-%d" % w, errors="replace"):
            if l.endswith("\n"): r.append(l.rstrip("\n").split("\t"))
    return r
found = None
limit = t0 + secs + 90
while any(p.poll() is None for p in procs) and time.time() < limit:
    time.sleep(0.2)
    found = [x for x in logs() if x[0] == "FOUND"]
    if found: break
if found:  # let workers that are done write their statistics, stop the others
    for p in procs:
        if p.poll() is None: p.terminate()
    time.sleep(0.3)
for p in procs:
    if p.poll() is None: p.kill()
    p.wait()
found = [x for x in logs() if x[0] == "FOUND"]
for x in logs():
    if x[0] == "KNOWN" and x[2] in known: known[x[2]] = known[x[2]] + "\0seen"
for c, d in sorted(known.items()): print("KNOWN-FINDING: property=%s %s" % (prop, d.replace("\0seen", "")))

# every violation must reproduce in a fresh process, as exactly the same execution
viol, doubtful = [], []
rdir = V + "/replays"
for x in found:
    src = x[3]
    ok = 0
    for _ in range(2):
        r = subprocess.run([wsim, "replay", src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        if r.returncode == 1 and "(identical execution)" in r.stdout: ok += 1
    if ok == 2:
        os.makedirs(rdir, exist_ok=True)
        dst = "%s/%s-%s.replay" % (rdir, prop, re.sub(r"[^A-Za-z0-9_.-]", "_", x[2])[:60])
        shutil.copyfile(src, dst)
        viol.append((x[2], x[4], dst))
    else: doubtful.append(x)

st = []
for w in range(WORKERS):
    try: st.append(json.load(open(out + "/stats-%d.json" % w)))
    except Exception: pass
def tot(k): return sum(s[k] for s in st)
counts, hashes, edges, problems, others = {}, set(), 0, [], {}
for s in st:
    for k, v in s["counts"].items(): counts[k] = counts.get(k, 0) + v
    for k, v in s["violations"].items(): others[k] = others.get(k, 0) + v
    hashes.update(s["hashes"]); edges |= int(s["edgemap"], 16)
    if s["problems"]: problems.append(s["problems"])
wall = time.time() - t0
nruns = tot("runs")
faults = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("fault.")}
ev = {
    "property": prop, "tier": tier, "seed": seed, "level": "exploration",
    "coverage": {
        "evaluations": nruns,
        "distinct_nontrivial": len(hashes),
        "rule": "one evaluation = one seeded simulated run of the whole server (scenario, schedule and faults all derived from the seed); "
                "counted as distinct by the hash over every scheduling decision, system call result and observed event of the run; "
                "every run serves at least one generated client or start-up/configuration job, so none is trivial",
        "samples": [x for s in st for x in s["samples"]][:4] or [{"note": "no run finished"}],
        "first_seed": base, "runs_per_hour": round(nruns / max(wall, 1e-9) * 3600),
        "simulated_seconds": round(tot("simtime"), 3), "server_lives": tot("lives"), "connections": tot("conns"),
        "scheduling_points": tot("steps"), "non_default_choices": tot("deviations"),
        "runs_with_faults": tot("faulty_runs"), "faults_injected": faults,
        "reached": {k: v for k, v in sorted(counts.items()) if not k.startswith("fault.")},
        "server_code_edges_reached": bin(edges).count("1"), "server_code_edges_total": st[0]["edges_total"] if st else 0,
        "determinism_reruns": tot("determinism_reruns"), "timeouts": tot("timeouts"), "problems": "\n".join(problems)[:2000],
        "components_real": ["all of /repo/*.c compiled unchanged (ASAN, coverage callbacks)", "OpenSSL library (server and client side)", "glibc string and formatting functions"],
        "components_simulated": ["threads, mutexes, condition variables, sleeps (cooperative scheduler)", "clocks", "sockets, accept queue, clients", "files, directories and stdio streams (in memory)", "descriptor table", "heap accounting", "process start, exit and kill", "random numbers"],
    },
    "assumptions": ["the search samples schedules, inputs and faults: a clean batch is evidence, not proof",
                    "the simulated kernel behaves like Linux for the calls the server makes",
                    "preemption happens at synchronisation, system calls and accesses to shared memory observed by the instrumentation"],
    "wall_s": round(wall, 2), "violations": len(viol),
}
os.makedirs(V + "/evidence", exist_ok=True)
tmp = V + "/evidence/.%s.tmp" % prop
json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, V + "/evidence/%s.json" % prop)
shutil.rmtree(out, ignore_errors=True)

print("%s: %d runs (%d distinct), %.0f simulated s, %d connections, %d fault kinds injected %d times, %d/%d edges, %.0f s" % (
    prop, nruns, len(hashes), tot("simtime"), tot("conns"), len(faults), sum(faults.values()), bin(edges).count("1"),
    st[0]["edges_total"] if st else 0, wall))
for c, d, path in viol: print("  %s: %s" % (c, d))
if viol:
    print("VIOLATION property=%s replay=%s" % (prop, viol[0][2])); sys.exit(1)
if doubtful: die("a violation was seen that does not replay identically: %s" % doubtful[0][2:5])
if len(st) < WORKERS // 2 or nruns < 50: die("only %d runs finished\n%s" % (nruns, "\n".join(problems)[:2000]))
if tot("timeouts") * 20 > nruns or tot("errors") > max(2, nruns // 500): die("too many runs without a result\n%s" % "\n".join(problems)[:2000])
sys.exit(0)
