#!/usr/bin/env python3
"""Runs the deterministic simulation search for one property.

  check.py C01 [--tier quick|thorough] [--seed N] [--time S]
  check.py --replay FILE            re-executes one recorded violation

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Anything else: the check itself failed.
"""
import argparse, collections, json, os, re, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import vbuild
from plan import PLAN, ALWAYS, MACHINERY

KNOWN = os.path.join(VERIF, "known_findings.json")
CORES = os.cpu_count() or 8


def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k.get("status") == "known"]


def known_match(k, rec):
    if k["class"] != rec["cls"]:
        return False
    if not re.search(k["message"], rec.get("msg", "")):
        return False
    if "stage" in k and not re.search(k["stage"], rec.get("stage", "")):
        return False
    kn = {a[0]: a[1] for a in rec.get("knobs", [])}
    for name, allowed in k.get("knobs", {}).items():
        if kn.get(name) not in allowed:
            return False
    return True


def replay_text(prop, rec, explicit, knobs=None, faults=None, devs=None, thorough=False):
    o = ["# replay: python3 check.py --replay <this file>", "prop " + prop, "variant " + rec["variant"], "seed %d" % rec["seed"], "wseed %d" % rec["wseed"]]
    if thorough:
        o.append("thorough")
    if explicit:
        o.append("explicit")
        for k in (knobs if knobs is not None else rec["knobs"]):
            o.append("set %s %d" % (k[0], k[1]))
    for f in (faults if faults is not None else rec["faults"]):
        o.append("fault %s %d %s %d" % tuple(f))
    if explicit:
        for d in (devs if devs is not None else rec["devs"]):
            o.append("dev %s %d %d" % tuple(d))
    return "\n".join(o) + "\n"


def run_replay(exe, text, timeout=200):
    fd, path = tempfile.mkstemp(prefix="vsim_replay_")
    os.write(fd, text.encode())
    os.close(fd)
    try:
        r = subprocess.run([exe, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
        line = r.stdout.decode(errors="replace").strip().splitlines()
        return json.loads(line[-1]) if line else None
    except (subprocess.TimeoutExpired, ValueError):
        return None
    finally:
        os.unlink(path)


def minimise(exe, prop, rec, thorough, budget):
    """Greedy knob lowering, then delta debugging of faults and scheduling deviations."""
    t_end = time.time() + budget
    knobs = [list(k) for k in rec["knobs"]]
    faults, devs = [list(f) for f in rec["faults"]], [list(d) for d in rec["devs"]]
    best = [None]

    def test(kn, fa, de):
        if time.time() > t_end:
            return False
        r = run_replay(exe, replay_text(prop, rec, True, kn, fa, de, thorough))
        ok = r is not None and r["cls"] == rec["cls"]
        if ok:
            best[0] = r
        return ok

    if not test(knobs, faults, devs):
        return None
    for attempt in ([], None):  # without any deviation at all
        if attempt == [] and devs and test(knobs, faults, []):
            devs = []

    def ddmin(items, rebuild):
        n = 2
        while len(items) >= 1 and time.time() < t_end:
            size = max(1, len(items) // n)
            done = False
            for i in range(0, len(items), size):
                cand = items[:i] + items[i + size:]
                if rebuild(cand):
                    items = cand
                    n = max(2, n - 1)
                    done = True
                    break
            if not done:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return items

    def lower():
        nonlocal knobs
        changed = False
        cand_ix = [i for i, k in enumerate(knobs) if k[1] != k[2]]
        # all at once first, then one at a time
        for i in cand_ix:
            if time.time() > t_end:
                break
            for v in dict.fromkeys([knobs[i][2], (knobs[i][1] + knobs[i][2]) // 2]):
                if v == knobs[i][1]:
                    continue
                kn = [list(k) for k in knobs]
                kn[i][1] = v
                if test(kn, faults, devs):
                    b = best[0]
                    keep = {k[0]: k for k in kn}
                    knobs = [keep.get(k[0], k) for k in map(list, b["knobs"])]
                    changed = True
                    break
            if changed:
                break
        return changed

    faults = ddmin(faults, lambda c: test(knobs, c, devs))
    devs = ddmin(devs, lambda c: test(knobs, faults, c))
    while time.time() < t_end and lower():
        pass
    faults = ddmin(faults, lambda c: test(knobs, c, devs))
    devs = ddmin(devs, lambda c: test(knobs, faults, c))
    return knobs, faults, devs


class Search:
    def __init__(self, prop, tier, seed, limit):
        self.prop, self.tier, self.seed, self.limit = prop, tier, seed, limit
        self.plan = PLAN[prop]
        self.classes = set(self.plan["classes"]) | ALWAYS
        self.known = load_known(prop)
        self.lock = threading.Lock()
        self.runs = collections.Counter()
        self.tot = collections.Counter()
        self.counts = collections.Counter()
        self.faults = collections.Counter()
        self.fault_runs = 0
        self.hashes, self.states = set(), set()
        self.nontrivial = 0
        self.other = collections.Counter()
        self.machinery = []
        self.known_hits = collections.Counter()
        self.found = []
        self.samples = []
        self.stop = False
        self.procs = []

    def handle(self, rec):
        with self.lock:
            self.runs[rec["variant"]] += 1
            for k in ("steps", "mem", "sw", "pre", "mpre", "tj", "sp", "ns", "chk", "ev", "rd", "wr", "op", "io"):
                self.tot[k] += rec.get(k, 0)
            for k, v in rec.get("c", {}).items():
                self.counts[k] += v
            for k, v in rec.get("f", {}).items():
                self.faults[k] += v
            if rec.get("f"):
                self.fault_runs += 1
            if rec["hash"] not in self.hashes:
                self.hashes.add(rec["hash"])
                if rec.get("thr", 0) > 1 and rec.get("sw", 0) > 2 or rec.get("f"):
                    self.nontrivial += 1
            for s in rec.get("s", []):
                if len(self.states) < 2000000:
                    self.states.add(s)
            if len(self.samples) < 4 and not rec["cls"]:
                self.samples.append({k: rec.get(k) for k in ("seed", "wseed", "variant", "hash", "steps", "sw", "pre", "mpre", "tj", "sp", "ns", "chk", "ev", "f", "c")})
            cls = rec["cls"]
            if not cls:
                return
            if cls in MACHINERY:
                self.machinery.append(rec)
                return
            for k in self.known:
                if known_match(k, rec):
                    self.known_hits[k["id"]] += 1
                    return
            if cls in self.classes:
                self.found.append(rec)
            else:
                self.other[cls] += 1

    def reader(self, proc, variant):
        for line in proc.stdout:
            try:
                rec = json.loads(line.decode(errors="replace"))
            except ValueError:
                continue
            rec["variant"] = variant
            self.handle(rec)
            if self.found and not self.stop:
                self.stop = True
                self.kill()

    def kill(self):
        for p in self.procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass

    def run(self, exes):
        variants = self.plan["workers"]
        threads = []
        base = self.seed * 10_000_000 + 1
        lanes = []
        for v, n in variants.items():
            n = max(1, n * CORES // 8)
            lanes += [(v, i, n) for i in range(n)]
        for v, i, n in lanes:
            env = dict(os.environ)
            cmd = [exes[v], "--prop", self.prop, "--from", str(base + (0 if v == "plain" else 5_000_000) + i), "--to", str(base + 9_000_000),
                   "--step", str(n), "--time", str(self.limit)]
            if self.tier == "thorough":
                cmd += ["--thorough", "1"]
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, start_new_session=True)
            self.procs.append(p)
            t = threading.Thread(target=self.reader, args=(p, v))
            t.start()
            threads.append(t)
        watchdog = threading.Timer(self.limit + 240, self.kill)
        watchdog.start()
        for t in threads:
            t.join()
        for p in self.procs:
            p.wait()
        watchdog.cancel()
        for p in self.procs:  # scratch directories of killed workers
            for base_dir in ("/dev/shm", "/tmp"):
                d = "%s/vsim_%07d" % (base_dir, p.pid)
                if os.path.isdir(d):
                    subprocess.run(["rm", "-rf", d])


def confirm(exes, prop, rec, thorough, mini_budget):
    """Same seed twice in fresh processes, then the minimised explicit trace; returns the replay file or None."""
    exe = exes[rec["variant"]]
    text = replay_text(prop, rec, False, thorough=thorough)
    if rec.get("faults"):
        pass  # faults are listed in the text
    a, b = run_replay(exe, text), run_replay(exe, text)
    if not a or not b or a["cls"] != rec["cls"] or b["cls"] != rec["cls"]:
        return None, "not reproducible: first %s, again %s / %s" % (rec["cls"], a and a["cls"], b and b["cls"])
    if a["hash"] != b["hash"] or (rec["hash"] != "dead" and a["hash"] != rec["hash"]):
        return None, "execution hash differs between replays"
    m = minimise(exe, prop, rec, thorough, mini_budget)
    if m is not None:
        text2 = replay_text(prop, rec, True, *m, thorough=thorough)
        c = run_replay(exe, text2)
        if c and c["cls"] == rec["cls"]:
            text, a = text2, c
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.replay" % (prop, rec["variant"], rec["seed"]))
    with open(path, "w") as f:
        f.write("# %s\n# %s: %s\n# stage: %s\n" % (time.strftime("%Y-%m-%d %H:%M:%S"), rec["cls"], a.get("msg", ""), a.get("stage", "")) + text)
    return path, a


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--time", type=float)
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    if a.replay:
        txt = open(a.replay).read()
        variant = re.search(r"^variant (\w+)", txt, re.M)
        exe = vbuild.build(variant.group(1) if variant else "plain")
        prop = re.search(r"^prop (\w+)", txt, re.M).group(1)
        r = run_replay(exe, txt)
        print(json.dumps(r, indent=1)[:4000])
        if r and r["cls"]:
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a.replay)))
            return 1
        return 0
    prop = a.prop
    if prop not in PLAN:
        print("unknown property", prop)
        return 2
    plan = PLAN[prop]
    limit = a.time or plan["time"][a.tier]
    thorough = a.tier == "thorough"
    try:
        exes = {v: vbuild.build(v) for v in plan["workers"]}
    except vbuild.BuildError as e:
        print(e)
        return 2
    t_build = time.time() - t0
    s = Search(prop, a.tier, a.seed, limit)
    ts = time.time()
    s.run(exes)
    wall = time.time() - ts
    replay = None
    notes = []
    if s.found:
        # earliest seeds first, a different class each time
        tried = collections.Counter()
        for rec in sorted(s.found, key=lambda r: len(r.get("knobs", []))):
            if tried[rec["cls"]] >= 3:
                continue
            tried[rec["cls"]] += 1
            path, info = confirm(exes, prop, rec, thorough, 40)
            if path:
                replay = path
                print("%s: %s (stage %s, seed %d, variant %s)" % (info["cls"], info.get("msg"), info.get("stage"), rec["seed"], rec["variant"]))
                break
            notes.append(info)
            print("unconfirmed report dropped: %s: %s [%s]" % (rec["cls"], rec.get("msg", "")[:300], info))
    runs = sum(s.runs.values())
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": s.nontrivial,
            "rule": "One evaluation is one simulated run (one forked process, one seed): workload, schedule and faults are drawn from the seed. "
                    "Distinct: different execution hash (sequence of thread, synchronisation operation and object, and file operation). "
                    "Non-trivial: at least two simulated threads with more than two context switches, or at least one fault that fired.",
            "samples": s.samples,
            "runs_by_variant": dict(s.runs),
            "runs_per_hour": int(runs * 3600 / max(wall, 0.001)),
            "simulated_hours": round(s.tot["ns"] / 3.6e12, 3),
            "scheduling_steps": s.tot["steps"], "memory_access_steps": s.tot["mem"], "context_switches": s.tot["sw"],
            "preemptions": s.tot["pre"], "memory_level_preemptions": s.tot["mpre"], "timer_jumps": s.tot["tj"], "spurious_wakeups": s.tot["sp"],
            "faults_injected": dict(s.faults), "runs_with_faults": s.fault_runs,
            "distinct_executions": len(s.hashes), "distinct_states": len(s.states),
            "oracle_evaluations": s.tot["ev"], "values_compared": s.tot["chk"],
            "file_operations": {"write": s.tot["wr"], "read": s.tot["rd"], "open_write": s.tot["op"], "open_read": s.tot["io"]},
            "workload": dict(s.counts),
            "other_property_reports_ignored": dict(s.other),
            "unconfirmed": notes,
            "real_code": "all of mdflib (writers, sample queues, write cache worker thread, readers, blocks, zlib), the CSV conversion of mdf2csv, libstdc++ file buffers",
            "stubs": "thread scheduler, mutexes, condition variables, sleep, clocks, heap allocator and file system calls are the simulator's; files live on a memory file system",
        },
        "assumptions": [
            "Threads are interleaved at synchronisation, file, clock and (tsan variant) memory accesses of the library; weak memory effects are not simulated.",
            "System calls used by libstdc++ streams are those interposed in sim/sim.cpp.",
        ],
        "wall_s": round(time.time() - t0, 1), "build_s": round(t_build, 1),
        "violations": 1 if replay else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs (%s), %d distinct executions, %.1f simulated hours, %d oracle evaluations, faults %s, %.0f s search, %.0f s build"
          % (prop, a.tier, runs, dict(s.runs), len(s.hashes), s.tot["ns"] / 3.6e12, s.tot["ev"], dict(s.faults), wall, t_build))
    if s.other:
        print("reports that concern other properties:", dict(s.other))
    for k in s.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if replay:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if s.machinery:
        r = s.machinery[0]
        print("machinery reports: %d, first %s %s (seed %d)" % (len(s.machinery), r["cls"], r.get("msg"), r["seed"]))
        if len(s.machinery) > runs // 2:
            return 2
    if runs == 0:
        print("no run was executed")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
