#!/usr/bin/env python3
"""Builds the simulator against /repo and searches seeds for a property.

  run.py check C01 [quick|thorough]   search; exit 0 held, 1 violation, 2 error
  run.py replay FILE                  re-execute a replay file
  run.py build GROUP DIR              build only
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
JOBS = max(2, os.cpu_count() or 2)

SAN = "-O1 -gline-tables-only -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all"
# Every control-flow edge of the code under test calls the scheduler.
TSAN = "-O1 -gline-tables-only -fsanitize=thread -fsanitize-coverage=trace-pc-guard"
WRAP = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock",
        "pthread_rwlock_unlock", "pthread_once", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]
# The clock and random devices the code under test would see are simulated.
SEAM = ["time", "clock", "clock_gettime", "gettimeofday", "_ZNSt6chrono3_V212system_clock3nowEv",
        "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt13random_device9_M_getvalEv"]
GROUPS = {
    "duel": dict(tus=["duel_world", "runner", "death"], plain=["engine", "canon", "setup", "seam"], codec=True, san=SAN),
    "tape": dict(tus=["tape_world", "runner", "death"], plain=["engine", "canon", "setup", "seam"], codec=True, san=SAN),
    "objects": dict(tus=["objects_world", "duel_world", "tape_world", "runner", "death"],
                    plain=["engine", "canon", "setup", "seam"], codec=True, san=SAN),
    "concur": dict(tus=["concur_world", "runner", "death"], plain=["sched", "engine", "canon", "setup", "seam"], codec=True, san=TSAN, pb_flags=TSAN,
                   ld=" ".join("-Wl,--wrap=" + f for f in WRAP)),
    "room": dict(tus=["room_world", "runner", "death"], plain=["seam"], codec=False, san=SAN),
}
GROUP_OF = {p: "duel" for p in "C01 C02 C03 C04 C05 C08 C09 C10 C17 C19".split()}
GROUP_OF.update({"C06": "tape", "C07": "tape", "C18": "objects", "C16": "concur"})
GROUP_OF.update({p: "room" for p in "C11 C12 C13 C14 C15".split()})

QUICK_S = float(os.environ.get("SIM_QUICK_S", "45"))
THOROUGH_S = float(os.environ.get("SIM_THOROUGH_S", "600"))

REAL_DUEL = ["codec/edo9300_ocgcore_encode", "codec/edo9300_ocgcore_decode", "server/basic_encode_context",
             "client/board", "client/frame", "client/card", "client/parse_event", "client/parse_query",
             "duel/frame", "duel/place", "proto/* (protobuf serialisation)"]
STUBS = {
    "duel": ["duel engine (ocgcore) byte stream: sim/engine.cpp", "clock", "per-viewer ordered links",
             "durable log of the server", "viewers' process lifetime"],
    "tape": ["duel engine (ocgcore) byte stream: sim/engine.cpp", "clock", "the viewer's scrubbing hand"],
    "objects": ["duel engine (ocgcore) byte stream: sim/engine.cpp", "clock", "links", "log", "process lifetime"],
    "concur": ["duel engine (ocgcore) byte stream: sim/engine.cpp", "thread scheduler: sim/sched.cpp", "room clients, deck validator, random generator"],
    "room": ["clients and their uplinks", "deck validator", "random generator", "clock"],
}
REAL = {"duel": REAL_DUEL, "tape": REAL_DUEL + ["client/frame_limbo, duel undo history"],
        "objects": REAL_DUEL + ["client/frame_limbo"], "concur": REAL_DUEL + ["client/frame_limbo, undo history", "server/room.hpp", "operating system threads (one released at a time)"],
        "room": ["server/room.hpp", "proto/room (protobuf)"]}


class BuildError(Exception):
    pass


def sh(cmd, cwd):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(cmd + "\n" + p.stdout[-6000:])


def build(group, d, out="sim"):
    g = GROUPS[group]
    gen = os.path.join(d, "gen")
    os.makedirs(gen, exist_ok=True)
    proto = os.path.join(REPO, "include/ygopen/proto")
    sh("protoc -I . --cpp_out=lite:%s *.proto" % gen, proto)
    inc = "-std=c++17 -w -include array -I%s/include -I%s -I%s" % (REPO, gen, SIM)
    jobs = []

    def add(src, flags):
        o = os.path.join(d, out + "-" + re.sub(r"[^\w.]+", "_", os.path.relpath(src, REPO if src.startswith(REPO + "/") else os.path.dirname(src))) + ".o")
        jobs.append(("%s %s %s -c %s -o %s" % (CXX, inc, flags, src, o), o))

    for t in g["tus"]:
        add(os.path.join(SIM, t + ".cpp"), g["san"])
    src = os.path.join(REPO, "src")
    for s in sorted(glob.glob(os.path.join(src, "**", "*.cpp"), recursive=True)):
        if g["codec"] or not s.startswith(os.path.join(src, "codec") + "/"):
            add(s, g["san"])
    for t in g["plain"]:
        add(os.path.join(SIM, t + ".cpp"), g.get("plain_flags", "-O1"))
    for s in sorted(glob.glob(os.path.join(gen, "*.pb.cc"))):
        add(s, g.get("pb_flags", "-O1"))

    def compile(j):
        try:
            sh(j[0], d)
        except BuildError:
            # Card fields that record are a bonus: not every tree must build them.
            if "duel_world" not in j[0]:
                raise
            sh(j[0] + " -DSIM_PLAIN_CARDS", d)

    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(compile, jobs))
    exe = os.path.join(d, out)
    sh("%s %s %s %s -lprotobuf-lite -lpthread -o %s" % (CXX, g["san"], g.get("ld", "") + " " + " ".join("-Wl,--wrap=" + f for f in SEAM), " ".join(o for _, o in jobs), exe), d)
    return exe


def no_aslr():
    try:
        if subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
            return ["setarch", "-R"]
    except OSError:
        pass
    return []


PRE = []


def call(args, timeout=None, out=None):
    with open(out or os.devnull, "wb") as f:
        try:
            return subprocess.run(PRE + args, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            return -99


def outcome(exe, prop, tier, trace, d):
    """Replays a trace in a fresh process; (class, hash, message, log lines)."""
    o = os.path.join(d, "replay.out")
    rc = call([exe, "replay", "--prop", prop, "--tier", tier, "--in", trace], 120, o)
    text = open(o, errors="replace").read()
    log = [l[2:] for l in text.splitlines() if l.startswith("L ")]
    m = re.search(r"^R (\{.*\})$", text, re.M)
    if rc in (0, 10) and m:
        j = json.loads(m.group(1))
        return j["tag"], j["hash"], j["msg"], log
    if rc == 12:
        return "hang", "", "a run never ends", log
    if rc == -99:
        return "timeout", "", "replay did not finish", log
    first = [l for l in text.splitlines() if re.search(r"ERROR|runtime error|Assertion|WARNING: Thread", l)]
    return "crash", "", (first[0] if first else "process died with status %d" % rc)[:300], log


def confirm(exe, prop, tier, seed, d, min_s):
    """Gates a violation: fresh-process replays must reproduce it exactly."""
    tr = os.path.join(d, "seed-%d.trace" % seed)
    call([exe, "trace", "--prop", prop, "--tier", tier, "--seed", str(seed), "--out", tr], 120)
    if not os.path.exists(tr):
        return None
    a = outcome(exe, prop, tier, tr, d)
    b = outcome(exe, prop, tier, tr, d)
    if not a[0] or a[0] == "timeout" or a[:2] != b[:2]:
        return None
    mn = tr + ".min"
    rc = call([exe, "minimise", "--prop", prop, "--tier", tier, "--in", tr, "--out", mn, "--time", str(min_s)], min_s + 60)
    best = tr
    if rc == 0 and os.path.exists(mn):
        m1 = outcome(exe, prop, tier, mn, d)
        m2 = outcome(exe, prop, tier, mn, d)
        if m1[0] == a[0] and m1[:2] == m2[:2]:
            best, a = mn, m1
    return best, a


def write_replay(prop, tier, seed, best, res):
    rd = os.path.join(HERE, "replays")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s-seed%d.replay" % (prop, seed))
    with open(path, "w") as f:
        f.write("# property=%s tier=%s seed=%d\n# class=%s hash=%s\n# %s\n" % (prop, tier, seed, res[0], res[1], res[2]))
        f.write("# replay with: python3 run.py replay %s\n" % path)
        for l in res[3][-200:]:
            f.write("#   %s\n" % l)
        for l in open(best):
            if not l.startswith("#"):
                f.write(l)
    return path


class Pool:
    """Worker processes, each searching its own stride of seeds."""

    def __init__(self, exe, prop, tier, base, secs, d, workers, tag):
        self.p = []
        for i in range(workers):
            o = os.path.join(d, "%s%d.out" % (tag, i))
            pr = os.path.join(d, "%s%d.prog" % (tag, i))
            st = os.path.join(d, "%s%d.states" % (tag, i))
            cmd = PRE + [exe, "run", "--prop", prop, "--tier", tier, "--seed", str(base + i), "--stride", str(workers),
                         "--count", "0", "--time", str(secs), "--dup", "2", "--hashes", "1", "--progress", pr, "--states-out", st]
            f = open(o, "wb")
            self.p.append(dict(o=o, pr=pr, st=st, f=f, rc=None,
                               h=subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT)))
        self.secs = secs

    def wait(self):
        """Ends when all are done, or soon after one reports trouble."""
        t0 = time.time()
        hot = None
        while any(w["rc"] is None for w in self.p):
            time.sleep(0.2)
            for w in self.p:
                if w["rc"] is None:
                    w["rc"] = w["h"].poll()
                    if w["rc"] is not None and (w["rc"] != 0 or time.time() - t0 < self.secs - 0.5) and hot is None:
                        hot = time.time()
            if hot is not None and time.time() - hot > 4 or time.time() - t0 > self.secs + 60:
                for w in self.p:
                    if w["rc"] is None:
                        w["h"].send_signal(signal.SIGKILL)
                        w["h"].wait()
                        w["rc"] = "stopped"
        for w in self.p:
            w["f"].close()

    def harvest(self):
        r = dict(bad=[], non=[], runs=0, nontrivial=0, with_faults=0, dups=0, sim_ms=0, counters={}, states=set(), hist=set(), hashes={})
        for w in self.p:
            text = open(w["o"], errors="replace").read()
            for m in re.finditer(r"^V (\d+) (\{.*\})$", text, re.M):
                r["bad"].append(int(m.group(1)))
            for m in re.finditer(r"^N (\d+) .*$", text, re.M):
                r["non"].append(m.group(0))
            for m in re.finditer(r"^H (\d+) ([0-9a-f]+)$", text, re.M):
                r["hashes"][int(m.group(1))] = m.group(2)
            if w["rc"] not in (0, "stopped"):
                try:
                    seed, running = struct.unpack("QQ", open(w["pr"], "rb").read(16))
                    if running:
                        r["bad"].append(seed)
                except (OSError, struct.error):
                    pass
                r.setdefault("died", []).append(w["rc"])
            m = re.search(r"^S (\{.*\})$", text, re.M)
            if m:
                j = json.loads(m.group(1))
                for k in ("runs", "nontrivial", "with_faults", "dups", "sim_ms"):
                    r[k] += j[k]
                for k, v in j["counters"].items():
                    r["counters"][k] = r["counters"].get(k, 0) + v
                for suf, key in (("", "states"), (".h", "hist")):
                    try:
                        b = open(w["st"] + suf, "rb").read()
                        r[key].update(struct.unpack("%dQ" % (len(b) // 8), b))
                    except OSError:
                        pass
        return r


def isolated(exe, prop, tier, base, secs, d):
    ps = []
    for i in range(JOBS):
        o = os.path.join(d, "iso%d.out" % i)
        f = open(o, "wb")
        ps.append((o, f, subprocess.Popen(PRE + [exe, "isolated", "--prop", prop, "--tier", tier, "--seed", str(base + i), "--stride", str(JOBS),
                                                 "--time", str(secs)], stdout=f, stderr=subprocess.DEVNULL)))
    bad, runs = [], 0
    for o, f, h in ps:
        try:
            h.wait(secs + 60)
        except subprocess.TimeoutExpired:
            h.kill()
            h.wait()
        f.close()
        t = open(o, errors="replace").read()
        bad += [int(x) for x in re.findall(r"^V (\d+)", t, re.M)]
        runs += sum(int(x) for x in re.findall(r"^I (\d+)", t, re.M))
    return sorted(bad), runs


RULE = ("one case = one simulated run (one seed decides configuration, operations, schedule and faults); "
        "non-trivial = at least 5 operations or signals were processed by the real code; distinct = different 64-bit "
        "hash over every event, message and state of the run (at most a million are kept per worker)")


def samples(exe, prop, tier, base, d):
    out = []
    for s in (base, base + 1):
        tr = os.path.join(d, "sample.trace")
        call([exe, "trace", "--prop", prop, "--tier", tier, "--seed", str(s), "--out", tr], 60)
        o = os.path.join(d, "sample.out")
        call([exe, "replay", "--prop", prop, "--tier", tier, "--in", tr], 60, o)
        ls = [l[2:180] for l in open(o, errors="replace").read().splitlines() if l.startswith("L ")]
        try:
            first = [l.strip()[:300] for l in open(tr) if not l.startswith("#")][:3]
        except OSError:
            first = []
        out.append({"seed": s, "first_choices": first, "log_lines": len(ls), "log_head": ls[:14]})
    return out


def evidence(prop, tier, seed, group, r, exe, d, wall, search_s, viol, audit):
    c = r["counters"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": r["runs"], "distinct_nontrivial": len(r["hist"]),
            "rule": RULE, "samples": samples(exe, prop, tier, seed * 1000003, d),
            "runs_with_faults": r["with_faults"],
            "seeds_per_hour": int(r["runs"] * 3600 / max(search_s, 1e-3)),
            "simulated_time_s": r["sim_ms"] / 1000.0,
            "faults_injected": {k[6:]: v for k, v in sorted(c.items()) if k.startswith("fault.")},
            "operations": {k[3:]: v for k, v in sorted(c.items()) if k.startswith("op.")},
            "probes": {k[6:]: v for k, v in sorted(c.items()) if k.startswith("probe.")},
            "distinct_states": len(r["states"]),
            "distinct_states_measure": "hash of the reference model's shape (and per-viewer lag or room flags) after each step",
            "determinism": {"in_process_reruns_and_replays": r["dups"] * 2, "cross_process_seeds_compared": audit},
            "real_components": REAL[group], "stubbed_components": STUBS[group],
        },
        "assumptions": ["the stub engine's byte stream follows the EDOPro core's documented message layout",
                        "sampled seeds: absence of a violation is evidence, not proof"] if group != "room" else
                       ["clients stay alive while the room refers to them", "sampled seeds: absence of a violation is evidence, not proof"],
        "wall_s": round(wall, 2), "violations": viol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def check(prop, tier):
    global PRE
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    base = seed * 1000003
    print("property=%s tier=%s VERIF_SEED=%d first_run_seed=%d" % (prop, tier, seed, base), flush=True)
    group = GROUP_OF[prop]
    d = tempfile.mkdtemp(prefix="build-%s-" % prop, dir=HERE)
    try:
        exe = build(group, d)
        PRE = no_aslr()
        tb = time.time()
        secs = QUICK_S if tier == "quick" else THOROUGH_S
        pool = Pool(exe, prop, tier, base, secs, d, JOBS, "w")
        pool.wait()
        search_s = time.time() - tb
        r = pool.harvest()
        for s in sorted(set(r["bad"]))[:6]:
            got = confirm(exe, prop, tier, s, d, 45 if tier == "quick" else 120)
            if not got:
                print("seed %d did not reproduce in a fresh process" % s)
                continue
            best, res = got
            path = write_replay(prop, tier, s, best, res)
            evidence(prop, tier, seed, group, r, exe, d, time.time() - t0, search_s, len(set(r["bad"])), 0)
            print("seed=%d class=%s: %s" % (s, res[0], res[2]))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            return 1
        # The same seeds, in another process at another worker count.
        o = os.path.join(d, "audit.out")
        n = 40 if tier == "quick" else 400
        call([exe, "run", "--prop", prop, "--tier", tier, "--seed", str(base), "--stride", "1", "--count", str(n), "--time", "15",
              "--hashes", "1"], 120, o)
        audit, differ = 0, []
        for m in re.finditer(r"^H (\d+) ([0-9a-f]+)$", open(o, errors="replace").read(), re.M):
            h = r["hashes"].get(int(m.group(1)))
            if h is not None:
                audit += 1
                if h != m.group(2):
                    differ.append(int(m.group(1)))
        if r["bad"] or r["non"] or differ or r.get("died"):
            # Something outlives a run inside the code under test: what a run
            # does depends on the runs before it. Search again with a process
            # per run.
            print("runs depend on earlier runs of the same process; searching again with a process per run", flush=True)
            print("  unconfirmed=%s reruns=%s processes=%s" % (r["bad"][:3], [x[:40] for x in r["non"][:3]], differ[:3]), flush=True)
            bad, runs = isolated(exe, prop, tier, base, secs, d)
            for s in bad[:6]:
                got = confirm(exe, prop, tier, s, d, 45 if tier == "quick" else 120)
                if not got:
                    continue
                best, res = got
                path = write_replay(prop, tier, s, best, res)
                evidence(prop, tier, seed, group, r, exe, d, time.time() - t0, search_s, 1, audit)
                print("seed=%d class=%s: %s" % (s, res[0], res[2]))
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
                return 1
            if bad or runs == 0:
                print("ERROR: not reproducible even with a process per run:", bad[:6])
                return 2
            r["counters"]["probe.isolated_runs"] = runs
            print("NOTE: the code under test keeps state between runs; %d isolated runs held" % runs)
        if r["runs"] == 0 or audit == 0:
            print("ERROR: nothing was simulated")
            return 2
        evidence(prop, tier, seed, group, r, exe, d, time.time() - t0, search_s, 0, audit)
        print("held: %d runs, %d distinct states, %.0f simulated s, build %.0f s, search %.0f s" %
              (r["runs"], len(r["states"]), r["sim_ms"] / 1000.0, tb - t0, search_s))
        return 0
    except BuildError as e:
        print("ERROR: build failed\n" + str(e))
        return 2
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(path):
    global PRE
    head = open(path).read()
    prop = re.search(r"property=(\S+)", head).group(1)
    tier = re.search(r"tier=(\S+)", head).group(1)
    want = re.search(r"class=(\S+) hash=(\S*)", head)
    d = tempfile.mkdtemp(prefix="build-replay-", dir=HERE)
    try:
        exe = build(GROUP_OF[prop], d)
        PRE = no_aslr()
        res = outcome(exe, prop, tier, path, d)
        for l in res[3]:
            print(l)
        print("class=%s hash=%s %s" % res[:3])
        if not res[0]:
            print("the property holds on this schedule")
            return 0
        same = res[0] == want.group(1) and res[1] == want.group(2)
        print("reproduced exactly" if same else "violated, but differently than recorded (%s)" % want.group(0))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(a):
    if len(a) >= 2 and a[0] == "check":
        return check(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    if len(a) == 3 and a[0] == "build":
        os.makedirs(a[2], exist_ok=True)
        print(build(a[1], a[2]))
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
