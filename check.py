#!/usr/bin/env python3
"""Deterministic simulation of ser-write: driver.

  check.py <PROPERTY> quick|thorough     decide one property on /repo's working tree
  check.py replay <FILE>                 run a replay file again (exit 1 when it reproduces)
  check.py build                         build every simulator variant
  check.py determinism                   large self-test: same seeds, other processes, other worker counts

Every simulated run is a function of (VERIF_SEED, property, run number) and of the code.
"""
import hashlib, json, os, re, resource, signal, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
TMP = os.path.join(BUILD, "tmp")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known_findings.txt")
CORES = int(os.environ.get("VERIF_CORES", "0")) or os.cpu_count() or 8

FEATURES = {"std": "v_std", "alloc": "v_alloc", "none": "", "f32": "v_std,v_f32", "w32": "v_std", "w32n": ""}
WHAT = {"std": "standard library", "alloc": "heap only (no_std + alloc)", "none": "no heap", "f32": "standard library, de-any-f32",
        "w32": "standard library, 32-bit machine", "w32n": "no heap, 32-bit machine",
        "rel": "optimised", "dbg": "debug assertions and overflow checks"}
ALL = ["std-rel", "std-dbg", "alloc-rel", "none-rel", "none-dbg", "w32-rel"]

# property -> [(variant, share of the runs)], runs in the quick check
HEAP = [("std-rel", 6), ("alloc-rel", 1), ("std-dbg", 1)]
BOTH = [("std-rel", 5), ("none-rel", 1), ("std-dbg", 1), ("none-dbg", 1)]
JSON = [("std-rel", 4), ("f32-rel", 1), ("none-rel", 1), ("std-dbg", 1), ("none-dbg", 1)]
W32 = [("w32-rel", 1)]
PLAN = {
    "C01": (BOTH, 800_000), "C02": (BOTH, 6_000_000), "C03": (BOTH + [("alloc-rel", 1)], 8_000_000), "C04": (HEAP, 3_500_000),
    "C05": (BOTH, 6_000_000), "C06": (BOTH, 500_000), "C07": (BOTH + W32, 3_000_000), "C08": (BOTH + W32, 6_000_000),
    "C09": (JSON, 600_000), "C10": (JSON, 5_000_000), "C11": (JSON, 600_000), "C12": (BOTH + [("none-rel", 2)], 8_000_000),
    "C13": (BOTH, 1_500_000), "C14": (BOTH, 1_500_000), "C15": ([(v, 1) for v in ALL], 2_000_000), "C16": (BOTH, 2_500_000),
}
PROBES = {"C08": ["mp-any-depth"], "C10": ["js-any-depth", "js-ignored-depth"]}
PROBE_CLASS = "stack exhausted by deep nesting"

DEFAULT_RULE = "a run draws its workload (types, values, formats, operations), its schedule and its faults from one seed; non-trivial when at least one oracle check was made and a fault fired or more than two events happened; distinct by the hash of the run's event sequence (kinds, positions, sizes, outcomes)"
REAL = ["ser-write (sinks, SliceWriter)", "ser-write-json (serializer, deserializer, base64)", "ser-write-msgpack (serializers, deserializer)",
        "serde, arrayvec, heapless, smallvec, tinyvec, ryu-js, base64/number code they call"]
STUB = ["writer behind SerWrite where the property injects its failures (simulated)", "allocator (simulated wrapper deciding which allocations fail)",
        "network, disk and receive buffers (simulated)", "user types (a dynamic Serialize/Deserialize implementation that can misbehave on purpose)"]


def die(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(2)


# ---- 32-bit machine: the standard library is built from source, start code and linker scripts are made here ----
TARGET32 = "i686-unknown-linux-gnu"
LIB32 = "/usr/lib32"


def w32(v):
    return v.startswith("w32")


def prepare_w32():
    """True when this machine can build and run 32-bit programs."""
    d = os.path.join(BUILD, "lib32")
    try:
        os.makedirs(d, exist_ok=True)
        for l, so in (("c", "libc.so.6"), ("m", "libm.so.6"), ("gcc_s", "libgcc_s.so.1"), ("util", "libc.so.6"), ("rt", "libc.so.6"), ("pthread", "libc.so.6"), ("dl", "libc.so.6")):
            if not os.path.exists(os.path.join(LIB32, so)): return False
            put(os.path.join(d, f"lib{l}.so"), f"INPUT({LIB32}/{so})\n")
        if subprocess.run([LIB32 + "/ld-linux.so.2", "--version"], capture_output=True).returncode: return False
        if not os.path.exists(os.path.join(d, "start.o")):
            tmp = os.path.join(d, f"start.{os.getpid()}.o")
            if subprocess.run(["as", "--32", os.path.join(SIM, "w32", "start.s"), "-o", tmp], capture_output=True).returncode: return False
            os.rename(tmp, os.path.join(d, "start.o"))
        sysroot = subprocess.run(["rustc", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
        return os.path.isdir(os.path.join(sysroot, "lib/rustlib/src/rust/library/std"))
    except OSError:
        return False


def put(path, text):
    if os.path.exists(path) and open(path).read() == text: return
    with open(path, "w") as f: f.write(text)


def binary(v):
    return os.path.join(BUILD, v, *([TARGET32] if w32(v) else []), v.split("-")[1], "sim")


def build(variants):
    """Rebuild from /repo's working tree; cargo decides what is stale. Returns the time and the 32-bit variants that cannot be built here."""
    os.makedirs(TMP, exist_ok=True)
    missing = []
    if any(map(w32, variants)) and not prepare_w32():
        missing = [v for v in variants if w32(v)]
        variants = [v for v in variants if not w32(v)]
    t0 = time.time()
    ps = []
    for v in variants:
        f, prof = v.split("-")
        cmd = ["cargo", "build", "--offline", "--quiet", "--profile", prof, "--target-dir", os.path.join(BUILD, v)]
        if FEATURES[f]: cmd += ["--features", FEATURES[f]]
        env = dict(os.environ, CARGO_TERM_COLOR="never")
        env.pop("RUSTFLAGS", None)
        if w32(v):
            cmd += ["--target", TARGET32, "-Zbuild-std=std,panic_unwind"]
            d = os.path.join(BUILD, "lib32")
            env["RUSTC_BOOTSTRAP"] = "1"  # building the standard library needs an unstable cargo option
            env["CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_RUSTFLAGS"] = " ".join("-Clink-arg=" + x for x in ("-nostartfiles", d + "/start.o", "-L" + d, f"-Wl,--dynamic-linker={LIB32}/ld-linux.so.2"))
        log = open(os.path.join(TMP, f"build.{v}.{os.getpid()}"), "w+")
        ps.append((v, log, subprocess.Popen(cmd, cwd=SIM, stdin=subprocess.DEVNULL, stdout=log, stderr=log, env=env)))
    bad = None
    for v, log, p in ps:
        if p.wait() != 0:
            log.seek(0)
            text = f"{v} does not build:\n{log.read()[-3000:]}"
            if w32(v): missing.append(v); print("NOTE " + text, flush=True)
            else: bad = text
        log.close()
        os.unlink(log.name)
    if bad: die(bad)
    return time.time() - t0, missing


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def spawn(args, **kw):
    return subprocess.Popen(args, stdin=subprocess.DEVNULL, preexec_fn=limits, **kw)


def cpu_of(pid):
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


HANG_CPU = 40.0  # a run normally takes well below a millisecond of CPU


def one_run(cmd, cpu=HANG_CPU):
    """Run one simulated run in its own process: (status, output); status: rc, 'signal-N' or 'hang'."""
    out = open(os.path.join(TMP, f"one.{os.getpid()}"), "w+b")
    p = spawn(cmd, stdout=out, stderr=subprocess.STDOUT)
    while True:
        try:
            rc = p.wait(timeout=0.02 if cpu < 1 else 0.2)
            break
        except subprocess.TimeoutExpired:
            if cpu_of(p.pid) > cpu:
                p.kill(); p.wait(); rc = "hang"
                break
    out.seek(0)
    text = out.read().decode("utf-8", "replace")
    out.close()
    os.unlink(out.name)
    if isinstance(rc, int) and rc < 0: rc = f"signal-{-rc}"
    return rc, text


def field(text, name):
    m = re.search(rf"^{name} (.*)$", text, re.M)
    return m.group(1) if m else None


class Job:
    """One worker process over a shard of the runs of one variant."""
    def __init__(self, prop, variant, seed, start, step, count, secs, deep, obs, tag):
        self.prop, self.variant, self.seed, self.start, self.step, self.count, self.deep = prop, variant, seed, start, step, count, deep
        base = os.path.join(TMP, f"{prop}.{os.getpid()}.{tag}")
        self.f_out, self.f_prog, self.f_hash, self.f_obs = base + ".out", base + ".prog", base + ".hash", (base + ".obs" if obs else None)
        self.cmd = [binary(variant), "batch", "--prop", prop, "--seed", str(seed), "--start", str(start), "--step", str(step), "--count", str(count),
                    "--secs", str(secs), "--progress", self.f_prog, "--hashes", self.f_hash] + (["--deep"] if deep else []) + (["--obs", self.f_obs] if obs else [])
        self.p, self.rc, self.last, self.last_cpu = None, None, None, 0.0

    def begin(self):
        self.out = open(self.f_out, "w+b")
        self.p = spawn(self.cmd, stdout=self.out, stderr=subprocess.STDOUT)

    def poll(self):
        rc = self.p.poll()
        if rc is not None:
            self.rc = f"signal-{-rc}" if rc < 0 else rc
            return True
        cur, cpu = self.progress(), cpu_of(self.p.pid)
        if cur != self.last: self.last, self.last_cpu = cur, cpu
        elif cpu - self.last_cpu > HANG_CPU and self.last is not None:
            self.p.kill(); self.p.wait()
            self.rc = "hang"
            return True
        return False

    def progress(self):
        try: return int(open(self.f_prog).read().split()[0])
        except (OSError, ValueError, IndexError): return None

    def text(self):
        self.out.seek(0)
        return self.out.read().decode("utf-8", "replace")

    def clean(self):
        if self.p and self.p.poll() is None: self.p.kill(); self.p.wait()
        for f in (self.f_out, self.f_prog, self.f_hash, self.f_obs):
            if f and os.path.exists(f): os.unlink(f)


def pool(jobs, on_done):
    """Runs the jobs on all cores; on_done(job) returns True to stop everything."""
    todo, live, stop = list(jobs), [], False
    try:
        while (todo or live) and not stop:
            while todo and len(live) < CORES:
                j = todo.pop(0)
                j.begin()
                live.append(j)
            time.sleep(0.02)
            for j in list(live):
                if j.poll():
                    live.remove(j)
                    if on_done(j): stop = True; break
    finally:
        for j in live: j.clean()


# ---- crash and hang: find the choices, then shrink in subprocesses ----------------------------------
def write_choices(c, name):
    f = os.path.join(TMP, f"{name}.{os.getpid()}")
    open(f, "w").write(" ".join(map(str, c)))
    return f


def try_choices(prop, variant, c, deep, quiet=True, cpu=HANG_CPU):
    f = write_choices(c, "choices")
    r = one_run([binary(variant), "choices", "--prop", prop, "--file", f] + (["--deep"] if deep else []) + (["--quiet"] if quiet else []), cpu)
    os.unlink(f)
    return r


def crash_kind(rc, text):
    if rc == "hang": return "hang"
    if "memory allocation of" in text: return "abort:out-of-memory"
    if "has overflowed its stack" in text: return "stack-overflow"
    if "panic in a function that cannot unwind" in text or "panicked while processing panic" in text: return "abort:panic"
    if isinstance(rc, str): return "crash:" + rc
    return None


def live_choices(prop, variant, seed, run, deep):
    f = os.path.join(TMP, f"live.{os.getpid()}")
    rc, text = one_run([binary(variant), "run", "--prop", prop, "--seed", str(seed), "--run", str(run), "--live", f, "--quiet"] + (["--deep"] if deep else []))
    c = [int(x) for x in open(f).read().split()] if os.path.exists(f) else []
    if os.path.exists(f): os.unlink(f)
    return rc, text, c


def minimise(c, same, secs):
    """Delete chunks, then lower values, as long as same(choices) holds."""
    t0 = time.time()
    over = lambda: time.time() - t0 > secs
    while True:
        before = list(c)
        size = max(1, len(c) // 2)
        while size >= 1 and not over():
            i = 0
            while i < len(c) and not over():
                d = c[:i] + c[i + size:]
                if same(d): c = d
                else: i += size
            size //= 2
        for i in range(len(c)):
            if over(): break
            if c[i] and same(c[:i] + [0] + c[i + 1:]): c = c[:i] + [0] + c[i + 1:]
            elif c[i] > 1 and same(c[:i] + [c[i] // 2] + c[i + 1:]): c = c[:i] + [c[i] // 2] + c[i + 1:]
        while c and c[-1] == 0: c = c[:-1]
        if c == before or over(): return c


def batch_violation(job, what):
    """Something that needs the runs before it in the same process (stray memory, state kept between calls): replayed as a batch."""
    return {"class": "needs-earlier-runs", "detail": what, "run": job.progress() or 0, "choices": [], "batch": [strip_files(job.cmd)], "ended": str(job.rc)}


def strip_files(cmd):
    out, skip = [], False
    for a in cmd[1:]:
        if skip: skip = False; continue
        if a in ("--progress", "--hashes", "--obs"): skip = True; continue
        out.append(a)
    return out


def crash_violation(job):
    """A worker died or hung: reproduce the run in a fresh process and minimise it."""
    run = job.progress()
    tail = job.text()[-500:]
    if run is None: die(f"worker {job.cmd} ended with {job.rc} before its first run: {tail}")
    rc, text, c = live_choices(job.prop, job.variant, job.seed, run, job.deep)
    kind = crash_kind(rc, text)
    if kind is None:
        if rc in (1,):  # it violates without crashing when run alone
            return {"class": field(text, "CLASS"), "detail": field(text, "DETAIL"), "run": run, "choices": c}
        return batch_violation(job, f"worker ended with {job.rc} at run {run}, the run alone ends with {rc}: {tail}")
    cpu = 5.0 if kind == "hang" else HANG_CPU
    same = lambda d: crash_kind(*try_choices(job.prop, job.variant, d, job.deep, True, cpu)) == kind
    c = minimise(c, same, 60)
    return {"class": kind, "detail": f"the process did not survive run {run}: {kind}" , "run": run, "choices": c}


# ---- C15: comparing builds ------------------------------------------------------------------------
def obs_of(prop, variant, c, deep):
    rc, text = try_choices(prop, variant, c, deep, True, 10.0)
    k = crash_kind(rc, text)
    return k or field(text, "OBSDIGEST")


def mismatch_violation(prop, seed, run, deep, a, b):
    _, _, c = live_choices(prop, a, seed, run, deep)
    _, _, d = live_choices(prop, b, seed, run, deep)
    differs = lambda x: obs_of(prop, a, x, deep) != obs_of(prop, b, x, deep)
    c = next((x for x in sorted((c, d), key=len, reverse=True) if differs(x)), None)
    if c is None: return None
    c = minimise(c, differs, 90)
    ta, tb = (try_choices(prop, v, c, deep, False)[1] for v in (a, b))
    oa, ob = ([l for l in t.splitlines() if l.startswith("OBS ")] for t in (ta, tb))
    first = next((f"{a}: {x!r} {b}: {y!r}" for x, y in zip(oa + ["(end)"] * 99, ob + ["(end)"] * 99) if x != y), "only in the digests")
    return {"class": "builds-differ", "detail": f"{a} and {b} differ: {first}", "run": run, "choices": c, "pair": [a, b]}


# ---- known findings ---------------------------------------------------------------------------------
def known():
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) probe=(\S+) (.*)", l)
            if m: out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def probes(prop):
    """Directed runs; a listed failure is a known finding, an unlisted one a violation."""
    seen, listed = [], known()
    for name in PROBES.get(prop, []):
        rc, text = one_run([binary("std-rel"), "probe", name])
        if rc == 0: seen.append((name, "survived")); continue
        kind = crash_kind(rc, text)
        if kind is None: die(f"probe {name}: {rc} {text[-500:]}")
        if (prop, name) in listed and kind == "stack-overflow":
            print(f"KNOWN-FINDING: property={prop} {listed[(prop, name)]}", flush=True)
            seen.append((name, "known finding: " + kind))
        else:
            return seen, {"class": kind, "detail": f"directed run {name}: {kind}", "run": -1, "choices": [], "probe": name, "variant": "std-rel"}
    return seen, None


# ---- the check -----------------------------------------------------------------------------------------
def save_replay(prop, seed, tier, v):
    os.makedirs(REPLAYS, exist_ok=True)
    body = {"batch": v.get("batch"), "ended": v.get("ended"), "property": prop, "seed": seed, "tier": tier, "variant": v.get("variant"), "pair": v.get("pair"), "probe": v.get("probe"), "deep": v.get("deep", False),
            "run": v["run"], "class": v["class"], "detail": v["detail"], "choices": v["choices"]}
    if not v.get("probe") and not v.get("batch"):
        traces = {}
        for var in (v.get("pair") or [v["variant"]]):
            traces[var] = try_choices(prop, var, v["choices"], body["deep"], False)[1].splitlines()[-200:]
        body["trace"] = traces
    h = hashlib.sha1(json.dumps([body["class"], body["choices"], body["variant"], body["pair"]]).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, f"{prop}-{h}.json")
    json.dump(body, open(path, "w"), indent=1)
    return path


def replay(path):
    b = json.load(open(path))
    vs = b["pair"] or [b["variant"]]
    build(vs)
    prop = b["property"]
    if b.get("probe"):
        rc, text = one_run([binary("std-rel"), "probe", b["probe"]])
        print(text[-2000:])
        k = crash_kind(rc, text)
        print("REPRODUCED" if k == b["class"] else f"NOT REPRODUCED ({rc})")
        return 1 if k == b["class"] else 0
    if b.get("batch"):
        res = []
        for v in vs:
            rc, text = one_run([binary(v)] + b["batch"][0], 3600)
            print(f"--- {v}: {rc}\n{text[-2000:]}")
            res.append((str(rc), field(text, "DIGEST")))
        same = res[0][1] != res[1][1] if b["pair"] else res[0][0] == b["ended"]
        print(f"REPRODUCED {b['class']}" if same else "NOT REPRODUCED")
        if same: print(f"VIOLATION property={prop} replay={path}")
        return 1 if same else 0
    outs = [try_choices(prop, v, b["choices"], b["deep"], False) for v in vs]
    for v, (rc, text) in zip(vs, outs): print(f"--- {v}: {rc}\n{text}")
    if b["pair"]:
        o = [crash_kind(*x) or field(x[1], "OBSDIGEST") for x in outs]
        same = o[0] != o[1]
    else:
        rc, text = outs[0]
        same = (crash_kind(rc, text) or field(text, "CLASS")) == b["class"]
    print(f"REPRODUCED {b['class']}" if same else "NOT REPRODUCED")
    if same: print(f"VIOLATION property={prop} replay={path}")
    return 1 if same else 0


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    plan, total = PLAN[prop]
    print(f"seed {seed} property {prop} tier {tier}", flush=True)
    shares = {}
    if tier == "thorough" and not any(w32(v) for v, _ in plan): plan = plan + W32
    for v, s in plan: shares[v] = shares.get(v, 0) + s
    if tier == "thorough": total *= int(os.environ.get("VERIF_THOROUGH_FACTOR", "40"))
    if os.environ.get("VERIF_RUNS"): total = int(os.environ["VERIF_RUNS"])
    build_s, missing = build(list(shares))
    for v in missing:
        print(f"NOTE {v} cannot be built on this machine and is left out", flush=True)
        del shares[v]
    jobs, sumsh, compare = [], sum(shares.values()), prop == "C15"
    pieces_of = {v: max(1, min(2 * CORES, (total * s // sumsh + 999) // 1000)) for v, s in shares.items()}
    # whatever the machine: all shards together end within 400 s (a slow machine explores less)
    secs = max(10, 400 * CORES // sum(pieces_of.values())) if tier == "quick" else 6 * 3600
    for n, (v, s) in enumerate(shares.items()):
        runs = total * s // sumsh
        pieces = pieces_of[v]
        if compare: base = 0
        else: base = n * 10**12
        for k in range(pieces):
            # a part of the runs works with large messages
            deep = k % (8 if tier == "quick" else 3) == (7 if tier == "quick" else 2)
            cnt = runs // pieces
            if deep: cnt = max(1, cnt // 4)
            jobs.append(Job(prop, v, seed, base + k, pieces, cnt, secs, deep, compare, f"{v}.{k}"))
            jobs[-1].piece = k
    # variants interleaved, so that a violation in any of them shows early
    jobs.sort(key=lambda j: j.piece)
    tot = {"RUNS": 0, "EVENTS": 0, "CHECKS": 0, "SIMTIME": 0, "NONTRIVIAL": 0}
    faults, cover, hashes, per_variant, found, digests, cpu = {}, {}, set(), {}, [], {}, 0.0
    obs = {}

    def done(j):
        nonlocal cpu
        text = j.text()
        if j.rc == 2 or (j.rc == 0 and field(text, "RUNS") is None):
            j.clean(); die(f"harness error in {' '.join(j.cmd)}: {text[-2000:]}")
        if j.rc == 1:
            if field(text, "CLASS") is None: die(f"{' '.join(j.cmd)}: {text[-2000:]}")
            found.append({"class": field(text, "CLASS"), "detail": field(text, "DETAIL"), "run": int(field(text, "RUN")),
                          "choices": [int(x) for x in (field(text, "CHOICES") or "").split()], "variant": j.variant, "deep": j.deep})
        elif j.rc != 0:
            v = crash_violation(j)
            v.update(variant=j.variant, deep=j.deep)
            found.append(v)
        for k in tot:
            x = field(text, k)
            if x: tot[k] += int(x)
        cpu += float(field(text, "WALL") or 0)
        r = int(field(text, "RUNS") or 0)
        per_variant[j.variant] = per_variant.get(j.variant, 0) + r
        for n, name in re.findall(r"^FAULT (\d+) (.*)$", text, re.M): faults[name] = faults.get(name, 0) + int(n)
        for n, name in re.findall(r"^PROBE (\d+) (.*)$", text, re.M): cover[name] = cover.get(name, 0) + int(n)
        digests[(j.variant, j.piece)] = (field(text, "DIGEST"), r)
        if os.path.exists(j.f_hash):
            b = open(j.f_hash, "rb").read()
            # beyond 20 million the count of distinct executions is a lower bound
            if len(hashes) < 20_000_000: hashes.update(struct.unpack(f"<{len(b) // 8}Q", b))
        if j.f_obs and os.path.exists(j.f_obs):
            b = open(j.f_obs, "rb").read()
            mine = struct.unpack(f"<{len(b) // 8}Q", b)
            if j.piece in obs:
                other, ov = obs[j.piece]
                for i, (x, y) in enumerate(zip(other, mine)):
                    if x != y:
                        v = mismatch_violation(prop, seed, j.start + i * j.step, j.deep, ov, j.variant)
                        if v is None:
                            v = batch_violation(j, f"run {j.start + i * j.step}: {ov} and {j.variant} disagree after the runs before it, but not alone")
                            v["pair"] = [ov, j.variant]
                        v.update(variant=j.variant, deep=j.deep)
                        found.append(v)
                        break
            else: obs[j.piece] = (mine, j.variant)
        j.clean()
        return bool(found)

    probed, pv = probes(prop)
    t1 = time.time()
    if pv: found.append(pv)
    else: pool(jobs, done)
    run_s = time.time() - t1
    # determinism: a shard again, in another process
    again = "not run"
    if not found:
        j0 = jobs[0]
        n = max(1, min(2000, j0.count))
        pair = []
        for k in range(2):
            j = Job(prop, j0.variant, seed, j0.start, j0.step, n, 600, j0.deep, False, f"det.{k}")
            pair.append(j)
        pool(pair, lambda j: False)
        d = [field(j.text(), "DIGEST") for j in pair]
        for j in pair: j.clean()
        if d[0] != d[1] or d[0] is None: die(f"not deterministic: {d}")
        again = f"{n} runs repeated in a second process: same digest {d[0]}"
    # samples: event logs of two runs
    samples = []
    for r in (0, 1, 2, 3):
        if found or len(samples) == 2: break
        rc, text = one_run([binary(jobs[0].variant), "run", "--prop", prop, "--seed", str(seed), "--run", str(r)])
        lines = [l.strip() for l in text.splitlines() if l.startswith("  ")]
        if rc == 0 and lines: samples.append({"run": r, "events": [l[:400] for l in lines[:12]]})
    if found:
        v = found[0]
        path = save_replay(prop, seed, tier, v)
        samples.append({"run": v["run"], "class": v["class"], "detail": v["detail"][:1000]})
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": len(found),
        "coverage": {
            "evaluations": tot["RUNS"], "distinct_nontrivial": len(hashes), "rule": DEFAULT_RULE, "samples": samples,
            "nontrivial_runs": tot["NONTRIVIAL"], "oracle_checks": tot["CHECKS"], "events": tot["EVENTS"],
            "simulated_time_s": tot["SIMTIME"] / 1e6,
            "runs_per_hour": int(tot["RUNS"] / run_s * 3600) if run_s > 0 else 0,
            "seeds_per_hour": int(tot["RUNS"] / run_s * 3600) if run_s > 0 else 0,
            "seeds": "every run has its own seed, derived from VERIF_SEED, the property and the run number",
            "runs_per_build": {f"{v} ({WHAT[v.split('-')[0]]}, {WHAT[v.split('-')[1]]})": n for v, n in sorted(per_variant.items())},
            "faults_fired": dict(sorted(faults.items())), "coverage_probes": dict(sorted(cover.items())),
            "distinct_measure": "hash of the event sequence of a run" + (" (lower bound: counting stopped at 20 million)" if len(hashes) >= 20_000_000 else ""), "directed_probes": [f"{a}: {b}" for a, b in probed],
            "determinism": again, "real_components": REAL, "stubbed_components": STUB,
            "builds_left_out": missing, "build_s": round(build_s, 1), "worker_cpu_s": round(cpu, 1),
        },
        "assumptions": ["the reference models in sim/src/ref*.rs and the dynamic user type in sim/src/model.rs are right (they were written from the format specifications and the documentation)",
                        "sampling: a quiet batch is evidence, not proof"],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{tot['RUNS']} runs, {tot['CHECKS']} checks, {len(hashes)} distinct, {wall:.1f} s (build {build_s:.1f} s)", flush=True)
    if found:
        print(f"{v['class']}: {v['detail'][:2000]}")
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, HERE)}", flush=True)
        return 1
    return 0


def determinism():
    """Many seeds, twice each, in other processes, shards and builds of worker counts: digests of every run must agree."""
    build(["std-rel"])
    bad = 0
    for prop in PLAN:
        ref = None
        for arrangement in (1, 3, 8, 40):
            n, jobs = 480, []
            for k in range(arrangement):
                jobs.append(Job(prop, "std-rel", 7, k, arrangement, n // arrangement, 600, False, True, f"dt.{arrangement}.{k}"))
            got = {}
            def done(j):
                b = open(j.f_obs, "rb").read()
                h = open(j.f_hash, "rb").read()
                for i, x in enumerate(struct.unpack(f"<{len(b) // 8}Q", b)): got[j.start + i * j.step] = x
                got.setdefault("h", set()).update(struct.unpack(f"<{len(h) // 8}Q", h))
                j.clean()
                return False
            pool(jobs, done)
            if ref is None: ref = got
            elif ref != got: bad += 1; print(f"{prop}: not deterministic over {arrangement} processes")
        print(f"{prop}: {n} seeds x 4 arrangements (1, 3, 8 and 40 processes): {len(ref['h'])} distinct event logs agree", flush=True)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["build"]: print("built in %.1f s, left out: %s" % build(sorted({v for p, _ in PLAN.values() for v, _ in p}))); return 0
    if a[:1] == ["replay"] and len(a) == 2: return replay(a[1])
    if a[:1] == ["determinism"]: return determinism()
    if a and a[0] in PLAN: return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    print(__doc__)
    return 2


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    sys.exit(main())
