#!/usr/bin/env python3
"""Deterministic-simulation checks for mcy/best.

  check.py C01 [--tier quick|thorough]     run the check of one property
  check.py C01 --replay FILE               replay a recorded violation
  check.py --build                         build every simulated world
  check.py --selftest                      determinism proof (see DESIGN.md)

Exit 0: held on everything explored.  Exit 1: VIOLATION.  Exit 2: check error.
"""
import argparse, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
REPLAYS = os.path.join(VERIF, "replays")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from worlds import BINARIES, PROPS  # noqa: E402


class CheckError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


# ------------------------------------------------------------------ building
def pick(*names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
    raise CheckError("none of %s is installed" % (names,))


CXX = pick("clang++-18", "clang++")
OBJCOPY = pick("llvm-objcopy-18", "llvm-objcopy", "objcopy")
LIBCXX = "/usr/lib/llvm-17"
BASE = ["-std=c++20", "-stdlib=libc++", "-nostdinc++", "-isystem", LIBCXX + "/include/c++/v1",
        "-Wno-everything", "-O1", "-gline-tables-only", "-fno-omit-frame-pointer",
        "-fsanitize=address", "-iquote", REPO, "-I" + os.path.join(VERIF, "sim")]
LINK = ["-stdlib=libc++", "-L" + LIBCXX + "/lib", "-Wl,-rpath," + LIBCXX + "/lib", "-fuse-ld=lld",
        "-fsanitize=address", "-rdynamic", "-Wl,-T," + os.path.join(VERIF, "sim", "lib.ld")]
# Variants of the code under test.
VARIANTS = {
    "debug": [],
    "release": ["-DNDEBUG", "-DBEST_SIM_RELEASE", "-O2"],
    # Every basic block and memory access is a possible thread switch point.
    "preempt": ["-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores"],
}
LIB_SKIP = ("test_main.cc",)


def lib_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "best")):
        for f in sorted(fs):
            if f.endswith(".cc") and not f.endswith("_test.cc") and f not in ("toy.cc", "fodder.cc", "test_main.cc", "unit_test.cc"):
                out.append(os.path.join(d, f))
    return sorted(out)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def all_files(root, exts):
    out = []
    for d, dirs, fs in os.walk(root):
        out += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return out


def compile_one(cmd_key, cmd, obj, redirect):
    if os.path.exists(obj):
        return
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.tmp.o" % os.getpid()
    r = run(cmd + ["-o", tmp], cwd=REPO)
    if r.returncode:
        raise CheckError("compilation failed: %s\n%s" % (" ".join(cmd), r.stdout.decode("utf8", "replace")[-6000:]))
    if redirect:
        cmd = [OBJCOPY, "--redefine-syms=" + os.path.join(VERIF, "sim", "redir.txt")]
        if redirect == "lib":
            cmd += ["--rename-section", ".init_array=sim_init,alloc,load,data,contents"]
        r = run(cmd + [tmp])
        if r.returncode:
            raise CheckError("objcopy failed: " + r.stdout.decode("utf8", "replace"))
    os.rename(tmp, obj)


def build(binaries, broken=None):
    """Builds the named binaries from /repo's current tree; returns {name: path}.
    With a list `broken`, worlds that do not compile go there, with the error."""
    os.makedirs(BUILD, exist_ok=True)
    repo_files = all_files(os.path.join(REPO, "best"), (".h", ".cc", ".inc"))
    sim_files = all_files(os.path.join(VERIF, "sim"), (".h", ".cc", ".inc", ".txt", ".ld"))
    key_repo = tree_hash(repo_files)
    key_sim = tree_hash(sim_files)
    flags = json.dumps([BASE, LINK, VARIANTS, "core-first", "tls"])
    h = lambda *a: hashlib.sha256("|".join(a).encode()).hexdigest()[:20]
    jobs, links = [], {}
    core = os.path.join(BUILD, "core-%s.o" % h(key_sim, flags))
    jobs.append(("core", [CXX] + BASE + ["-O2", "-c", os.path.join(VERIF, "sim", "core.cc")], core, False))
    libobjs = {}
    done_paths = {core}
    order = []
    for name in binaries:
        b = BINARIES[name]
        variant = b.get("variant", "debug")
        if variant not in libobjs:
            libobjs[variant] = []
            for src in lib_sources():
                obj = os.path.join(BUILD, "lib-%s-%s-%s.o" % (variant, os.path.basename(src)[:-3], h(key_repo, key_sim, flags, src, variant)))
                libobjs[variant].append(obj)
                jobs.append(("lib", [CXX] + BASE + VARIANTS[variant] + ["-c", src], obj, "lib"))
        objs = []
        for i, src in enumerate(b["src"]):
            defs = b.get("defs", [])
            path = os.path.join(VERIF, "sim", src)
            # Sources named app_*: part of the simulated program, restarted with it.
            part = "s" if src.startswith("app_") else "w"
            obj = os.path.join(BUILD, "%s-%s-%d-%s.o" % (part, name, i, h(key_repo, key_sim, flags, path, variant, json.dumps(defs))))
            objs.append(obj)
            order.append(("world", [CXX] + BASE + VARIANTS[variant] + ["-D" + d for d in defs] + ["-c", path], obj, "lib" if part == "s" else True))
        exe = os.path.join(BUILD, "%s-%s" % (name, h(key_repo, key_sim, flags, json.dumps(b))))
        links[name] = (exe, objs, variant)
    jobs = order + jobs
    with ThreadPoolExecutor(JOBS) as ex:
        bad = set()
        for j, f in [(j, ex.submit(compile_one, *j)) for j in jobs]:
            try:
                f.result()
            except CheckError as e:
                if broken is None or j[0] != "world":
                    raise
                names = [n for n in links if j[2] in links[n][1]]
                broken += [(n, str(e)) for n in names]
                bad.update(names)
        binaries = [b for b in binaries if b not in bad]

        def link(name):
            exe, objs, variant = links[name]
            if not os.path.exists(exe):
                tmp = exe + ".%d.tmp" % os.getpid()
                # Thread-local storage in the simulated program: each run gets a thread of its own.
                tls = [o for o in objs + libobjs[variant] if any(t in open(o, "rb").read() for t in (b".tbss", b".tdata"))]
                extra = ["-Wl,--defsym=sim_has_tls=%d" % bool(tls)]
                r = run([CXX] + LINK + extra + [core] + objs + libobjs[variant] + ["-o", tmp, "-lpthread", "-lm"])
                if r.returncode:
                    raise CheckError("link failed: " + r.stdout.decode("utf8", "replace")[-6000:])
                os.rename(tmp, exe)
            return name, exe
        return dict(ex.map(link, binaries))


# ------------------------------------------------------------------ running
ENV = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C", "HOME": "/"}
FAIL_RE = re.compile(r"^FAIL (\{.*\})\s*$", re.M)
STATS_RE = re.compile(r"^STATS (\{.*\})\s*$", re.M)


class Result:
    def __init__(self, rc, text):
        self.rc = rc
        self.text = text
        m = FAIL_RE.search(text)
        self.fail = json.loads(m.group(1)) if m else None
        m = STATS_RE.search(text)
        self.stats = json.loads(m.group(1)) if m else None
        self.harness = "\nHARNESS " in text
        if rc == "timeout" and not self.fail:
            self.fail = {"props": "*", "class": "stuck", "msg": "no progress within the wall-clock bound", "op": 0, "opkind": "", "hash": "0"}
        elif self.fail is None and not self.harness and rc not in (0, 3, 4):
            self.fail = {"props": "*", "class": "death:%s" % rc, "msg": "the simulated program died without a report", "op": 0, "opkind": "", "hash": "0"}

    def ident(self):
        """What must match on a repeat."""
        if not self.fail:
            return None
        return (self.fail["class"], "" if self.fail["class"] in ("hang", "stuck") else self.fail["hash"])


def spawn(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=ENV, cwd="/")
    return p


def finish(p, timeout):
    try:
        out, _ = p.communicate(timeout=timeout)
        return Result(p.returncode, out.decode("utf8", "replace"))
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return Result("timeout", out.decode("utf8", "replace"))


def exec_plans(exe, text, prop, timeout=90, verbose=False):
    with tempfile.NamedTemporaryFile("w", suffix=".plan", delete=False) as f:
        f.write(text)
    try:
        world = re.search(r"^plan (\S+)", text, re.M)
        cmd = [exe, "exec", f.name, "--props", prop] + (["-v"] if verbose else []) + (known_args(prop, world.group(1)) if world else [])
        return finish(spawn(cmd, timeout), timeout)
    finally:
        os.unlink(f.name)


def gen_plans(exe, world, seed, start, count, stride, prop=""):
    r = run([exe, "gen", "--world", world, "--seed", str(seed), "--from", str(start), "--count", str(count), "--stride", str(stride), "--props", prop], env=ENV, cwd="/")
    if r.returncode:
        raise CheckError("plan generation failed: " + r.stdout.decode("utf8", "replace")[-2000:])
    # A run that fails while its schedule is being drawn may report on the way.
    return "".join(l + "\n" for l in r.stdout.decode("utf8", "replace").splitlines() if re.match(r"(plan|cfg|op|sw) |end$", l))


# ------------------------------------------------------------------ shrinking
class P:
    """A parsed plan."""
    def __init__(self, text):
        self.head, self.cfg, self.ops, self.sw = "", [], [], []
        for l in text.splitlines():
            t = l.split()
            if not t or t[0] == "#" or t[0] == "end":
                continue
            if t[0] == "plan": self.head = l
            elif t[0] == "cfg": self.cfg.append([t[1], int(t[2])])
            elif t[0] == "op": self.ops.append([t[1], t[2], [int(x) for x in t[3:]]])
            elif t[0] == "sw": self.sw.append([int(t[1]), int(t[2])])

    def text(self, ops=None, sw=None, cfg=None):
        ops = self.ops if ops is None else ops
        sw = self.sw if sw is None else sw
        cfg = self.cfg if cfg is None else cfg
        s = [self.head] + ["cfg %s %d" % (k, v) for k, v in cfg]
        s += ["op %s %s %s" % (u, k, " ".join(map(str, a))) for u, k, a in ops]
        s += ["sw %d %d" % (a, b) for a, b in sw] + ["end"]
        return "\n".join(s) + "\n"


def split_plans(text):
    out, cur = [], []
    for l in text.splitlines():
        if l.startswith("#"):
            continue
        cur.append(l)
        if l.strip() == "end":
            out.append("\n".join(cur) + "\n")
            cur = []
    return out


def minimise(exe, prefix, text, prop, cls, budget_s=75, budget_n=900):
    """Shrinks the last plan (after `prefix` plans) while the violation class persists."""
    t0, n = time.time(), [0]

    def bad(t):
        if time.time() - t0 > budget_s or n[0] >= budget_n:
            return False
        n[0] += 1
        r = exec_plans(exe, prefix + t, prop, timeout=60)
        return r.fail is not None and not r.harness and r.fail["class"] == cls

    p = P(text)

    def ddmin(items, rebuild):
        k = max(1, len(items) // 2)
        while k >= 1 and items:
            i, progress = 0, False
            while i < len(items):
                cand = items[:i] + items[i + k:]
                if bad(rebuild(cand)):
                    items, progress = cand, True
                else:
                    i += k
            if k == 1 and not progress:
                break
            k = max(1, k // 2) if k > 1 else (1 if progress else 0)
        return items

    for _ in range(2):
        before = (len(p.ops), len(p.sw))
        p.sw = ddmin(p.sw, lambda c: p.text(sw=c))
        p.ops = ddmin(p.ops, lambda c: p.text(ops=c))
        if (len(p.ops), len(p.sw)) == before:
            break
    # Smaller arguments.
    for oi, (u, k, a) in enumerate(p.ops):
        for ai in range(len(a)):
            for v in (0, 1, a[ai] // 2):
                if a[ai] == v or (v and abs(v) >= abs(a[ai])):
                    continue
                cand = [list(o) for o in p.ops]
                cand[oi] = [u, k, a[:ai] + [v] + a[ai + 1:]]
                if bad(p.text(ops=cand)):
                    p.ops = cand
                    a = cand[oi][2]
                    break
    # Plainer configuration.
    for ci in range(len(p.cfg)):
        if p.cfg[ci][1] == 0 or p.cfg[ci][0] in ("kind", "threads"):
            continue
        cand = [list(c) for c in p.cfg]
        cand[ci][1] = 0
        if bad(p.text(cfg=cand)):
            p.cfg = cand
    return p.text(), n[0]


# ------------------------------------------------------------------ known findings
def known_findings():
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("known:"):
                d = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', l))
                d = {k: v.strip('"') for k, v in d.items()}
                d["what"] = l.split("::", 1)[1].strip() if "::" in l else l
                out.append(d)
    return out


def is_known(prop, world, fail, known):
    for d in known:
        if (d.get("property") == prop and d.get("world", world) == world and
                d.get("class", fail["class"]) == fail["class"] and d.get("contains", "") in fail["msg"]):
            return d
    return None


def known_args(prop, world):
    out = []
    for d in known_findings():
        if d.get("property") == prop and d.get("world", world) == world and "class" in d:
            out += ["--known", "%s|%s" % (d["class"], d.get("contains", ""))]
    return out


# ------------------------------------------------------------------ the check
def check(prop, tier, seed):
    t0 = time.time()
    spec = PROPS[prop]
    # A world that does not compile is no reason not to run the others; but
    # then there is no verdict unless they find a violation.
    broken = []
    exes = build([b for b, *_ in spec["worlds"]], broken)
    if not exes:
        raise CheckError(broken[0][1])
    t_build = time.time() - t0
    known = known_findings()
    tasks = []   # [binary, world, start, stride, count, weight]
    for bin_, weight, quick, thorough in spec["worlds"]:
        if bin_ not in exes:
            continue
        world = BINARIES[bin_].get("world", bin_)
        total = quick if tier == "quick" else thorough
        shards = max(1, min(JOBS, total // 200 or 1))
        for s in range(shards):
            tasks.append([bin_, world, s, shards, (total - s + shards - 1) // shards, weight])
    budget = float(os.environ.get("VERIF_BUDGET", spec.get("quick_s", 45) if tier == "quick" else spec.get("thorough_s", 540)))
    weight_sum = sum(t[5] / t[3] for t in tasks)
    work = tempfile.mkdtemp(prefix="bestsim")
    lock = threading.Lock()
    stop = threading.Event()
    found, notes, allstats = [], [], {}
    known_hits = {}
    samples = []
    dumps = []
    errors = []

    def do(task_no):
        bin_, world, start, stride, count, weight = tasks[task_no]
        cap = max(2.0, budget * JOBS * (weight / stride) / weight_sum)
        status = os.path.join(work, "st%d" % task_no)
        done = 0
        tend = time.time() + cap
        while done < count and not stop.is_set() and time.time() < tend:
            dump = os.path.join(work, "d%d-%d" % (task_no, done))
            left = max(1.0, tend - time.time())
            cmd = [exes[bin_], "batch", "--world", world, "--seed", str(seed), "--from", str(start + done * stride),
                   "--stride", str(stride), "--count", str(count - done), "--secs", "%.1f" % left, "--status", status,
                   "--props", prop, "--dump", dump] + known_args(prop, world)
            p = spawn(cmd, None)
            out_box = {}
            th = threading.Thread(target=lambda: out_box.update(r=finish(p, left + 150)))
            th.start()
            while th.is_alive():
                th.join(0.1)
                if stop.is_set() and p.poll() is None:
                    p.kill()
            r = out_box["r"]
            if stop.is_set():
                return
            with lock:
                if os.path.exists(dump):
                    dumps.append((bin_, dump))
                if r.stats:
                    merge(allstats.setdefault(bin_, {}), r.stats)
            if r.rc == 0 and not r.fail:
                return
            try:
                idx, k = struct.unpack("<QQ", open(status, "rb").read(16))
            except Exception:
                idx, k = start, 0
            if r.harness or r.rc == 3:
                with lock:
                    errors.append("%s run %d: %s" % (world, idx, r.text[-1500:]))
                stop.set()
                return
            if r.rc == 4:
                done += k + 1
                continue
            kf = is_known(prop, world, r.fail, known)
            if kf:
                with lock:
                    known_hits[kf["what"]] = known_hits.get(kf["what"], 0) + 1
                done += k + 1
                continue
            with lock:
                found.append((bin_, world, start, stride, idx, r))
            stop.set()
            return

    try:
        with ThreadPoolExecutor(JOBS) as ex:
            # Interleave worlds so that a failure anywhere shows early.
            orderd = sorted(range(len(tasks)), key=lambda i: (tasks[i][2], i))
            for f in [ex.submit(do, i) for i in orderd]:
                f.result()
        if errors and not found:
            raise CheckError("\n".join(errors))
        for d in known:
            for s in allstats.values():
                n = s.get("known", {}).get("%s|%s" % (d.get("class"), d.get("contains", "")), 0) if d.get("property") == prop else 0
                if n:
                    known_hits[d["what"]] = known_hits.get(d["what"], 0) + n
        if known_hits:
            for w, n in known_hits.items():
                notes.append("known finding met %d times: %s" % (n, w))
        for d in known:
            if d.get("property") == prop:
                print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
        violation = None
        if found:
            violation = confirm(prop, seed, exes, found[0])
        # Samples: a few actual runs, written out.
        for bin_, world, start, stride, count, weight in tasks[:: max(1, len(tasks) // 3)][:3]:
            try:
                samples.append({"world": world, "plan": gen_plans(exes[bin_], world, seed, start, 1, stride, prop).strip().split("\n")[:40]})
            except CheckError:
                pass
        evidence(prop, tier, seed, spec, allstats, dumps, samples, notes, t_build, time.time() - t0, violation, found)
        if violation:
            print("%s: %s" % (violation["class"], violation["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, violation["replay"]))
            return 1
        if broken:
            raise CheckError("no violation found, but %s could not be built: %s" % (", ".join(n for n, _ in broken), broken[0][1]))
        total = sum(s.get("runs", 0) for s in allstats.values())
        print("property %s held: %d simulated runs, %.1fs (%.1fs building)" % (prop, total, time.time() - t0, t_build))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def merge(into, s):
    for k, v in s.items():
        if isinstance(v, dict):
            merge(into.setdefault(k, {}), v)
        else:
            into[k] = into.get(k, 0) + v


def confirm(prop, seed, exes, f):
    bin_, world, start, stride, idx, r = f
    exe = exes[bin_]
    prefix = ""
    plan = gen_plans(exe, world, seed, idx, 1, 1, prop)
    a = exec_plans(exe, plan, prop)
    if not a.fail:
        # The failure may need what earlier runs of the same process left behind.
        j = 1
        kmax = (idx - start) // stride
        while True:
            j = min(j, kmax)
            if j <= 0:
                break
            pre = gen_plans(exe, world, seed, idx - j * stride, j, stride, prop)
            a = exec_plans(exe, pre + plan, prop, timeout=240)
            if a.fail:
                prefix = pre
                break
            if j == kmax:
                break
            j *= 4
        if not a.fail:
            raise CheckError("a violation of %s was observed in world %s run %d but does not replay:\n%s" % (prop, world, idx, r.text[-2000:]))
        if prefix:
            # Shrink the prefix.
            ps = split_plans(prefix)
            k = max(1, len(ps) // 2)
            t1 = time.time()
            while k >= 1 and time.time() - t1 < 90:
                i = 0
                while i < len(ps) and time.time() - t1 < 90:
                    cand = ps[:i] + ps[i + k:]
                    q = exec_plans(exe, "".join(cand) + plan, prop, timeout=240)
                    if q.fail and q.fail["class"] == a.fail["class"]:
                        ps = cand
                    else:
                        i += k
                k //= 2
            prefix = "".join(ps)
    cls = (a.fail or {}).get("class")
    text, tries = minimise(exe, prefix, plan, prop, cls)
    final = prefix + text
    x, y = exec_plans(exe, final, prop), exec_plans(exe, final, prop)
    if not x.fail or x.ident() != y.ident() or x.harness:
        final = prefix + plan
        x, y = exec_plans(exe, final, prop), exec_plans(exe, final, prop)
        if not x.fail or x.ident() != y.ident() or x.harness:
            raise CheckError("a violation of %s in world %s run %d does not replay identically: %s / %s" % (prop, world, idx, x.fail, y.fail))
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s-%s.plan" % (prop, world, hashlib.sha256(final.encode()).hexdigest()[:10]))
    with open(path, "w") as o:
        o.write("# property %s\n# binary %s\n# seed %d run %d\n# class %s\n# message %s\n# event-hash %s\n# minimised with %d executions\n# replay: python3 %s %s --replay %s\n" %
                (prop, bin_, seed, idx, x.fail["class"], x.fail["msg"].replace("\n", " "), x.fail["hash"], tries, os.path.join(VERIF, "check.py"), prop, path))
        o.write(final)
    return dict(x.fail, replay=path, world=world, run=idx)


def evidence(prop, tier, seed, spec, stats, dumps, samples, notes, t_build, wall, violation, found):
    tot = {}
    for s in stats.values():
        merge(tot, s)
    # Distinct counts are merged as sets over all shards.
    sets = {0: set(), 1: set(), 2: set()}
    for bin_, d in dumps:
        data = open(d, "rb").read()
        off = 0
        for k in range(3):
            if off + 8 > len(data):
                break
            n, = struct.unpack_from("<Q", data, off)
            off += 8
            vals = struct.unpack_from("<%dQ" % n, data, off)
            off += 8 * n
            if k == 1:
                sets[k].update((bin_, v) for v in vals)
            else:
                sets[k].update(vals)
    runs = tot.get("runs", 0)
    sim_s = max(0.001, wall - t_build)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(sets[0]),
        "rule": spec["rule"],
        "samples": samples or [{"world": f[1], "run": f[4]} for f in found[:1]],
        "simulated_runs_per_hour": int(runs / sim_s * 3600),
        "seeds_per_hour": int(runs / sim_s * 3600),
        "simulated_time": "the code under test has no clock; simulated progress is counted in scheduler steps and operations",
        "operations": tot.get("ops", 0),
        "scheduler_steps": tot.get("steps", 0),
        "thread_switches": tot.get("switches", 0),
        "distinct_interleavings": len(sets[2]),
        "abstract_states_reached": len(sets[1]),
        "heap_requests": tot.get("heap_requests", 0),
        "simulated_process_ends": tot.get("process_ends", 0),
        "faults_fired": tot.get("faults", {}),
        "runs_with_a_fault": tot.get("runs_with_fault", 0),
        "rare_conditions_reached": tot.get("reach", {}),
        "probes_never_reached": [p for p in spec.get("probes", []) if not tot.get("reach", {}).get(p) and not tot.get("faults", {}).get(p)],
        "runs_per_world": {b: s.get("runs", 0) for b, s in stats.items()},
        "real_components": spec["real"],
        "stub_components": spec["stub"],
        "notes": notes,
        "build_s": round(t_build, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    if violation:
        ev["coverage"]["violation"] = violation
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")


def replay(prop, path):
    text = open(path).read()
    m = re.search(r"^# binary (\S+)", text, re.M)
    if not m:
        raise CheckError("not a replay file")
    exe = build([m.group(1)])[m.group(1)]
    r = exec_plans(exe, text, prop, verbose=True)
    sys.stdout.write(r.text)
    if r.fail:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("no violation")
    return 0 if r.rc == 0 else 2


def selftest(seeds, per):
    """Same seeds, different processes and worker counts: identical event hashes."""
    exes = build(list(BINARIES))
    bad = 0
    jobs = [(b, s) for b in BINARIES for s in range(1, seeds + 1)]

    def one(job):
        b, s = job
        world = BINARIES[b].get("world", b)
        res = []
        for stride in (1, 3, 7):
            hs = {}
            for st in range(stride):
                r = run([exes[b], "batch", "--world", world, "--seed", str(s), "--from", str(st), "--stride", str(stride),
                         "--count", str((per - st + stride - 1) // stride), "--hashes"], env=dict(ENV, X="x" * (37 * stride)), cwd="/")
                for m in re.finditer(r"^H (\d+) (\w+)", r.stdout.decode("utf8", "replace"), re.M):
                    hs[int(m.group(1))] = m.group(2)
            res.append(hs)
        ok = res[0] == res[1] == res[2] and len(res[0]) == per
        return b, s, ok, len(res[0]), [k for k in res[0] if any(res[0][k] != r.get(k) for r in res[1:])][:5]
    with ThreadPoolExecutor(JOBS) as ex:
        for b, s, ok, n, diff in ex.map(one, jobs):
            if not ok:
                bad += 1
                print("DIVERGES %s seed %d (%d runs) at %s" % (b, s, n, diff))
    print("determinism: %d world x seed combinations x %d runs x 3 worker counts, %d divergent" % (len(jobs), per, bad))
    return 0 if not bad else 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--n", type=int, default=3)
    ap.add_argument("--per", type=int, default=400)
    a = ap.parse_args()
    try:
        if a.build:
            build(list(BINARIES))
            return 0
        if a.selftest:
            return selftest(a.n, a.per)
        if a.replay:
            return replay(a.prop, a.replay)
        return check(a.prop, a.tier, a.seed)
    except CheckError as e:
        print("CHECK-ERROR %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
