#!/usr/bin/env python3
"""Deterministic simulation checks of tagged-box.

check.py PROP quick|thorough   decide one property (VERIF_SEED chooses the seeds)
check.py replay FILE           run a replay file again
check.py setup                 build once, to see that the toolchain works
check.py determinism [N]       run the same seeds in many processes and compare
check.py build W PROFILE full|lite   build one simulated world and print its path
"""
import array, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(ROOT, "sim")
TARGET = os.path.join(ROOT, "target")
REPLAYS = os.path.join(ROOT, "replays")
EVIDENCE = os.path.join(ROOT, "evidence")
FINDINGS = os.path.join(ROOT, "KNOWN_FINDINGS")
CPUS = os.cpu_count() or 4
T0 = time.time()
ALL_PROPS = ["C%02d" % i for i in range(1, 15)]


def repo_path():
    m = re.search(r'tagged-box\s*=\s*\{\s*path\s*=\s*"([^"]+)"', open(os.path.join(SIM, "Cargo.toml")).read())
    return m.group(1)


REPO = repo_path()


def say(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ which violations concern which property

V = {"value", "identity", "unexpected-panic", "callback", "garbage-observed", "dropped-observed", "misaligned", "addr",
     "null", "crash", "no-progress", "hang"}
P = {"double-drop", "early-drop", "garbage-dropped"}
H = {"block-shape", "no-block", "overrun", "double-free", "invalid-free", "write-after-free", "layout-mismatch",
     "zero-size-alloc", "bad-layout", "misaligned", "read-after-free"}
L = {"leak-value", "leak-block", "lost-block"}
SHARED = {"shared-value", "shared-storage"}
END = {"crash", "no-progress", "hang"}
RAW = {"rmk", "rlook", "rwrite", "rraw", "rbox", "rtake", "rdisc", "rhex", "tp", "rdrop", "ralias", "rrefuse",
       "refused-rmk", "allocfail-rmk", "failed-rmk"}
CLONES = {"clone", "clonefrom", "failed-clone", "allocfail-clone", "failed-clonefrom"}


def concerns(prop, cls):
    """Whether a violation of class `cls`, seen in a run of `prop`'s workload, is one of `prop`."""
    kind, _, group = cls.partition("@")
    if kind in END:
        return True
    if prop == "C01":
        return (kind in V | P | SHARED | H | {"disc", "lost-block"}) and group not in RAW
    if prop == "C02":
        return kind in V | P | H | {"disc", "lost-block"} and (group in RAW or group in ("", "audit"))
    if prop == "C03":
        return (kind in {"disc", "not-refused", "unexpected-panic", "early-drop", "double-drop"} or group.startswith("refused-")
                or (group == "tp" and kind not in {"text", "text-after-error", "swallowed-error", "spurious-error"})
                or group == "rrefuse")
    if prop == "C04":
        return kind.startswith("foreign-") or group == "foreign"
    if prop == "C05":
        return group.startswith("allocfail-") or kind in {"alloc-fail-ignored", "panic-replaced"} | V | P
    if prop == "C06":
        return kind in V | P | {"swallowed-panic", "panic-replaced"} or (kind in {"lost-block"} and group in
                                                                          {"look", "look2", "cmp", "fmt", "hex", "clone", "rlook"})
    if prop == "C07":
        return kind in H | {"lost-block", "null"} or (kind == "leak-block" and group in {"mk", "rmk", "put", "rbox", "rraw", "rewrap"})
    if prop == "C08":
        return kind in L | P | {"lost-block", "zero-size-alloc", "double-free", "invalid-free", "layout-mismatch"} or cls == "block-shape@rmk"
    if prop == "C09":
        return group in CLONES or kind in V | P | SHARED
    if prop == "C10":
        return kind == "cmp" or group == "cmp" or kind in {"early-drop", "double-drop"}
    if prop == "C11":
        return kind in {"text", "text-after-error", "swallowed-error", "spurious-error"} or group in {"fmt", "hex", "rhex", "tp"}
    if prop == "C12":
        return True
    if prop == "C13":
        return group == "im" or kind in P
    return kind in {"disc", "not-refused"}  # C14; the comparison of builds is separate


# ------------------------------------------------------------------ building

def tree_hash():
    h = hashlib.sha256()
    tops = [(REPO, ("src", "build.rs", "Cargo.toml")), (SIM, ("src", "rt", "Cargo.toml", "rustc-wrap.sh"))]
    for base, names in tops:
        for n in names:
            p = os.path.join(base, n)
            files = []
            if os.path.isdir(p):
                for d, dirs, fs in os.walk(p):
                    dirs.sort()
                    if "target" in dirs:
                        dirs.remove("target")
                    files += [os.path.join(d, f) for f in sorted(fs)]
            elif os.path.exists(p):
                files = [p]
            for f in files:
                h.update(os.path.relpath(f, base).encode() + b"\0")
                h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()


class Build:
    def __init__(self, width, profile, full=True):
        self.width, self.profile, self.full = width, profile, full
        self.name = "w%d-%s-%s" % (width, profile, "full" if full else "lite")
        self.dir = os.path.join(TARGET, self.name)
        self.bin = os.path.join(self.dir, profile if profile == "release" else "debug", "tbworld")
        self.log, self.ok, self.secs = "", None, 0

    def make(self, tree, jobs):
        t = time.time()
        stamp = os.path.join(self.dir, "tree")
        os.makedirs(self.dir, exist_ok=True)
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != tree:
            # Never trust file times: what was built from another tree is built again.
            for prof in ("debug", "release"):
                fp = os.path.join(self.dir, prof, ".fingerprint")
                if os.path.isdir(fp):
                    for d in os.listdir(fp):
                        if d.startswith(("tagged-box", "tbworld", "simrt")):
                            shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
            if os.path.exists(stamp):
                os.remove(stamp)
        feats = (["full"] if self.full else []) + ["w256", "w300"]
        env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
        for k in ("CARGO_HOME", "RUSTUP_HOME"):
            if k in os.environ:
                env[k] = os.environ[k]
        env.update(TAGGED_BOX_RESERVED_WIDTH="%dbits" % self.width, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=self.dir,
                   RUSTC_WRAPPER=os.path.join(SIM, "rustc-wrap.sh"), RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never",
                   CARGO_INCREMENTAL="0", RUSTFLAGS="")
        env["PATH"] = env.get("PATH", "/usr/bin:/bin") + ":/root/.cargo/bin:/usr/local/bin"
        cmd = ["cargo", "build", "--offline", "-j", str(jobs), "--features", " ".join(feats)]
        if self.profile == "release":
            cmd.append("--release")
        try:
            r = subprocess.run(cmd, cwd=SIM, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700)
            self.log, self.ok = r.stdout.decode("utf8", "replace"), r.returncode == 0
        except subprocess.TimeoutExpired as e:
            self.log, self.ok = "build timed out\n" + (e.stdout or b"").decode("utf8", "replace"), False
        if self.ok:
            with open(stamp, "w") as f:
                f.write(tree)
        self.secs = time.time() - t

    def header(self):
        return "%d %s %s" % (self.width, self.profile, "full" if self.full else "lite")


def build_all(builds, at_once=None):
    tree = tree_hash()
    todo = list(builds)
    at_once = at_once or min(len(todo), max(2, CPUS))
    lock = threading.Lock()

    def work():
        while True:
            with lock:
                if not todo:
                    return
                b = todo.pop(0)
            b.make(tree, max(1, CPUS // at_once))

    ts = [threading.Thread(target=work) for _ in range(at_once)]
    [t.start() for t in ts]
    [t.join() for t in ts]


# ------------------------------------------------------------------ known findings

def findings():
    """[(property, key, text)] of the known findings, and the fixed lines."""
    known, fixed = [], []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", l)
            if m:
                known.append(m.groups())
            elif l.startswith("fixed:"):
                fixed.append(l.strip())
    return known, fixed


KNOWN, FIXED = findings()
KEYS = ",".join(k for _, k, _ in KNOWN) or "-"


# ------------------------------------------------------------------ running

class Stats:
    def __init__(self):
        self.n, self.ops, self.faults, self.known = {}, {}, {}, {}
        self.edges = {}
        self.other = {}
        self.seen = []
        self.cut = 0
        self.secs = 0.0
        self.per_build = {}

    def line(self, w, build):
        if w[0] == "STAT":
            k, v = w[1], int(w[2])
            if k in ("edges", "edges_total", "own_max"):
                e = self.edges.setdefault(build.name, {})
                e[k] = max(e.get(k, 0), v)
            else:
                self.n[k] = self.n.get(k, 0) + v
                if k == "runs":
                    self.per_build[build.name] = self.per_build.get(build.name, 0) + v
        elif w[0] == "OP":
            self.ops[w[1]] = self.ops.get(w[1], 0) + int(w[2])
        elif w[0] == "FAULT":
            self.faults[w[1]] = self.faults.get(w[1], 0) + int(w[2])
        elif w[0] == "KNOWN":
            self.known[w[1]] = self.known.get(w[1], 0) + int(w[2])
        elif w[0] == "CUT":
            self.cut += 1


class Cand:
    def __init__(self, build, prop, seed, cls, detail, share, cap=None, forks=False):
        self.build, self.prop, self.seed, self.cls, self.detail, self.share, self.cap = build, prop, seed, cls, detail, share, cap
        self.forks = forks


def signame(rc):
    if rc < 0:
        try:
            return signal.Signals(-rc).name
        except ValueError:
            return "signal-%d" % -rc
    return "exit-%d" % rc


def sweep(build, prop, first, count, stats, tmp, want=None, cap=None, until=600, hashes=None, place=None, workers=None, limit=2, forks=False):
    """Runs `count` seeds from `first`; gives the candidates that concern `want` (default `prop`).
    With `forks`, every run is made in a process of its own."""
    want = want or (lambda c: concerns(prop, c))
    workers = workers or CPUS
    workers = max(1, min(workers, count))
    lock, cands, found = threading.Lock(), [], []
    t0 = time.time()

    def work(k):
        start, left = first + k, (count - k + workers - 1) // workers
        mine = 0
        while left > 0:
            mark = os.path.join(tmp, "mark.%d.%d" % (threading.get_ident(), k))
            seen = mark + ".seen"
            cmd = [build.bin, "run", prop, str(start), str(left), str(workers), "known=" + KEYS, "seen=" + seen,
                   "until=%d" % max(1, until - int(time.time() - t0))]
            if cap is not None:
                cmd.append("cap=%d" % cap)
            if place is not None:
                cmd.append("place=%d" % place)
            if hashes is not None:
                cmd.append("hashes")
            if forks:
                cmd.append("fork")
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, TBWORLD_MARK=mark))
            state = {"mark": None, "at": time.time(), "hung": False}

            def watch():
                while p.poll() is None:
                    time.sleep(0.5)
                    try:
                        m = open(mark, "rb").read()
                    except OSError:
                        m = b""
                    if m != state["mark"]:
                        state["mark"], state["at"] = m, time.time()
                    elif time.time() - state["at"] > 40:
                        state["hung"] = True
                        p.kill()
                        return
                    if found and time.time() - found[0] > 4:
                        p.kill()
                        return

            wt = threading.Thread(target=watch)
            wt.start()
            ended = spoke = stopped = False
            for raw in p.stdout:
                w = raw.decode("utf8", "replace").rstrip("\n").split(" ", 3)
                if w[0] == "VIOLATION":
                    seed, cls, detail = int(w[1]), w[2], w[3] if len(w) > 3 else ""
                    spoke = cls if cls.startswith("no-progress") else spoke
                    if hashes is not None:
                        with lock:
                            hashes[seed] = (hashes.get(seed) or "") + " " + cls
                    if want(cls):
                        mine += 1
                        with lock:
                            cands.append(Cand(build, prop, seed, cls, detail, (start, left, workers), cap, forks))
                            if not found:
                                found.append(time.time())
                        if mine >= limit:
                            stopped = True
                            p.kill()
                            break
                    else:
                        with lock:
                            stats.other[cls] = stats.other.get(cls, 0) + 1
                elif w[0] == "H":
                    with lock:
                        hashes[int(w[1])] = w[2] + (hashes.get(int(w[1])) or "")
                elif w[0] == "END":
                    ended = True
                elif len(w) >= 2:
                    with lock:
                        stats.line(w, build)
            p.stdout.close()
            rc = p.wait()
            wt.join()
            try:
                b = open(seen, "rb").read()
                with lock:
                    stats.seen.append(b)
                os.remove(seen)
            except OSError:
                pass
            at = None
            try:
                at = int.from_bytes(open(mark, "rb").read()[:8], "little")
                os.remove(mark)
            except OSError:
                pass
            if ended or stopped:
                return
            if found and rc == -9 and not state["hung"]:
                return  # told to stop
            # It died (or hung): the run it was in is a candidate.
            if at is None:
                at = start
            cls = "hang" if state["hung"] else "crash@" + signame(rc)
            if not spoke:
                with lock:
                    cands.append(Cand(build, prop, at, cls, "the process ended inside the run", (start, left, workers), cap, forks))
                    if hashes is not None:
                        hashes[at] = cls
                    if not found:
                        found.append(time.time())
            mine += 1
            if mine >= limit:
                return
            done = (at - start) // workers + 1
            start, left = at + workers, left - done

    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    stats.secs += time.time() - t0
    cands.sort(key=lambda c: c.seed)
    return cands


def plan_text(build, prop, seed, cap=None, place=None):
    cmd = [build.bin, "plan", prop, str(seed)] + (["cap=%d" % cap] if cap is not None else []) + \
        (["place=%d" % place] if place is not None else [])
    return subprocess.run(cmd, stdout=subprocess.PIPE, check=True).stdout.decode()


class Res:
    cls = detail = None
    all = ()  # (class, detail) of everything the failing operation was seen to do wrong
    logs = hash = at = ""
    lines = switches = ()


def replay_text(build, text, strict, tmp, trace=False, timeout=60, prefer=None):
    f = os.path.join(tmp, "r.%d" % threading.get_ident())
    with open(f, "w") as h:
        h.write(text)
    r = Res()
    cmd = [build.bin, "replay", f, "known=" + KEYS] + (["strict"] if strict else []) + (["trace"] if trace else [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
        out, rc = p.stdout.decode("utf8", "replace").split("\n"), p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode("utf8", "replace").split("\n"), None
    r.switches = [l.split()[1:] for l in out if l.startswith("SWITCH ")]
    r.lines = [l[4:] for l in out if l.startswith("LOG ")]
    ended = False
    for l in out:
        w = l.split(" ", 3)
        if w[0] == "VIOLATION":
            r.all = tuple(r.all) + ((w[2], w[3] if len(w) > 3 else ""),)
            if r.cls is None or (w[2] == prefer and r.cls != prefer):
                r.cls, r.detail = r.all[-1]
        elif w[0] == "HASH":
            r.hash = w[1]
        elif w[0] == "LOGS":
            r.logs = w[1]
        elif w[0] == "AT":
            r.at = l[3:]
        elif w[0] == "END":
            ended = True
    if rc is None:
        r.cls, r.detail = "hang", "the run did not end within %d s" % timeout
    elif not ended and r.cls is None:
        r.cls, r.detail = "crash@" + signame(rc), "the process ended inside the run"
    return r


def rerun(build, prop, share, cls, tmp, cap=None, forks=False):
    """Repeats a whole share of seeds in a fresh process; true if `cls` shows again."""
    cmd = [build.bin, "run", prop] + [str(x) for x in share] + ["known=" + KEYS, "stop=50"] + (["cap=%d" % cap] if cap is not None else []) + \
        (["fork"] if forks else [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300,
                           env=dict(os.environ, TBWORLD_MARK=os.path.join(tmp, "mark.rerun")))
    except subprocess.TimeoutExpired:
        return cls == "hang"
    out = p.stdout.decode("utf8", "replace")
    if cls.startswith("crash") and not forks:
        return p.returncode != 0 and "\nEND" not in out
    return any(l.split(" ")[2] == cls for l in out.split("\n") if l.startswith("VIOLATION "))


# ------------------------------------------------------------------ minimising

def minimise(build, text, cls, strict, tmp, budget, fails=None):
    """Smaller plan with the same violation."""
    end = time.time() + budget
    fails = fails or (lambda t: replay_text(build, t, strict, tmp, timeout=20, prefer=cls).cls == cls)

    def ok(lines):
        return time.time() < end and fails("\n".join(lines) + "\n")

    lines = [l for l in text.split("\n") if l.strip()]

    def ddmin(lines, sel):
        n = 2
        while time.time() < end:
            idx = [i for i, l in enumerate(lines) if sel(l)]
            if not idx:
                return lines
            size = max(1, len(idx) // n)
            hit = False
            for k in range(0, len(idx), size):
                gone = set(idx[k:k + size])
                t = [l for i, l in enumerate(lines) if i not in gone]
                if ok(t):
                    lines, hit = t, True
                    break
            if not hit:
                if size == 1:
                    return lines
                n = min(len(idx), n * 2)
        return lines

    def sub(lines, i, new):
        t = list(lines)
        t[i] = new
        return t if t[i] != lines[i] and ok(t) else lines

    isop = lambda l: l.startswith("op ")
    multi = any(re.match(r"threads [2-9]", l) for l in lines)
    if multi:
        plain = [("policy explicit" if l.startswith("policy") else l) for l in lines if not l.startswith("switch")]
        if ok(plain):
            lines = plain
    lines = ddmin(lines, isop)
    if multi and not any(l == "policy explicit" for l in lines):
        r = replay_text(build, "\n".join(lines) + "\n", strict, tmp, trace=True, timeout=20)
        sw = ["switch %s %s" % (a, b) for a, b in r.switches]
        t = []
        for l in lines:
            if l.startswith("policy"):
                t += ["policy explicit"] + sw
            else:
                t.append(l)
        if sw and len(sw) < 20000 and ok(t):
            lines = ddmin(t, lambda l: l.startswith("switch "))
            lines = ddmin(lines, isop)
            lines = ddmin(lines, lambda l: l.startswith("switch "))
    for i, l in enumerate(list(lines)):
        if time.time() > end:
            break
        if isop(l):
            w = l.split()
            if len(w) > 8:
                lines = sub(lines, i, " ".join(w[:8]))
            w = lines[i].split()
            for j in (5, 6, 7):
                for v in ("0", "1"):
                    if w[j] not in ("0", "1") or (v == "0" and w[j] == "1"):
                        t = sub(lines, i, " ".join(w[:j] + [v] + w[j + 1:]))
                        if t is not lines:
                            lines, w = t, t[i].split()
                            break
        elif l.startswith("heap"):
            for v in ("heap seed=0 zone=1 reuse=0 fill=0", re.sub(r"fill=\d+", "fill=0", l), re.sub(r"reuse=\d+", "reuse=0", l)):
                t = sub(lines, i, v)
                if t is not lines:
                    lines = t
                    break
    lines = ddmin(lines, isop)
    if multi and any(l == "policy explicit" for l in lines):
        one = [("threads 1" if l.startswith("threads") else re.sub(r"^op \d+ ", "op 0 ", l)) for l in lines if not l.startswith("switch")]
        if ok(one):
            lines = one
    return "\n".join(lines) + "\n"


REPLAY_NOTE = "# Replay with: python3 check.py replay <this file>\n"


def write_replay(prop, name, head, body):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s.txt" % (prop, name))
    with open(path, "w") as f:
        f.write(REPLAY_NOTE + "# property: %s\n" % prop)
        for k, v in head:
            f.write("# %s: %s\n" % (k, str(v).replace("\n", " ")))
        f.write(body)
    return path


def settle(prop, cand, tmp, budget):
    """Confirms a candidate in a fresh process, minimises it and writes the replay file."""
    strict = prop == "C08"
    b = cand.build
    text = plan_text(b, cand.prop, cand.seed, cand.cap)
    head = [("class", cand.cls), ("detail", cand.detail), ("build", b.header()), ("seed", cand.seed), ("workload", cand.prop),
            ("known", KEYS), ("strict", int(strict))]
    name = "%d-%s" % (cand.seed, re.sub(r"[^A-Za-z0-9]+", "-", cand.cls))
    r = replay_text(b, text, strict, tmp, prefer=cand.cls)
    cls = r.cls if r.cls == cand.cls else next((c for c, _ in r.all if concerns(prop, c)), None)
    if cls is None and r.cls is not None and concerns(prop, r.cls):
        cls = r.cls
    if cls is not None:
        small = minimise(b, text, cls, strict, tmp, budget)
        r2 = replay_text(b, small, strict, tmp, trace=True, prefer=cls)
        if r2.cls != cls:
            small, r2 = text, replay_text(b, text, strict, tmp, trace=True, prefer=cls)
        head[0], head[1] = ("class", cls), ("detail", r2.detail)
        head += [("mode", "plan"), ("ops", "%d of %d" % (small.count("\nop "), text.count("\nop "))), ("at", r2.at), ("hash", r2.hash)]
        logs = "".join("# log: %s\n" % l[:300] for l in list(r2.lines)[-60:])
        return write_replay(prop, name, head, small + logs), cls, r2.detail
    if rerun(b, cand.prop, cand.share, cand.cls, tmp, cand.cap, cand.forks):
        head += [("mode", "rerun"), ("share", "%d %d %d" % cand.share), ("fork", int(cand.forks))]
        note = "# The violation needs the runs before it in the same process: state survives from run to run.\n"
        return write_replay(prop, name, head, note + text), cand.cls, cand.detail
    head += [("mode", "rerun"), ("share", "%d %d %d" % cand.share), ("note", "seen once, not reproduced in a fresh process")]
    return write_replay(prop, name, head, text), cand.cls, cand.detail


# ------------------------------------------------------------------ what each check runs

LITE16 = [Build(w, "debug" if w % 2 == 0 else "release", False) for w in range(48, 64)]
# Seeds per build: (quick debug-full at 60, quick release-lite at 52, thorough factor)
SEEDS = {
    "C01": (120000, 300000), "C02": (120000, 300000), "C04": (150000, 300000), "C05": (120000, 300000), "C06": (120000, 300000),
    "C07": (120000, 300000), "C08": (120000, 300000), "C09": (150000, 380000), "C10": (180000, 450000), "C11": (90000, 220000),
    "C12": (80000, 220000), "C13": (150000, 380000),
}
CAPS = [1, 2, 3, 4, 6, 8, 9, 12, 16]


def matrix(prop, tier):
    """[(Build, seeds)]"""
    quick = tier == "quick"
    if prop in ("C03", "C14"):
        n = 6000 if prop == "C03" else 1800
        if quick:
            bs = [Build(w, "debug" if w % 2 == 0 else "release", False) for w in range(48, 64)] + [Build(60, "release", False)]
        else:
            n *= 12
            bs = [Build(w, p, True) for w in range(48, 64) for p in ("debug", "release")]
        return [(b, n) for b in bs]
    a, c = SEEDS[prop]
    if quick:
        second = Build(60 if prop == "C05" else 52, "release", False)
        return [(Build(60, "debug", True), a), (second, c)]
    return [(Build(60, "debug", True), a * 6), (Build(60, "release", True), c * 8), (Build(48, "debug", True), a * 3),
            (Build(52, "release", True), c * 4), (Build(55, "debug", True), a * 3), (Build(63, "release", True), c * 2),
            (Build(56, "release", True), c * 4)]


def differential(builds, first, quick, stats, tmp, deadline):
    """The same programs at every width that can hold their discriminants, in both profiles and at
    other addresses: every observable result must be the same. Gives (cands, cells)."""
    cells, bad = 0, []
    per = 500 if quick else 6000
    for cap in CAPS:
        group = [b for b in builds if 64 - b.width >= cap]
        if len(group) < 2 and cap > 1 and len(builds) > 2:
            pass
        if not group or time.time() > deadline:
            continue
        base = None
        jobs = [(b, None) for b in group] + [(group[0], 1), (group[-1], 2)]
        results = [None] * len(jobs)
        todo, lock = list(range(len(jobs))), threading.Lock()

        def work():
            while True:
                with lock:
                    if not todo:
                        return
                    i = todo.pop(0)
                h = {}
                sweep(jobs[i][0], "C14", first, per, stats, tmp, want=lambda c: False, cap=cap, hashes=h, place=jobs[i][1],
                      workers=1, until=300)
                results[i] = h

        ts = [threading.Thread(target=work) for _ in range(min(CPUS, len(jobs)))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        base = results[0]
        for (b, place), h in list(zip(jobs, results))[1:]:
            cells += len(h)
            for seed in sorted(base):
                if seed in h and h[seed] != base[seed]:
                    bad.append((seed, cap, jobs[0][0], b, place))
                    break
        cells += len(base)
    return bad, cells


def settle_diff(seed, cap, b0, b1, place, tmp, budget):
    """Two builds disagree about one program."""
    if place is None:
        t0 = t1 = plan_text(b0, "C14", seed, cap)
        key = lambda b, t: replay_text(b, t, False, tmp, timeout=20)
        differ = lambda t: (lambda x, y: (x.logs, x.cls) != (y.logs, y.cls))(key(b0, t), key(b1, t))
        if differ(t0):
            small = minimise(b0, t0, "", False, tmp, budget, fails=differ)
            x, y = (replay_text(b, small, False, tmp, trace=True) for b in (b0, b1))
            first = next((i for i, (p, q) in enumerate(zip(x.lines, y.lines)) if p != q), min(len(x.lines), len(y.lines)))
            g = lambda r: r.cls + " " + (r.detail or "") if r.cls else (r.lines[first][:200] if first < len(r.lines) else "(ends)")
            detail = "%s: %s | %s: %s" % (b0.header(), g(x), b1.header(), g(y))
            head = [("class", "differs"), ("detail", detail), ("build", b0.header()), ("against", b1.header()), ("seed", seed), ("cap", cap),
                    ("known", KEYS), ("strict", 0), ("mode", "diff")]
            return write_replay("C14", "%d-differs-w%d-w%d" % (seed, b0.width, b1.width), head, small), detail
    t0 = plan_text(b1, "C14", seed, cap)
    t1 = plan_text(b1, "C14", seed, cap, place)
    detail = "results depend on the build or on where the allocator puts storage (%s against %s)" % (b0.header(), b1.header())
    head = [("class", "differs"), ("detail", detail), ("build", b0.header()), ("against", b1.header()), ("seed", seed), ("cap", cap),
            ("known", KEYS), ("strict", 0), ("mode", "place" if place is not None else "diff")]
    body = "# ---- one placement\n" + t0 + "# ---- the other\n" + "".join("#2 " + l + "\n" for l in t1.split("\n") if l)
    return write_replay("C14", "%d-differs-place" % seed, head, body), detail


def count_distinct(blobs):
    a = array.array("Q")
    for b in blobs:
        a.frombytes(b[:len(b) // 8 * 8])
    return len(set(a)) if len(a) < 30_000_000 else -1


REAL = ["tagged_box crate: TaggedBox, TaggedPointer, discriminant, Taggable traits (real, compiled from the working tree)",
        "tagged_box! macro expansions for the simulated enums (real)", "core::fmt, alloc::boxed (real)",
        "threads (real OS threads, run one at a time by the simulated scheduler)"]
STUB = ["global allocator (simulated heap: placement, alignment, reuse, poison, failure)",
        "thread scheduling (seeded scheduler at every instrumented edge, load, store, allocator call and user callback)",
        "payload types, their Clone/PartialEq/Ord/fmt implementations, callbacks and output sinks (scripted, fault-injecting)"]
RULE = ("one evaluation = one simulated run: a seeded plan (heap placement, threads, schedule policy, operations, faults) executed against "
        "the real crate and compared step by step with a reference model; distinct_nontrivial = number of different hashes of the "
        "complete history (operations, observed results, faults fired and thread switches in order), counting only runs in which at least one "
        "library call was made")
ASSUME = ["the code under test reads no clock, network, disk or random source (checked by reading: it is no_std and has none)",
          "thread switches happen at instrumented edges, loads, stores, allocator calls and user callbacks, under sequential consistency",
          "x86-64 addresses below 2^47, as the allocator of a real process gives"]


def finish(prop, tier, seed, stats, builds, extra, reported, tmp):
    os.makedirs(EVIDENCE, exist_ok=True)
    wall = time.time() - T0
    runs = stats.n.get("runs", 0)
    samples = []
    for b in builds:
        if b.ok:
            for s in (first_seed(seed), first_seed(seed) + 5):
                try:
                    t = plan_text(b, prop, s)
                    r = replay_text(b, t, prop == "C08", tmp, trace=True)
                    samples.append({"seed": s, "build": b.header(), "plan": t.split("\n")[:60], "history": [l[:160] for l in r.lines[:60]],
                                    "switches": len(r.switches), "hash": r.hash})
                except Exception as e:
                    samples.append({"seed": s, "error": str(e)})
            break
    cov = {
        "evaluations": runs, "distinct_nontrivial": count_distinct(stats.seen), "rule": RULE, "samples": samples,
        "simulated_runs_per_hour": int(runs / stats.secs * 3600) if stats.secs else 0,
        "simulated_time": {"unit": "scheduling points (the system has no clock)", "total": stats.n.get("steps", 0)},
        "library_calls": stats.n.get("calls", 0), "operations_by_kind": stats.ops, "operations_not_applicable": stats.n.get("skipped", 0),
        "faults_fired": stats.faults, "runs_with_threads": stats.n.get("multi", 0), "thread_switches": stats.n.get("switches", 0),
        "distinct_schedules": {"count": stats.n.get("schedules", 0),
                               "measure": "hash of the sequence of (step, thread) switches, multi-threaded runs, summed over worker processes"},
        "allocations": stats.n.get("allocs", 0), "frees": stats.n.get("frees", 0), "blocks_reused": stats.n.get("reuses", 0),
        "code_reached": {k: {"edges": v.get("edges", 0), "of": v.get("edges_total", 0)} for k, v in stats.edges.items()},
        "most_own_steps_of_one_operation": max([v.get("own_max", 0) for v in stats.edges.values()] or [0]),
        "runs_by_build": stats.per_build, "builds": [{"build": b.header(), "ok": b.ok, "seconds": round(b.secs, 1)} for b in builds],
        "known_findings_seen": stats.known, "violations_of_other_properties_seen": stats.other,
        "shares_cut_short_by_time": stats.cut, "components_real": REAL, "components_stub": STUB, "cpus": CPUS,
    }
    cov.update(extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": ASSUME,
          "wall_s": round(wall, 2), "violations": len(reported)}
    p = os.path.join(EVIDENCE, prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


# Seeds with this bit make plans that start with the first use of the code under test.
FIRST_USE = 1 << 31


def first_seed(seed):
    return (seed & 0x7fffffff) << 32


def recheck(build, prop, first, n, tmp):
    """The same seeds in two processes, in other company: every history must be the same."""
    def go(a, count, stride):
        r = subprocess.run([build.bin, "run", prop, str(a), str(count), str(stride), "known=" + KEYS, "hashes", "stop=1"], stdout=subprocess.PIPE)
        return {l.split()[1]: l.split()[2] for l in r.stdout.decode().split("\n") if l.startswith("H ")}
    a = go(first, n, 1)
    b = {}
    for k in range(3):
        b.update(go(first + k, (n - k + 2) // 3, 3))
    same = [s for s in a if s in b]
    return len(same), sum(a[s] != b[s] for s in same)


def known_lines(prop, stats):
    for p, k, text in KNOWN:
        if p == prop and stats.known.get(k):
            say("KNOWN-FINDING: property=%s %s (%s, seen %d times)" % (prop, text, k, stats.known[k]))


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    quick = tier == "quick"
    deadline = T0 + (600 if quick else 6 * 3600)
    first = first_seed(seed)
    cells = matrix(prop, tier)
    builds = [b for b, _ in cells]
    tmp = tempfile.mkdtemp(prefix="tbcheck.")
    stats, reported, extra = Stats(), [], {}
    try:
        if prop == "C05" or True:
            build_all(builds)
        bad = [b for b in builds if not b.ok]
        if bad:
            if prop in ("C01", "C14"):
                base = REPO_builds()
                if base is not None and not base:
                    say("the crate itself does not build")
                    sys.stdout.write(bad[0].log[-3000:])
                    return 2
                for b in bad[:3]:
                    errs = [l for l in b.log.split("\n") if l.startswith("error")][:3]
                    path = write_replay(prop, "build-" + b.name, [("class", "build"), ("detail", "; ".join(errs)), ("build", b.header()), ("mode", "build")],
                                        "".join("# | " + l + "\n" for l in b.log.split("\n")[:200]))
                    say("does not build at %s: %s" % (b.header(), "; ".join(errs)))
                    say("VIOLATION property=%s replay=%s" % (prop, path))
                    reported.append(path)
                finish(prop, tier, seed, stats, builds, {"build_failures": [b.header() for b in bad]}, reported, tmp)
                return 1
            if len(bad) == len(builds) or prop not in ("C03",):
                say("build failed: " + bad[0].header())
                sys.stdout.write(bad[0].log[-6000:] + "\n")
                return 2
            cells = [(b, n) for b, n in cells if b.ok]
            extra["build_failures"] = [b.header() for b in bad]
            builds = [b for b in builds if b.ok]

        cands = []
        if prop == "C14":
            for b in builds:
                out = subprocess.run([b.bin, "info"], stdout=subprocess.PIPE).stdout.decode()
                w = int(re.search(r"^width (\d+)", out, re.M).group(1))
                m = int(re.search(r"^max_disc (\d+)", out, re.M).group(1))
                if w != b.width or m != 2 ** (64 - b.width) - 1:
                    path = write_replay("C14", "capacity-" + b.name, [("class", "capacity"), ("build", b.header()), ("mode", "info"), (
                        "detail", "MAX_DISCRIMINANT is %d instead of %d" % (m, 2 ** (64 - b.width) - 1))], "")
                    say("capacity at %s: %d" % (b.header(), m))
                    say("VIOLATION property=C14 replay=%s" % path)
                    reported.append(path)
            diffs, cmp_cells = differential(builds, first, quick, stats, tmp, deadline)
            extra["programs_compared_across_builds"] = cmp_cells
            extra["capacities_compared"] = CAPS
            for seed_, cap, b0, b1, place in diffs[:3]:
                path, detail = settle_diff(seed_, cap, b0, b1, place, tmp, 40)
                say("builds disagree: " + detail)
                say("VIOLATION property=C14 replay=%s" % path)
                reported.append(path)
        for b, n in cells:
            left = deadline - time.time()
            if left < 20 or (cands and quick):
                break
            work = "C03" if prop == "C14" else prop
            got = sweep(b, work, first, n, stats, tmp, want=(lambda c: concerns(prop, c)), until=int(left))
            cands += got
            if cands:
                break
            if b is builds[0]:
                # The first use of everything, by several threads: each run in a process of its own.
                n = 6000 if quick else 300000
                cands += sweep(b, work, first + FIRST_USE, n, stats, tmp, want=(lambda c: concerns(prop, c)),
                               until=max(1, min(int(deadline - time.time()), 45 if quick else 3600)), forks=True)
                extra["runs_in_a_process_of_their_own"] = n
            if cands:
                break
        # One report per class of violation, at most three.
        classes = {}
        for c in cands:
            classes.setdefault(c.cls, c)
        for c in list(classes.values())[:3]:
            path, cls, detail = settle(prop, c, tmp, 30 if quick else 120)
            say("%s: %s (seed %d, %s)" % (cls, detail, c.seed, c.build.header()))
            say("VIOLATION property=%s replay=%s" % (prop, path))
            reported.append(path)
        if not reported and builds:
            n, d = recheck(builds[0], prop, first, 150, tmp)
            extra["determinism_recheck"] = {"seeds_run_in_two_processes": n, "histories_that_differ": d}
        known_lines(prop, stats)
        finish(prop, tier, seed, stats, builds, extra, reported, tmp)
        say("%s %s: %d runs, %d steps, %.0f s, %d violations" % (prop, tier, stats.n.get("runs", 0), stats.n.get("steps", 0), time.time() - T0, len(reported)))
        return 1 if reported else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def REPO_builds():
    """Whether the crate itself compiles at its default width, apart from our workload."""
    d = os.path.join(TARGET, "crate-alone")
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST", "TAGGED_BOX"))}
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            env[k] = os.environ[k]
    env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=d, RUSTUP_TOOLCHAIN="stable")
    env["PATH"] = env.get("PATH", "/usr/bin:/bin") + ":/root/.cargo/bin:/usr/local/bin"
    src = tempfile.mkdtemp(prefix="tbcrate.")
    try:
        # A copy, so that nothing is written in the repository.
        for n in os.listdir(REPO):
            if n in ("target", ".git"):
                continue
            s = os.path.join(REPO, n)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(src, n))
        r = subprocess.run(["cargo", "build", "--offline", "--lib"], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode == 0
    except Exception:
        return None
    finally:
        shutil.rmtree(src, ignore_errors=True)


# ------------------------------------------------------------------ replay

def replay(path):
    text = open(path).read()
    head = dict(re.findall(r"^# ([a-z]+): (.*)$", text, re.M))
    prop, mode = head["property"], head.get("mode", "plan")
    w, profile, kind = head["build"].split()
    b = Build(int(w), profile, kind == "full")
    both = [b]
    if "against" in head:
        w, profile, kind = head["against"].split()
        both.append(Build(int(w), profile, kind == "full"))
    build_all(both)
    tmp = tempfile.mkdtemp(prefix="tbcheck.")
    try:
        again = False
        if mode == "build":
            again = not b.ok
            print(b.log[-2000:])
        elif not all(x.ok for x in both):
            print(both[0].log[-3000:])
            return 2
        elif mode == "info":
            out = subprocess.run([b.bin, "info"], stdout=subprocess.PIPE).stdout.decode()
            m = int(re.search(r"^max_disc (\d+)", out, re.M).group(1))
            again = m != 2 ** (64 - b.width) - 1
        elif mode == "diff":
            rs = [replay_text(x, text, False, tmp, trace=True) for x in both]
            again = (rs[0].logs, rs[0].cls) != (rs[1].logs, rs[1].cls)
            for x, r in zip(both, rs):
                say("%s: %s %s" % (x.header(), r.logs, r.cls or ""))
        elif mode == "place":
            second = "\n".join(l[3:] for l in text.split("\n") if l.startswith("#2 "))
            firstt = "\n".join(l for l in text.split("\n") if not l.startswith("#"))
            rs = [replay_text(x, t, False, tmp, trace=True) for x, t in ((both[-1], firstt), (both[-1], second), (both[0], firstt))]
            again = len({(r.logs, r.cls) for r in rs}) > 1
        elif mode == "rerun":
            share = tuple(int(x) for x in head["share"].split())
            again = rerun(b, head["workload"], share, head["class"], tmp, int(head["cap"]) if "cap" in head else None,
                          head.get("fork") == "1")
        else:
            r = replay_text(b, text, head.get("strict") == "1", tmp, trace=True, prefer=head["class"])
            for l in r.lines:
                say("  " + l)
            say("result: %s %s %s" % (r.cls, r.detail, r.at))
            again = r.cls == head["class"]
            say("history hash %s (recorded %s)" % (r.hash, head.get("hash")))
        if again:
            say("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        say("not reproduced")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def determinism(n):
    """Every seed in many processes with other neighbours and other worker counts."""
    b = Build(60, "debug", True)
    build_all([b])
    bad = 0
    for prop in ALL_PROPS:
        hs, first = [], []
        for workers in (1, 2, 3, 5, 8, 13):
            h = {}
            tmp = tempfile.mkdtemp(prefix="tbcheck.")
            sweep(b, prop, 7 << 32, n, Stats(), tmp, want=lambda c: False, hashes=h, workers=workers)
            shutil.rmtree(tmp, ignore_errors=True)
            hs.append(h)
        for forks in (False, True):
            h = {}
            tmp = tempfile.mkdtemp(prefix="tbcheck.")
            sweep(b, prop, (7 << 32) + FIRST_USE, n, Stats(), tmp, want=lambda c: False, hashes=h, forks=forks)
            shutil.rmtree(tmp, ignore_errors=True)
            first.append(h)
        d = sum(1 for s in hs[0] if any(h.get(s) != hs[0][s] for h in hs)) + sum(1 for s in first[0] if first[1].get(s) != first[0][s])
        bad += d
        say("%s: %d seeds in 32 processes, %d more also in one process each: %d histories differ" % (prop, n, n, d))
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    os.makedirs(TARGET, exist_ok=True)
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        b = Build(60, "debug", True)
        build_all([b])
        if not b.ok:
            print(b.log[-4000:])
            return 1
        print("ready: " + b.bin)
        return 0
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "determinism":
        return determinism(int(a[1]) if len(a) > 1 else 2000)
    if a[0] == "build":
        b = Build(int(a[1]), a[2], a[3] == "full")
        build_all([b])
        print(b.log[-3000:] if not b.ok else b.bin)
        return 0 if b.ok else 1
    if a[0] in ALL_PROPS:
        return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
