#!/usr/bin/env python3
"""check.py ID            run the check of one property against /repo's working tree
check.py replay FILE     re-run one saved case
check.py setup           warm the build cache
check.py fuzz ID SECS    only the coverage-guided part of a thorough run

Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough), VERIF_REPO (default /repo;
another checkout, used while developing), VERIF_SCALE (multiplies the case counts), VERIF_OUTDIR
(default here; where evidence/ and replays/ go), VERIF_GOCACHE.

Exit 0: the property held on everything generated. Exit 1 and a VIOLATION line: it is broken.
Exit 3: no answer (a build failed, the harness itself failed, a time limit was hit)."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUTDIR", HERE)
GOCACHE = os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build")
MOD = "github.com/taurusgroup/frost-ed25519"

# property: package, cases per quick run (all shards together, scaled by each test's weight),
# thorough factor, and the rule that makes a case non-trivial.
P = {
 "C01": ("proto", 7000, 12, "honest signing sessions over generated keys (dealer or DKG, IDs at byte and range boundaries), signer sets, messages and delivery orders; non-trivial: the session ran to the end with at least two signers"),
 "C02": ("proto", 5000, 12, "honest key generations over generated (n, t, IDs, delivery order); non-trivial: at least two parties finished and subsets of their shares were interpolated"),
 "C03": ("proto", 7000, 12, "a session run under a generated interleaving with early, ahead and duplicate deliveries, compared with in-order delivery; non-trivial: at least one delivery was early, ahead or repeated"),
 "C04": ("proto", 16000, 12, "key generation with one contribution corrupted in a generated way; non-trivial: a fault was injected"),
 "C05": ("proto", 9000, 12, "signing with one contribution corrupted in a generated way; non-trivial: a fault was injected"),
 "C06": ("proto", 12000, 12, "signing sessions of generated misconfigurations and misbehaviour; non-trivial: something was not honest"),
 "C07": ("inner", 16000, 12, "a generated statement and proof and one variation of it judged by a reference verifier; non-trivial: every case (a full proof is made and judged)"),
 "C08": ("wire", 10000, 12, "byte strings made by structured mutation of valid encodings, compared with a reference parser; non-trivial: the input has a valid type byte or was accepted"),
 "C09": ("proto", 4000, 12, "live sessions fed generated junk and hostile traffic interleaved with honest delivery; non-trivial: at least one hostile message reached a live session"),
 "C10": ("proto", 12000, 12, "operation histories over one session, compared with a lifecycle model after every step; non-trivial: the session left its first round or finished"),
 "C11": ("proto", 9000, 12, "operation histories with a virtual clock; non-trivial: time passed while the session was unfinished"),
 "C12": ("conc", 260, 6, "sessions driven from several goroutines under the race detector; non-trivial: every case has at least two goroutines on one session or key"),
 "C13": ("proto", 30000, 12, "generated configurations, judged by the stated rules; non-trivial: every case creates a session"),
 "C14": ("grp", 24000, 12, "programs of group operations with aliasing, compared with a big-integer reference; non-trivial: at least one operation on an element that is not the identity"),
 "C15": ("grp", 24000, 12, "byte strings and equal elements in different representations, compared with the reference codec; non-trivial: every case decodes or encodes"),
 "C16": ("grp", 20000, 12, "keys, messages and signatures, valid and corrupted, compared with crypto/ed25519; non-trivial: every case is verified by both"),
 "C17": ("keys", 7000, 12, "chains of encodings of key material, then signing with it; non-trivial: at least one encoding took place"),
 "C18": ("keys", 24000, 12, "documents made by structural mutation of valid key files, judged by a reference loader; non-trivial: the document differs from a valid one"),
 "C19": ("proto", 1300, 10, "sessions with a recorded, flipped, short-reading or failing entropy source; non-trivial: a secret was drawn"),
 "C20": ("proto", 20000, 12, "sessions ended at a generated point, then searched for their secrets; non-trivial: the session held a secret before it ended"),
 "C21": ("cli", 700, 8, "runs of the two commands with generated arguments, messages and key files; non-trivial: as defined per sub-check (a full flow, invalid arguments, a damaged file)"),
 "C22": ("proto", 9000, 12, "messages re-encoded at generated later points and shared between sessions; non-trivial: the emitting or a receiving session advanced in between"),
 "C23": ("proto", 3500, 12, "several sessions over the same key material with a snapshot before and after; non-trivial: at least one session was created"),
 "C24": ("proto", 12000, 12, "signing with known nonces, compared with the FROST formulas; non-trivial: a response was checked"),
 "C25": ("inner", 3500, 12, "sharings of generated degree over generated IDs; non-trivial: degree at least 1"),
 "C26": ("ids", 24000, 10, "IDs, texts, lists and set sizes, compared with big integers and mathematical sets; non-trivial: at least two elements, or a decoded value"),
 "C27": ("proto", 2500, 12, "two to seven (crowd: up to 400) sessions over overlapping groups (signing, key generation, corrupted or abandoned ones) interleaved in one process; non-trivial: at least two sessions, and at least one ran to the end"),
 "C28": ("equal", 16000, 12, "pairs of values of each type with an equality, built from generated components, the second with changed components, another representation or another encoding; non-trivial: the second was changed, recomputed or re-encoded"),
 "C29": ("proto", 9000, 12, "batches of encoded messages given to the party routine, compared with a twin session driven message by message; non-trivial: the session emitted messages and then finished, failed or refused a batch"),
 "C30": ("engine", 24000, 12, "protocols scripted for the purpose (1 to 5 rounds, failing in a generated place) driven by generated histories, compared with a model of the round contract; non-trivial: a message was accepted (or there are no others) and a round was left"),
 "C31": ("readers", 900, 8, "values of every kind shared by two to five goroutines that read them, under the race detector; non-trivial: at least two goroutines did the same operation"),
 "C33": ("proto", 6000, 12, "sessions run to a generated end among hostile deliveries, key material and messages refused, runs of the signer; everything sent, returned or printed is searched for the secrets; non-trivial: the session had committed to its secrets and the check knew all of them, or an error was returned, or the command printed something"),
 "C35": ("keys", 16000, 12, "values written by the library compared with forms made by the harness, and such forms read by the library; non-trivial: every case but identity commitments, which are refused"),
 "C36": ("steps", 800, 12, "a piece of work done with little and with much of something before it, in a small and a large group, or on an input of some length, with execution counts of all basic blocks compared; non-trivial: the counters were not empty"),
 "C34": ("steps", 12000, 12, "group operations on several choices of values, with the execution counts of all basic blocks compared; non-trivial: two different choices were measured and counters were not empty"),
 "C32": ("proto", 400, 12, "sessions flooded with messages without effect, sessions ended and forgotten, encodings that claim more than they hold; measured in memory; non-trivial: every session case, and every encoding whose claim is false or which is cut"),
}
FUZZ = {"C08": ("wire", "FuzzC08"), "C18": ("keys", "FuzzC18")}
RACE = {"C12", "C31"}
TOOLS = {"C33"}  # need the commands as well
COUNTED = MOD + "/pkg/...,filippo.io/edwards25519/..."  # where the meter of C34 counts
STUCK = 120  # seconds on one case; cases take milliseconds, the largest a few seconds
ASSUMPTIONS = {
 "C11": ["the virtual clock of testing/synctest stands for the real one (C11.stall uses the real one)"],
 "C12": ["the Go race detector reports only real races; schedules come from the Go scheduler and generated pauses"],
 "C31": ["the Go race detector reports only real races; schedules come from the Go scheduler"],
 "C34": ["execution counts stand for the steps; a count cannot see which table entry was read"],
 "C36": ["execution counts stand for the work; what the runtime and the standard library do inside is not counted, but loops that call them are"],
 "C20": ["secrets are looked for through the session's reachable memory by reflection"],
}


def goenv(**extra):
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=GOCACHE,
             PATH="/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
    for k in list(e):
        if k.startswith("VERIF_"):
            del e[k]
    e.update({k: str(v) for k, v in extra.items()})
    return e


def noanswer(msg):
    print("NO ANSWER: " + msg, flush=True)
    sys.exit(3)


def go(args, work, timeout=800):
    """Run the go tool in the harness module, pointed at REPO, without touching go.mod."""
    mod = os.path.join(work, "go.mod")
    if not os.path.exists(mod):
        with open(os.path.join(HARNESS, "go.mod")) as f:
            s = f.read().replace("=> /repo", "=> " + REPO)
        with open(mod, "w") as f:
            f.write(s)
        shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(work, "go.sum"))
    try:
        r = subprocess.run(["go", args[0], "-modfile=" + mod] + args[1:], cwd=HARNESS, env=goenv(), timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        noanswer("go %s did not finish" % " ".join(args))
    if r.returncode != 0:
        noanswer("go %s failed:\n%s" % (" ".join(args), r.stdout[-4000:]))


def build(pkg, work, race=False, fuzz=None, tools=False):
    out = os.path.join(work, pkg + (".fuzz" if fuzz else ".test"))
    a = ["test", "-c", "-vet=off", "-o", out]
    if race:
        a.append("-race")
    if fuzz:
        a.append("-fuzz=" + fuzz)
    go(a + ["./" + pkg], work)
    if pkg == "cli" or tools:
        for c in ("keygen", "signer"):
            go(["build", "-o", os.path.join(work, c), MOD + "/cmd/" + c], work)
    if pkg == "steps":
        go(["build", "-cover", "-covermode=atomic", "-coverpkg=" + COUNTED, "-o", os.path.join(work, "meter"), "./steps/meter"], work)
    return out


def limits():
    os.setsid()
    # an allocation bug must end its own process, not the sandbox; the race detector reserves
    # address space, so this limits data
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def start(binary, args, cwd, out, log, **extra):
    os.makedirs(cwd, exist_ok=True)
    os.makedirs(out, exist_ok=True)
    env = goenv(VERIF_OUT=out, GOMEMLIMIT="2GiB", GOTRACEBACK="all", TMPDIR=cwd, **extra)
    f = open(log, "w")
    return subprocess.Popen([binary] + args, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, preexec_fn=limits)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def tail(path, n=3000):
    try:
        with open(path, errors="replace") as f:
            s = f.read()
    except OSError:
        return ""
    return s if len(s) <= n else s[:n // 2] + "\n...\n" + s[-n // 2:]


def save(prop, data):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(data.get("case"), sort_keys=True).encode()).hexdigest()[:12]
    p = os.path.join(d, "%s-%s.json" % (data.get("sub", prop), h))
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")
    return p


def load(p):
    try:
        with open(p) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


CRASH = re.compile(r"^(panic: |fatal error: |unexpected fault|SIG[A-Z]+: |WARNING: DATA RACE)", re.M)


def crash_text(log):
    s = tail(log, 400000)
    m = CRASH.search(s)
    if not m:
        return None
    t = s[m.start():]
    # these are not statements about the code under test
    head = t[:300]
    if "harness:" in head or "test timed out" in head or "out of memory" in head or "cannot allocate memory" in head:
        return None
    return t[:3000]


def violation(prop, data, path=None):
    path = path or save(prop, data)
    err = (data.get("error") or "").strip()
    print("%s: %s" % (data.get("sub", prop), err[:3000]))
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)


def hangs(prop, data, binary, work):
    """Decide whether a case that was running when a shard got stuck does not terminate on its own."""
    rp = os.path.join(work, "hang.json")
    with open(rp, "w") as f:
        json.dump(data, f)
    for i in range(2):
        p = start(binary, ["-test.run", "^Test" + prop, "-test.timeout", "0"], os.path.join(work, "hang"), os.path.join(work, "hango"),
                  os.path.join(work, "hang.log"), VERIF_REPLAY=rp, VERIF_REPEAT=1, VERIF_BIN=work)
        try:
            p.wait(60)
            return False
        except subprocess.TimeoutExpired:
            kill(p)
    return True


def reruns(prop, datas, binary, work, repeat=1, secs=60):
    """Run replay data in fresh processes, side by side; says for each whether it failed, and with what."""
    ps = []
    for i, data in enumerate(datas):
        d = os.path.join(work, "re%d" % i)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "r.json"), "w") as f:
            json.dump(data, f)
        ps.append((d, start(binary, ["-test.run", "^Test" + prop, "-test.timeout", "0", "-test.v"], d, d + "o", d + ".log",
                            VERIF_REPLAY=os.path.join(d, "r.json"), VERIF_REPEAT=repeat, VERIF_BIN=work, GOMAXPROCS=2)))
    end = time.time() + secs
    res = []
    for d, p in ps:
        try:
            p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            kill(p)
            res.append(None)
            continue
        s = tail(d + ".log", 10**6)
        m = re.search(r"^REPRODUCED \S+ \(.*?\): ([^\n]*)", s, re.M)
        res.append((m.group(1) if m else crash_text(d + ".log") or "failed") if p.returncode else None)
        shutil.rmtree(d, ignore_errors=True)
    return res


def settle(prop, m, binary, work):
    """Make the replay of a failure stand on its own. A failure may depend on cases that ran earlier in
    the same process (a cache, a pool); then the replay gets the earlier cases it needs."""
    hist = m.pop("historyfile", None)
    if any(reruns(prop, [m], binary, work, repeat=5)):
        return
    m["note"] = "the case alone does not fail in a fresh process"
    try:
        with open(hist) as f:
            cases = [json.loads(l) for l in f]
    except (OSError, ValueError, TypeError):
        return
    end = time.time() + 90

    def many(lists):
        left = end - time.time()
        if left < 1:
            return [None] * len(lists)
        return reruns(prop, [dict(property=prop, sub=m["sub"], error="", history=l[:-1], case=l[-1]) for l in lists], binary, work, secs=left)

    # the shortest run of cases before the failing one that still fails, then one by one
    if not cases or not many([cases])[0]:
        return
    n = len(cases)
    ends = [cases[-k:] for k in (2, 4, 8, 16, 32, 64, 128, 256) if k < n]
    for l, r in zip(ends, many(ends)):
        if r:
            cases = l
            break
    chunk = max(1, len(cases) // 8)
    while time.time() < end:
        cuts = [i for i in range(0, len(cases) - 1, chunk)]
        changed = False
        for a in range(0, len(cuts), 8):
            group = [cases[:i] + cases[min(i + chunk, len(cases) - 1):] for i in cuts[a:a + 8]]
            for l, r in zip(group, many(group)):
                if r:
                    cases, changed = l, True
                    break
            if changed:
                break
        if not changed:
            if chunk == 1:
                break
            chunk = max(1, chunk // 2)
    r = reruns(prop, [dict(property=prop, sub=m["sub"], error="", history=cases[:-1], case=cases[-1])], binary, work)[0]
    if r:
        m.update(history=cases[:-1], case=cases[-1], error=r, note="fails only after the earlier cases in history, in the same process")


def fuzz(prop, secs, work, seed):
    """Coverage-guided search; returns (failure data or None, executions)."""
    pkg, target = FUZZ[prop]
    b = build(pkg, work, fuzz=target)
    cwd, out, log = (os.path.join(work, x) for x in ("fz", "fzo", "fz.log"))
    p = start(b, ["-test.run=xxx", "-test.fuzz=^%s$" % target, "-test.fuzztime=%ds" % secs, "-test.fuzzcachedir=" + os.path.join(work, "fzc"),
                  "-test.parallel=8"], cwd, out, log)
    try:
        p.wait(secs + 120)
    except subprocess.TimeoutExpired:
        kill(p)
        noanswer("the fuzzer did not stop")
    s = tail(log, 10**7)
    execs = [int(x) for x in re.findall(r"execs: (\d+)", s)]
    if p.returncode != 0:
        for f in sorted(os.listdir(out)):
            if f.startswith("fail-"):
                return load(os.path.join(out, f)), max(execs or [0])
        noanswer("the fuzzer failed:\n" + s[-3000:])
    return None, max(execs or [0])


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pkg, quick, factor, rule = P[prop]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    total = quick * (factor if tier == "thorough" else 1) * scale
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return check_in(prop, tier, seed, pkg, total, rule, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check_in(prop, tier, seed, pkg, total, rule, t0, work):
    race = prop in RACE
    binary = build(pkg, work, race=race, tools=prop in TOOLS)
    shards = 8
    limit = 600 if tier == "quick" else 6 * 3600
    procs = []
    for i in range(shards):
        h = hashlib.sha256(("%d/%s/%d" % (seed, prop, i)).encode()).digest()
        rs = int.from_bytes(h[:7], "big") | 1
        extra = dict(VERIF_CHECKS=max(1, int(total / shards)), VERIF_TIER=tier, VERIF_BIN=work, GOMAXPROCS=4 if race else 2)
        if race:
            extra["GORACE"] = "halt_on_error=1 exitcode=66"
        if i == 0:
            extra["VERIF_CORPUS"] = os.path.join(HERE, "corpus")
        d = os.path.join(work, "s%d" % i)
        procs.append((i, start(binary, ["-test.run", "^Test" + prop, "-test.timeout", "0", "-test.failfast", "-rapid.nofailfile", "-rapid.seed", str(rs),
                                        "-rapid.shrinktime", "10s"], d, d + "o", d + ".log", **extra), d))
    # A shard that stays on one case for long is stuck; once one has failed the others get a few
    # seconds to fail too.
    deadline = t0 + limit
    stuck, killed, ended = [], set(), None
    while True:
        running = [(i, p, d) for i, p, d in procs if p.poll() is None]
        if not running:
            break
        now = time.time()
        if ended is None and any(p.returncode not in (None, 0) for i, p, d in procs):
            ended = now
        if ended is not None and now - ended > 12:
            for i, p, d in running:
                kill(p)
                killed.add(i)
            break
        for i, p, d in running:
            j = os.path.join(d + "o", "journal.json")
            if now > deadline or (os.path.exists(j) and now - os.path.getmtime(j) > STUCK):
                stuck.append((i, d))
        if stuck:
            for i, p, d in running:
                kill(p)
                killed.add(i)
            break
        time.sleep(0.05)

    # results
    fails, errors = [], []
    stats = {}
    for i, p, d in procs:
        for f in sorted(os.listdir(d + "o")):
            if f.startswith("stats-"):
                s = load(os.path.join(d + "o", f))
                if s is None:
                    continue
                t = stats.setdefault(s["sub"], dict(evaluations=0, hashes=set(), labels={}, samples=[], corpus=0))
                t["evaluations"] += s["evaluations"]
                t["hashes"] |= set(s["hashes"] or [])
                t["corpus"] += s["corpus"]
                t["samples"] += s["samples"] or []
                for k, v in (s["labels"] or {}).items():
                    t["labels"][k] = t["labels"].get(k, 0) + v
        if p.returncode == 0:
            continue
        mine = [load(os.path.join(d + "o", f)) for f in sorted(os.listdir(d + "o")) if f.startswith("fail-")]
        mine = [m for m in mine if m]
        for m in mine:
            m["historyfile"] = os.path.join(d + "o", "history-%s.jsonl" % m["sub"])
        bad = [m for m in mine if "harness:" in (m.get("error") or "")[:200]]
        good = [m for m in mine if m not in bad]
        if good:
            fails += good
            continue
        if bad:
            errors.append("shard %d: %s" % (i, bad[0]["error"][:2000]))
            continue
        c = crash_text(d + ".log")
        j = load(os.path.join(d + "o", "journal.json"))
        if c and j:
            j["error"] = ("data race\n" if p.returncode == 66 else "the process ended: ") + c
            fails.append(j)
        elif i not in killed:
            errors.append("shard %d ended with %s:\n%s" % (i, p.returncode, tail(d + ".log")))
    if stuck and not fails:
        for i, d in stuck:
            j = load(os.path.join(d + "o", "journal.json"))
            if j and hangs(prop, j, binary, work):
                j["error"] = "the case does not terminate (60 s, twice; cases take milliseconds)"
                fails.append(j)
                break
        else:
            errors.append("time limit reached (%d s, or %d s on one case)" % (limit, STUCK))
    execs = 0
    if tier == "thorough" and prop in FUZZ and not fails and not errors:
        f, execs = fuzz(prop, 240, work, seed)
        if f:
            fails.append(f)

    # evidence
    cov = dict(evaluations=sum(s["evaluations"] for s in stats.values()) + execs,
               distinct_nontrivial=sum(len(s["hashes"]) for s in stats.values()),
               rule=rule + ". Cases are drawn by rapid from the seeds; distinct means a different serialised case.",
               samples=[], by_check={})
    for sub, s in sorted(stats.items()):
        cov["samples"] += [json.loads(x) if x.endswith("}") else x for x in s["samples"][:2]]
        cov["by_check"][sub] = dict(cases=s["evaluations"], nontrivial=len(s["hashes"]), saved_cases=s["corpus"], labels=dict(sorted(s["labels"].items())))
    if execs:
        cov["coverage_guided_executions"] = execs
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=ASSUMPTIONS.get(prop, []) + ["the reference implementation in harness/ref (big integers; crypto/ed25519 for verification) is right", "sampling: nothing is shown about cases that were not generated"],
              wall_s=round(time.time() - t0, 2), violations=len(fails))
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    if fails:
        fails.sort(key=lambda m: len(json.dumps(m.get("case"))))
        seen = set()
        for m in fails:
            if m["sub"] not in seen:
                seen.add(m["sub"])
                if m.get("historyfile"):
                    settle(prop, m, binary, work)
                violation(prop, m)
        return 1
    if errors:
        noanswer("\n".join(errors))
    if not stats:
        noanswer("no case was run:\n" + tail(procs[0][2] + ".log"))
    print("%s ok: %d cases, %d distinct non-trivial, %.1f s (%s, seed %d)" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, tier, seed))
    return 0


def replay(path):
    data = load(path)
    if not data:
        noanswer("cannot read " + path)
    prop = data["property"]
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        race = prop in RACE
        binary = build(P[prop][0], work, race=race, tools=prop in TOOLS)
        log = os.path.join(work, "log")
        extra = {"GORACE": "halt_on_error=1 exitcode=66"} if race else {}
        p = start(binary, ["-test.run", "^Test" + prop, "-test.timeout", "0", "-test.v"], os.path.join(work, "c"), os.path.join(work, "o"), log,
                  VERIF_REPLAY=os.path.abspath(path), VERIF_BIN=work, VERIF_REPEAT=os.environ.get("VERIF_REPEAT", "200" if race else "20"), **extra)
        try:
            p.wait(600)
        except subprocess.TimeoutExpired:
            kill(p)
            print("the case does not terminate")
        s = tail(log, 20000)
        print(s)
        if p.returncode != 0:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    work = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        for pkg in sorted({v[0] for v in P.values()}):
            build(pkg, work, race=pkg in ("conc", "readers"))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("ready")
    return 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] in P:
        sys.exit(check(a[0]))
    if len(a) == 2 and a[0] == "replay":
        sys.exit(replay(a[1]))
    if a == ["setup"]:
        sys.exit(setup())
    if len(a) == 3 and a[0] == "fuzz" and a[1] in FUZZ:
        w = tempfile.mkdtemp(prefix="verif-fuzz-")
        try:
            f, n = fuzz(a[1], int(a[2]), w, 1)
        finally:
            shutil.rmtree(w, ignore_errors=True)
        print(n, "executions")
        if f:
            violation(a[1], f)
            sys.exit(1)
        sys.exit(0)
    print(__doc__)
    sys.exit(2)
