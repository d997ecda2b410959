"""Builds the harness from /repo's working tree, runs its shards, judges how they ended, writes the evidence."""

import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(V, "work")
TRIPLE = "x86_64-unknown-linux-gnu"

KINDS = {
    # kind: (toolchain, cargo arguments, RUSTFLAGS, binary directory)
    "dev": ([], [], "", "debug"),
    "rel": ([], ["--release"], "", "release"),
    "asan": (["+nightly"], ["--target", TRIPLE], "-Znext-solver=no -Zsanitizer=address", f"{TRIPLE}/debug"),
    "tsan": (["+nightly"], ["-Zbuild-std", "--target", TRIPLE], "-Znext-solver=no -Zsanitizer=thread", f"{TRIPLE}/debug"),
    "miri": (["+nightly", "miri"], [], "-Znext-solver=no -Awarnings", ""),
}


class CheckError(Exception):
    """The check itself failed; no verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("VH_", "CARGO_BUILD", "RUSTFLAGS", "MIRIFLAGS"))}
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    return e


def target_dir(st):
    return os.path.join(V, st["crate"], "target", st["kind"] + ("-par" if st.get("par") else "") + ("-" + st["target"] if st.get("target") else ""))


def cargo_args(st):
    a = ["--offline", "--target-dir", target_dir(st)]
    if st.get("par"):
        a += ["--features", "par"]
    if st.get("target"):  # Miri only
        a += ["--target", st["target"]]
    return a + KINDS[st["kind"]][1]


def build(st):
    """Builds one variant; the library is always compiled anew, whatever file times say."""
    tc, _, flags, _ = KINDS[st["kind"]]
    env = base_env()
    if flags:
        env["RUSTFLAGS"] = flags
    cwd = os.path.join(V, st["crate"])
    tool = [t for t in tc if t != "miri"]
    clean = ["cargo", *tool, "clean", "--offline", "--target-dir", target_dir(st), "-p", "sparsey"]
    if st["kind"] == "rel":
        clean.append("--release")
    subprocess.run(clean, cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if st["kind"] in ("asan", "tsan"):
        subprocess.run(clean + ["--target", TRIPLE], cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if st["kind"] == "miri":
        # There is no `miri build`; an idle run builds everything.
        shutil.rmtree(os.path.join(target_dir(st), "miri"), ignore_errors=True)
        if st.get("target"):
            shutil.rmtree(os.path.join(target_dir(st), st["target"]), ignore_errors=True)
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation"
        cmd = ["cargo", *tc, "run", *cargo_args(st), "--", "idle"]
    else:
        cmd = ["cargo", *tc, "build", *cargo_args(st)]
    t = time.time()
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError(f"build of {st['crate']} ({st['kind']}) failed:\n{r.stdout[-4000:]}")
    log(f"built {st['crate']}/{st['kind']}{'-par' if st.get('par') else ''}{'-' + st['target'] if st.get('target') else ''} in {time.time() - t:.1f} s")


def build_all(stages):
    todo = {}
    for st in stages:
        todo.setdefault(target_dir(st), st)
    errs = []

    def one(st):
        try:
            build(st)
        except CheckError as e:
            errs.append(e)

    for target in sorted({st.get("target", "") for st in stages if st["kind"] == "miri"}):
        # Builds Miri's standard library once, before several builds would want to.
        env = base_env()
        r = subprocess.run(["cargo", "+nightly", "miri", "setup", *(["--target", target] if target else [])], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("cargo miri setup failed:\n" + r.stdout[-3000:])
    ts = [threading.Thread(target=one, args=(st,)) for st in todo.values()]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    for st in stages:
        if st["kind"] == "asan":
            # Leak detection needs ptrace; find out on a program that does nothing.
            r = subprocess.run([*command(st), "idle"], env=stage_env(st), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if "LeakSanitizer has encountered a fatal error" in r.stdout:
                st["no_lsan"] = True
                log("leak detection is not available here")
            elif r.returncode != 0:
                raise CheckError("the ASan build does not start:\n" + r.stdout[-3000:])


def command(st):
    tc, _, _, d = KINDS[st["kind"]]
    if st["kind"] == "miri":
        return ["cargo", *tc, "run", "-q", *cargo_args(st), "--"]
    return [os.path.join(target_dir(st), d, st["crate"])]


def stage_env(st, shard=0):
    env = base_env()
    flags = KINDS[st["kind"]][2]
    if st["kind"] == "miri":
        env["RUSTFLAGS"] = flags
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation " + st.get("miriflags", "").replace("{shard}", str(shard))
    if st["kind"] == "asan":
        env["ASAN_OPTIONS"] = "exitcode=77:abort_on_error=0:allocator_may_return_null=0:detect_leaks=" + str(int(not (st.get("no_leaks") or st.get("no_lsan"))))
    if st["kind"] == "tsan":
        env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1"
    env.update(st.get("env", {}))
    return env


SIGS = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def judge(st, rc, err):
    """None if the run ended well, a message if it shows a violation; CheckError if it shows nothing."""
    if st["kind"] == "miri":
        m = re.search(r"error: (Undefined Behavior: .*|memory leaked.*|the evaluated program leaked memory.*|.*deadlock.*)", err)
        if m:
            loc = re.search(r"-->\s*(\S+)", err[m.start():])
            return f"Miri: {m.group(1)[:300]} at {loc.group(1) if loc else '?'}"
        if rc != 0 and re.search(r"error: unsupported operation", err):
            raise CheckError("Miri: " + err[-2000:])
    for pat, name in (("AddressSanitizer", "ASan"), ("LeakSanitizer", "LSan"), ("ThreadSanitizer", "TSan")):
        m = re.search(r"(ERROR|WARNING): " + pat + r":? (.*)", err)
        if m:
            fr = [l.strip() for l in err.splitlines() if re.match(r"\s+#\d+ ", l) and "sparsey" in l]
            return f"{name}: {m.group(2)[:200]} {fr[0] if fr else ''}"
    if rc == 0:
        return None
    if rc < 0 and -rc in SIGS or 128 < rc < 160 and rc - 128 in SIGS:
        return f"the process died of {signal.Signals(-rc if rc < 0 else rc - 128).name}: {err[-300:]}"
    raise CheckError(f"run ended with status {rc}:\n{err[-3000:]}")


def run_shards(prop, stages, tier, seed):
    """Runs every shard of every stage, at most 8 processes at a time."""
    jobs = []
    for si, st in enumerate(stages):
        n = st.get("shards", 8)
        for sh in range(n):
            jobs.append((si, st, sh, n))
    # Long stages first.
    jobs.sort(key=lambda j: -j[1].get("prio", 0))
    results, errors, lock = [], [], threading.Lock()
    stop = threading.Event()
    it = iter(jobs)

    def worker():
        while not stop.is_set():
            with lock:
                j = next(it, None)
            if j is None:
                return
            try:
                r = run_one(prop, *j, tier, seed, stop)
            except CheckError as e:
                with lock:
                    errors.append(str(e))
                stop.set()
                return
            if r is None:
                return
            with lock:
                results.append(r)
            if r["violation"]:
                stop.set()

    ts = [threading.Thread(target=worker) for _ in range(8)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return results, errors


def run_one(prop, si, st, shard, shards, tier, seed, stop):
    d = os.path.join(WORK, prop)
    tag = f"{si}-{shard}"
    out, prog, errf = (os.path.join(d, f"{tag}.{x}") for x in ("json", "progress", "err"))
    for p in (out, prog):
        if os.path.exists(p):
            os.remove(p)
    env = stage_env(st, shard)
    th = tier == "thorough"
    secs = st.get("secs", (25, 300))[th]
    env.update(
        VERIF_SEED=str(seed),
        VERIF_TIER=tier,
        VH_SHARD=str(shard),
        VH_SHARDS=str(shards),
        VH_SCALE=str(st.get("scale", (100, 100))[th]),
        VH_SECS=str(secs),
        VH_OUT=out,
        VH_PROGRESS=prog,
        VH_STAGE=st["kind"],
    )
    cmd = command(st) + [st.get("cmd", prop)]
    t0 = time.time()
    hang = st.get("hang", 150 if st["kind"] in ("dev", "rel") else 400)
    limit = 600 if not th else 3000
    with open(errf, "wb") as ef:
        p = subprocess.Popen(cmd, cwd=os.path.join(V, st["crate"]), env=env, stdout=ef, stderr=ef, start_new_session=True)
        hung = None
        while True:
            try:
                p.wait(0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            if stop.is_set():
                kill(p)
                return None
            last = os.path.getmtime(prog) if os.path.exists(prog) else t0
            if now - max(last, t0) > hang:
                hung = f"no progress for {hang} s in case: {read(prog)}"
                kill(p)
                break
            if now - t0 > limit:
                kill(p)
                raise CheckError(f"{st['crate']}/{st['kind']} shard {shard} did not end within {limit} s")
    err = read(errf)
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    r = dict(stage=st, shard=shard, shards=shards, res=res, violation=None, wall=time.time() - t0)
    if hung:
        r["violation"] = dict(oracle="hang", message=hung, case=read(prog), replay=None)
    elif p.returncode == 10 and res and res.get("status") == "violation":
        r["violation"] = {k: res.get(k) for k in ("oracle", "message", "case", "replay")}
    else:
        m = judge(st, p.returncode, err)
        if m:
            r["violation"] = dict(oracle=st["kind"], message=m, case=read(prog), replay=None, stderr=err[-20000:])
        elif res is None:
            raise CheckError(f"{st['crate']}/{st['kind']} shard {shard} left no result:\n{err[-2000:]}")
    if r["violation"]:
        r["cmd"] = cmd
        keys = ("VERIF_SEED", "VERIF_TIER", "VH_SHARD", "VH_SHARDS", "VH_SCALE", "VH_SECS", "MIRIFLAGS", "RUSTFLAGS", "ASAN_OPTIONS", "TSAN_OPTIONS", *st.get("env", {}))
        r["env"] = {k: env[k] for k in keys if k in env}
    return r


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def read(p):
    try:
        return open(p, errors="replace").read()
    except OSError:
        return ""


def write_replay(prop, r, seed):
    v = r["violation"]
    body = [
        f"# property {prop}",
        f"# oracle {v['oracle']}",
        *("# " + l for l in str(v["message"]).splitlines()),
        f"# case {v['case']}",
        f"# stage {r['stage']['crate']} {r['stage']['kind']}{' par' if r['stage'].get('par') else ''}, shard {r['shard']} of {r['shards']}",
        "# rerun (in /verif/" + r["stage"]["crate"] + "): " + " ".join(f"{k}='{x}'" for k, x in r["env"].items()) + " " + " ".join(r["cmd"]),
        "",
    ]
    if v.get("replay"):
        body.append(v["replay"])
    if v.get("stderr"):
        body += ["# " + l for l in v["stderr"].splitlines()]
    d = os.path.join(V, "work", "replay")
    os.makedirs(d, exist_ok=True)
    txt = "\n".join(body)
    p = os.path.join(d, f"{prop}-{hashlib.sha1(txt.encode()).hexdigest()[:10]}.txt")
    open(p, "w").write(txt)
    return p


def known_findings(prop):
    out = []
    for l in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out


def merge(results):
    tot = dict(evaluations=0, counts={}, maxes={}, samples=[], distinct=set())
    for r in sorted(results, key=lambda r: (r["stage"]["kind"], r["shard"])):
        d = r["res"]
        if not d:
            continue
        tot["evaluations"] += d["evaluations"]
        for k, n in d["counts"].items():
            tot["counts"][k] = tot["counts"].get(k, 0) + n
        for k, n in d["maxes"].items():
            tot["maxes"][k] = max(tot["maxes"].get(k, 0), n)
        for s in d["samples"][:3]:
            if len(tot["samples"]) < 24 and s not in tot["samples"]:
                tot["samples"].append(s)
        h = d["distinct_hex"]
        tot["distinct"].update(h[i : i + 16] for i in range(0, len(h), 16))
    return tot


def run_check(prop, spec, tier, seed):
    t0 = time.time()
    d = os.path.join(WORK, prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    stages = [s for s in spec["stages"] if tier == "thorough" or not s.get("thorough_only")]
    try:
        build_all(stages)
        t1 = time.time()
        results, errors = run_shards(prop, stages, tier, seed)
    except CheckError as e:
        print(f"ERROR property={prop}: {e}", flush=True)
        return 3
    bad = [r for r in results if r["violation"]]
    if not bad and errors:
        print(f"ERROR property={prop}: {errors[0]}", flush=True)
        return 3
    tot = merge(results)
    kf = [(k, t) for k, t in known_findings(prop) if tot["counts"].get("kf:" + k, 0) > 0]
    per_stage = {}
    for r in results:
        name = r["stage"]["crate"] + "/" + r["stage"]["kind"] + ("-par" if r["stage"].get("par") else "") + (":" + r["stage"]["label"] if "label" in r["stage"] else "")
        e = per_stage.setdefault(name, dict(shards=0, evaluations=0, cpu_s=0.0))
        e["shards"] += 1
        e["evaluations"] += (r["res"] or {}).get("evaluations", 0)
        e["clean"] = e.get("clean", 0) + (r["violation"] is None)
        e["cpu_s"] = round(e["cpu_s"] + r["wall"], 1)
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=spec["level"],
        coverage=dict(
            evaluations=tot["evaluations"],
            distinct_nontrivial=len(tot["distinct"]),
            rule=spec["rule"],
            samples=tot["samples"],
            observed=dict(sorted(tot["counts"].items())),
            largest=dict(sorted(tot["maxes"].items())),
            stages=per_stage,
            known_findings=[k for k, _ in kf],
            leak_detection={s["kind"]: not (s.get("no_leaks") or s.get("no_lsan")) for s in stages if s["kind"] == "asan"},
            build_s=round(t1 - t0, 1),
        ),
        assumptions=spec.get("assumptions", []),
        wall_s=round(time.time() - t0, 1),
        violations=len(bad),
    )
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", f"{prop}.json"), "w"), indent=1)
    for k, t in kf:
        print(f"KNOWN-FINDING: property={prop} {k}: {t}")
    log(f"{prop}: {tot['evaluations']} evaluations, {len(tot['distinct'])} distinct, {ev['wall_s']} s")
    if bad:
        # Prefer a shrunk history over a crash.
        bad.sort(key=lambda r: (r["violation"].get("replay") is None, r["stage"]["kind"], r["shard"]))
        v = bad[0]["violation"]
        p = write_replay(prop, bad[0], seed)
        print(f"{prop}: oracle {v['oracle']}: {v['message']}\n  case: {v['case']}", flush=True)
        print(f"VIOLATION property={prop} replay={p}", flush=True)
        return 1
    if tot["evaluations"] == 0 or not tot["distinct"]:
        print(f"ERROR property={prop}: nothing was observed")
        return 3
    print(f"{prop}: held on {tot['evaluations']} evaluations ({len(tot['distinct'])} distinct situations)")
    return 0
