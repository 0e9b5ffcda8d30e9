#!/usr/bin/env python3
"""C21: runs the sanitizer builds of the monitor harness and the Miri driver, and judges their reports.

  san.py check            all tools, evidence/C21.json, exit 0/1/2
  san.py replay FILE      rerun the command recorded in a replay file
"""
import json, os, re, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HOME = os.path.dirname(os.path.abspath(__file__))
TRIPLE = "x86_64-unknown-linux-gnu"
ASAN = f"{HOME}/target/asan/{TRIPLE}/debug/csigmon"
PLAIN = f"{HOME}/target/release/csigmon"
TSAN = f"{HOME}/target/tsan/{TRIPLE}/debug/csigmon"

# a frame of the library under test
LIB = re.compile(r"/repo/src/|cloud_storage_signature::")


def job(tool, seed, secs, rounds):
    env = {"CSIGMON_HOME": HOME, "RUST_BACKTRACE": "0"}
    if tool == "asan":
        env["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:detect_stack_use_after_return=1:allocator_may_return_null=1"
        return dict(tool=tool, cmd=[ASAN, "mix", str(secs), str(seed)], env=env, limit=secs + 240)
    if tool in ("tsan", "tsan-cold"):
        env["TSAN_OPTIONS"] = f"halt_on_error=0:history_size=4:exitcode=0:suppressions={HOME}/tsan.supp"
        # "cold": one process whose very first calls are made at once
        cmd = [TSAN, "stress", str(secs), str(seed)] if tool == "tsan" else [TSAN, "cold", str(seed)]
        return dict(tool="tsan", cmd=cmd, env=env, limit=secs + 240)
    if tool == "memcheck":
        # uninitialised bytes: memcheck follows them through ring's assembly, which MSan cannot
        cmd = ["valgrind", "--error-limit=no", "--num-callers=50", "-q", "--fullpath-after=", PLAIN, "mix", str(secs), str(seed)]
        return dict(tool=tool, cmd=cmd, env=env, limit=secs * 3 + 240)
    env["MIRIFLAGS"] = f"-Zmiri-disable-isolation -Zmiri-seed={seed}"
    env["CARGO_TARGET_DIR"] = f"{HOME}/target/miri"
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", f"{HOME}/miri/Cargo.toml", "--", str(seed), str(rounds)]
    return dict(tool=tool, cmd=cmd, env=env, limit=rounds * 8 + 120)


def run(j):
    t0 = time.time()
    with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err:
        p = subprocess.Popen(j["cmd"], env={**os.environ, **j["env"]}, stdout=out, stderr=err, start_new_session=True)
        timed = False
        try:
            rc = p.wait(timeout=j["limit"])
        except subprocess.TimeoutExpired:
            timed = True
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            rc = p.wait()
        out.seek(0)
        err.seek(0)
        o, e = out.read().decode(errors="replace"), err.read(64 << 20).decode(errors="replace")
    return {**j, "rc": rc, "timed": timed, "out": o, "err": e, "s": time.time() - t0}


def reports(r):
    """(violations, reports that name no frame of the library)"""
    e = r["err"]
    bad, other = [], []
    for m in re.finditer(r"MEMORY: .*", e):
        bad.append(m.group(0))
    for m in re.finditer(r"unsafe precondition\(s\) violated.*", e):
        bad.append(m.group(0))
    if r["tool"] == "asan":
        k = e.find("ERROR: AddressSanitizer")
        if k >= 0 and "out of memory" not in e[k : k + 200] and "AddressSanitizer: ABRT" not in e[k : k + 200]:
            bad.append(e[k : k + 6000])
    elif r["tool"] == "tsan":
        for part in e.split("=================="):
            if "WARNING: ThreadSanitizer" in part:
                (bad if LIB.search(part) else other).append(part[:8000])
        if "ERROR: ThreadSanitizer" in e:
            bad.append(e[e.find("ERROR: ThreadSanitizer") :][:4000])
    elif r["tool"] == "memcheck":
        for part in re.split(r"^==\d+== *$", e, flags=re.M):
            head = re.search(r"(Invalid (read|write|free)|Mismatched free|Jump to the invalid|Conditional jump or move depends|Use of uninitialised|Argument .* of function|Source and destination overlap)", part)
            if head:
                # optimised code may branch early on a value it then ignores: uninitialised bytes count once they are
                # in what the library returned (check_str branches on every byte of that)
                stack = part[head.start() :]
                ours = "check_str" in stack if head.group(1)[:4] in ("Cond", "Use ") else LIB.search(stack)
                (bad if ours else other).append(stack[:8000])
    else:
        for m in re.finditer(r"error: (Undefined Behavior|Data race|memory leaked|abnormal termination).*(?:\n.*){0,40}", e):
            if "memory leaked" not in m.group(1):
                bad.append(m.group(0))
    if r["rc"] in (-11, -7, -4) and not bad:
        bad.append(f"died of signal {-r['rc']}\n{e[-3000:]}")
    return bad, other


def main():
    if sys.argv[1:2] == ["replay"]:
        j = json.load(open(sys.argv[2]))
        r = run(dict(tool=j["tool"], cmd=j["cmd"], env=j["env"], limit=900))
        bad, _ = reports(r)
        for b in bad[:3]:
            print(b)
        if bad:
            print(f"VIOLATION property=C21 replay={sys.argv[2]}")
        return int(bool(bad))
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    secs, rounds = (140, 140) if thorough else (20, 16)
    scale = float(os.environ.get("CSIGMON_SAN_SCALE", "1"))
    secs, rounds = int(secs * scale), max(4, int(rounds * scale))
    phases = [
        [job("tsan", seed * 100 + k, secs, 0) for k in range(4)]
        + [job("tsan-cold", seed * 1000 + k, 0, 0) for k in range(40 if thorough else 12)],
        [job("asan", seed * 100 + k, secs, 0) for k in range(8)],
        [job("memcheck", seed * 100 + k, secs, 0) for k in range(8)],
        [job("miri", seed * 100 + k, 0, rounds) for k in range(8)],
    ]
    done = []
    for ph in phases:
        with ThreadPoolExecutor(8) as ex:
            done += list(ex.map(run, ph))
    viol, notes, broken = [], [], []
    tools = {}
    evals = distinct = 0
    samples = []
    for r in done:
        bad, other = reports(r)
        t = tools.setdefault(r["tool"], dict(runs=0, evaluations=0, distinct=0, dependency_only_reports=0, incomplete=0, counters={}))
        t["runs"] += 1
        t["dependency_only_reports"] += len(other)
        for b in bad:
            viol.append((r, b))
        m = re.search(r"^STRESS (\{.*\})$", r["out"], re.M)
        if m:
            d = json.loads(m.group(1))
            t["evaluations"] += d["evaluations"]
            t["distinct"] += d["distinct"]
            evals += d["evaluations"]
            distinct += d["distinct"]
            for k, v in d["counters"].items():
                t["counters"][k] = t["counters"].get(k, 0) + v
            samples += [f"{r['tool']}: {s}"[:400] for s in d["samples"][:1]]
        else:
            t["incomplete"] += 1
            notes.append(f"{r['tool']} run rc={r['rc']} timed_out={r['timed']}: {r['err'][-600:]}")
            if not bad and not r["timed"] and r["tool"] != "miri":
                broken.append(notes[-1])
        if r["tool"] == "miri":
            samples += [f"miri: {s}"[:300] for s in re.findall(r"^outcome: (.*)$", r["err"], re.M)[:1]]
    code = 0
    if viol:
        code = 1
        os.makedirs(f"{HOME}/replays", exist_ok=True)
        r, b = viol[0]
        path = f"{HOME}/replays/C21-{r['tool']}-{seed}.json"
        json.dump(dict(property="C21", tool=r["tool"], cmd=r["cmd"], env=r["env"], report=b), open(path, "w"), indent=1)
        print(b[:3000])
        print(f"VIOLATION property=C21 replay={path}")
    elif broken or any(tools[t]["evaluations"] == 0 for t in ("asan", "tsan", "memcheck")):
        code = 2
        for n in notes[:5]:
            print("ERROR", n)
    os.makedirs(f"{HOME}/evidence", exist_ok=True)
    ev = dict(
        property="C21",
        tier="thorough" if thorough else "quick",
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=evals,
            distinct_nontrivial=distinct,
            rule="TSan: rounds of 8-40 concurrent calls on shared keys, with aborts and cancellations, distinct by the order in which calls finished, and processes whose first calls are made at once; ASan and memcheck: every workload of the other properties, distinct by input; Miri: calls that make no foreign call, distinct by outcome (error text). Non-trivial: the call ran to an outcome in an instrumented build.",
            samples=samples[:8] or ["none"],
            tools=tools,
            notes=notes[:5],
        ),
        assumptions=["Miri covers the paths without foreign calls (no RSA, no sockets)", "memcheck also follows uninitialised bytes through assembly; every string the library returns is read bit by bit", "TSan and ASan instrument all Rust code and std, not ring's assembly", "tsan.supp: one tokio frame"],
        wall_s=round(time.time() - t0, 2),
        violations=len(viol),
    )
    json.dump(ev, open(f"{HOME}/evidence/C21.json", "w"), indent=1)
    print(f"C21 {ev['tier']} seed {seed}: {evals} judged, {distinct} distinct, {len(viol)} violations, {ev['wall_s']} s; " + ", ".join(f"{k}: {v['evaluations']}" for k, v in tools.items()))
    return code


sys.exit(main())
