#!/usr/bin/env python3
"""check.py ID            decide property ID on /repo's working tree
check.py --setup         build everything once
check.py --replay FILE   run the scenario of a violation again

Exit 0: the property held on everything explored. Exit 1: it is violated (a
VIOLATION line says where the replay file is). Anything else: no answer.
"""
import fcntl, json, os, re, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")

# Scenarios of miri/ that a property is also decided on: Miri interprets them
# under many schedules, with weak memory, and detects undefined behaviour.
MIRI = {
    "C09": ["exactly_once", "exactly_once_shared"],
    "C10": ["broadcast", "broadcast_history"],
    "C12": ["coordinated_close", "coordinated_drop", "coordinated_acks"],
    "C13": ["coordinated_close", "coordinated_drop", "coordinated_acks", "coordinated_moves"],
    "C14": ["contiguous_offer", "contiguous_offer2", "contiguous_mixed"],
    "C15": ["contiguous_offer", "contiguous_offer2", "contiguous_mixed", "exactly_once",
            "exactly_once_shared", "broadcast", "broadcast_history", "declare_delete",
            "coordinated_close", "coordinated_drop", "coordinated_acks", "coordinated_moves",
            "lease", "combinators", "serializers"],
}
# Monitors whose workloads are repeated under ThreadSanitizer for C15, with the
# percentage of their scenarios.
TSAN = {"C09": 60, "C10": 60, "C11": 60, "C12": 50, "C13": 50, "C14": 60, "C01": 50, "C02": 40,
        "C04": 40, "C20": 30, "C21": 30, "C22": 50, "C23": 40, "C30": 30}
TRIPLE = "x86_64-unknown-linux-gnu"


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, RUST_BACKTRACE="0",
             CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "RUST_LOG", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def build():
    """Builds the monitors against /repo's working tree."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".check-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(
            ["cargo", "build", "--offline", "--locked", "--manifest-path",
             os.path.join(VERIF, "harness/Cargo.toml")],
            env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("check.py: the monitors do not build against /repo")
        sys.exit(2)
    return os.path.join(TARGET, "debug/pv")


def cargo(args, crate, sub, extra):
    """Runs cargo +nightly on a crate; returns (ok, output)."""
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, sub)
    e.update(extra)
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, f".{sub}-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(["cargo", "+nightly"] + args, cwd=os.path.join(VERIF, crate), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace")
    return r.returncode == 0, r.stdout


def record(pid, name, what, detail):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, f"{pid}-{name}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "what": what, "detail": detail[:20000]}, f, indent=1)
    print(f"violation [{name}]: {what}")
    print(f"VIOLATION property={pid} replay={path}")


MIRI_FLAGS = {"RUSTFLAGS": "-Awarnings", "MIRIFLAGS": "-Zmiri-ignore-leaks"}


def miri(pid, scenarios, seed, thorough):
    """Interprets the scenarios under many schedules; returns (violations, report)."""
    rep = {"executions": 0, "distinct_orders_of_events": 0, "scenarios": {}, "not_decided": []}
    ok, out = cargo(["miri", "run", "-q", "--offline", "--locked", "--", "list"], "miri", "miri",
                    MIRI_FLAGS)
    if not ok:
        print(out[-3000:])
        print("check.py: the Miri part does not build")
        sys.exit(2)
    viol = 0
    prints = set()
    passes = [(64, "0.2", "")] if not thorough else [
        (1500, "0.2", ""), (1500, "0.05", ""), (1500, "0.5", ""),
        (300, "0.2", " -Zmiri-tree-borrows")]
    t0 = time.time()
    for n, (count, rate, extra) in enumerate(passes):
        for s in scenarios:
            if time.time() - t0 > (160 if not thorough else 5000):
                rep["not_decided"].append(f"{s}: no time left")
                continue
            first = (seed * 7919 + n * 100003) % 1000000
            e = env()
            e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "miri")
            e["RUSTFLAGS"] = "-Awarnings"
            e["MIRIFLAGS"] = (f"-Zmiri-ignore-leaks -Zmiri-preemption-rate={rate}"
                              f" -Zmiri-many-seeds={first}..{first + count}{extra}")
            p = subprocess.Popen(["cargo", "+nightly", "miri", "run", "-q", "--offline",
                                  "--locked", "--", s], cwd=os.path.join(VERIF, "miri"), env=e,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                 errors="replace", start_new_session=True)
            try:
                out, _ = p.communicate(timeout=120 if not thorough else 1500)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                out, _ = p.communicate()
                rep["not_decided"].append(f"{s}: ran out of time")
            done = re.findall(rf"DONE {s} (\d+) ([0-9a-f]+)", out)
            rep["executions"] += len(done)
            rep["scenarios"][s] = rep["scenarios"].get(s, 0) + len(done)
            prints.update((s, d) for d in done)
            if p.returncode == 0:
                continue
            # What the interpreter says of the execution that failed.
            what = None
            text = "\n".join(l for l in out.splitlines() if not l.startswith(("Trying seed", "DONE ")))
            ub = re.search(r"error: Undefined Behavior: .*", text)
            hang = re.search(r"error: (the evaluated program deadlocked|.*deadlock.*)", text)
            exp = re.search(r"EXPECTATION: (.*)", text)
            panic = re.search(r"panicked at (/repo/.*)", text)
            if ub:
                what = ub[0][7:] if pid == "C15" else None
            elif pid == "C15":
                pass
            elif exp and pid != "C13":
                what = exp[1]
            elif hang and pid not in ("C12", "C14"):
                what = "the threads wait for each other, or for what never happens"
            elif panic and pid != "C13":
                what = f"the library panicked at {panic[1]}"
            if what:
                failing = re.search(r"(?i)failing seed:? (\d+)", out)
                viol += 1
                record(pid, f"miri-{s}", f"{s}: {what}",
                       (f"MIRIFLAGS='{e['MIRIFLAGS']}' cargo +nightly miri run -- {s}"
                        f" (failing seed {failing[1] if failing else '?'})\n" + text))
                if viol >= 3:
                    break
            else:
                rep["not_decided"].append(f"{s}: {(ub or hang or exp or panic or ['ended early'])[0][:200]}")
    rep["distinct_orders_of_events"] = len(prints)
    rep["schedules_per_scenario"] = [p[0] for p in passes]
    print(f"{pid}: Miri: {rep['executions']} executions, {len(prints)} distinct orders of events")
    for d in rep["not_decided"]:
        print(f"not decided by Miri: {d}")
    return viol, rep


def sanitizer_build(kind):
    return cargo(["build", "--offline", "--locked", "-Zbuild-std", "--target", TRIPLE],
                 "harness", kind,
                 {"RUSTFLAGS": f"-Zsanitizer={kind} -Awarnings",
                  "CARGO_PROFILE_DEV_DEBUG": "line-tables-only"})


def sanitizer(pid, kind, seed, thorough):
    """Repeats the monitors' workloads under a sanitizer; returns (violations, report)."""
    rep = {"scenarios": 0, "distinct": 0, "workloads": {}, "reports_elsewhere": 0}
    ok, out = sanitizer_build(kind)
    if not ok:
        print(out[-3000:])
        print(f"check.py: the {kind} build fails")
        sys.exit(2)
    binary = os.path.join(TARGET, kind, TRIPLE, "debug/pv")
    viol = 0
    t0 = time.time()
    for p, percent in TSAN.items():
        if time.time() - t0 > (200 if not thorough else 4000):
            rep["workloads"][p] = "no time left"
            continue
        e = env()
        logs = os.path.join(OUT, f"{kind}-{p}")
        os.makedirs(OUT, exist_ok=True)
        for f in os.listdir(OUT):
            if f.startswith(f"{kind}-{p}."):
                os.remove(os.path.join(OUT, f))
        e["VERIF_TIER"] = "quick"
        e["PV_OUT"] = os.path.join(OUT, kind)
        e["PV_PERCENT"] = str(percent * (5 if thorough else 1))
        e["VERIF_SEED"] = str(seed)
        # Tokio registers sockets through a duplicate of its epoll descriptor, which
        # the sanitizer does not know to be the same: it would see races in tokio.
        e["PV_SKIP"] = "amqp,instructions"
        opts = f"halt_on_error=0 exitcode=0 log_path={logs} history_size=4"
        e["TSAN_OPTIONS"] = opts
        e["ASAN_OPTIONS"] = f"log_path={logs} detect_leaks=0"
        code, out = run([binary, p], e, 90 if not thorough else 900)
        m = re.search(r": (\d+) scenarios, (\d+) distinct", out)
        if m:
            rep["scenarios"] += int(m[1])
            rep["distinct"] += int(m[2])
        rep["workloads"][p] = int(m[1]) if m else "did not finish"
        text = "".join(open(os.path.join(OUT, f), errors="replace").read()
                       for f in sorted(os.listdir(OUT)) if f.startswith(f"{kind}-{p}."))
        for block in re.split(r"(?m)^(?==+$|=+\d+=+ERROR)", text):
            head = re.search(r"(WARNING: ThreadSanitizer|ERROR: AddressSanitizer): (.*)", block)
            if not head:
                continue
            # Only what involves the library counts.
            if "/repo/paladin-core/src/" not in block and "paladin" not in block:
                rep["reports_elsewhere"] += 1
                continue
            viol += 1
            if viol <= 3:
                record(pid, f"{kind}-{p}-{viol}", f"workload {p}: {head[2]}", block)
    print(f"{pid}: {kind} sanitizer: {rep['scenarios']} scenarios of {len(rep['workloads'])} workloads,"
          f" {viol} reports")
    return viol, rep


def c15(seed, thorough):
    """No undefined behaviour: Miri and the thread (and address) sanitizer."""
    t0 = time.time()
    viol, rep = miri("C15", MIRI["C15"], seed, thorough)
    reps = {"miri": rep}
    for kind in ["thread", "address"] if thorough else ["thread"]:
        v, r = sanitizer("C15", kind, seed, thorough)
        viol += v
        reps[kind] = r
    evaluations = rep["executions"] + sum(reps[k]["scenarios"] for k in reps if k != "miri")
    ev = {
        "property": "C15", "tier": "thorough" if thorough else "quick", "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": rep["distinct_orders_of_events"]
            + sum(reps[k]["distinct"] for k in reps if k != "miri"),
            "rule": "Executions under Miri (one per scenario and schedule seed; distinct by the order"
                    " of the events of all threads) and scenarios of the monitors' workloads under"
                    " ThreadSanitizer (distinct by what the monitor observed).",
            "samples": [f"Miri: {s}: {n} schedules" for s, n in rep["scenarios"].items()]
            + [f"{k} sanitizer: {w}: {n} scenarios" for k in reps if k != "miri"
               for w, n in reps[k]["workloads"].items()],
            **reps,
        },
        "assumptions": ["Dependencies are interpreted and instrumented as well (the standard library"
                        " is rebuilt); executions that were not produced are not decided."],
        "wall_s": time.time() - t0, "violations": viol,
    }
    with open(os.path.join(EVID, "C15.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        return 1
    if rep["executions"] == 0 and all(reps[k]["scenarios"] == 0 for k in reps if k != "miri"):
        print("check.py: nothing was observed")
        return 2
    return 0


def run(cmd, e, limit):
    """Runs a monitor; returns (exit code, output)."""
    p = subprocess.Popen(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return "timeout", out


def violation(pid, what, detail):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, f"{pid}-crash.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "what": what, "detail": detail[-8000:]}, f, indent=1)
    print(what)
    print(f"VIOLATION property={pid} replay={path}")


def main():
    args = sys.argv[1:]
    if args[:1] == ["--setup"]:
        build()
        cargo(["miri", "run", "-q", "--offline", "--locked", "--", "list"], "miri", "miri", MIRI_FLAGS)
        sanitizer_build("thread")
        return 0
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    one = []
    if args[:1] == ["--replay"]:
        rec = json.load(open(args[1]))
        pid = rec["property"]
        if "family" in rec:
            one = ["--one", rec["family"], rec["seed"], "200" if rec["family"] == "instructions" else "50"]
    else:
        pid = args[0]
    os.makedirs(EVID, exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if pid == "C15":
        return c15(seed, thorough)
    binary = build()
    os.makedirs(EVID, exist_ok=True)
    e = env()
    e.setdefault("VERIF_SEED", "1")
    e["PV_OUT"] = OUT
    ev = os.path.join(EVID, f"{pid}.json")
    if not one:
        e["PV_EVIDENCE"] = ev
        if os.path.exists(ev):
            os.remove(ev)
    t0 = time.time()
    code, out = run([binary, pid] + one, e, 7200 if thorough else 600)
    sys.stdout.write(out[-12000:])
    if code == "timeout":
        print(f"check.py: no verdict within {time.time() - t0:.0f} s")
        return 3
    if code in (0, 1):
        if code == 1 and "VIOLATION property=" not in out:
            return 3
        if code == 0 and pid in MIRI and not one:
            viol, rep = miri(pid, MIRI[pid], seed, thorough)
            with open(ev) as f:
                d = json.load(f)
            d["coverage"]["miri"] = rep
            d["violations"] += viol
            d["wall_s"] = time.time() - t0
            with open(ev, "w") as f:
                json.dump(d, f, indent=1)
            if viol:
                return 1
        return code
    if code < 0 and -code in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL):
        violation(pid, f"the monitored process died of {signal.Signals(-code).name}", out)
        return 1
    return 3


if __name__ == "__main__":
    sys.exit(main())
