"""Case runner, monitor bookkeeping, evidence, replay."""
import collections
import hashlib
import json
import os
import pickle
import random
import resource
import signal
import sys
import time
import traceback

from . import env

NPROC = int(os.environ.get("VERIF_JOBS", "8"))
CASE_LIMIT_S = 60
SOFT_DEADLINE_S = {"quick": 420, "thorough": 6 * 3600}
MAX_VIOL_PER_WORKER = 3


class Violation(Exception):
    """An oracle saw the property broken."""


class CaseTimeout(BaseException):
    pass


class Mon:
    """What the monitors observed."""

    def __init__(self, replaying=False):
        self.counters = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.replaying = replaying

    def ev(self, name, n=1):
        self.counters[name] += n

    def seen(self, *sig):
        """Record a distinct non-trivial state/case signature."""
        h = hashlib.blake2b(repr(sig).encode("utf-8", "backslashreplace"), digest_size=8)
        self.sigs.add(h.digest())

    def sample(self, text):
        if len(self.samples) < 3:
            text = str(text)
            self.samples.append(text if len(text) < 700 else text[:700] + "...")

    def check(self, ok, msg, *detail):
        self.counters["oracle_checks"] += 1
        if not ok:
            raise Violation(msg + "".join("\n  " + short(d) for d in detail))

    def eq(self, got, want, msg, *detail):
        self.counters["oracle_checks"] += 1
        if got != want or type(got) is not type(want):
            raise Violation(
                f"{msg}\n  got  {short(got)}\n  want {short(want)}"
                + "".join("\n  " + short(d) for d in detail)
            )


def short(x, n=1500):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:  # noqa: BLE001
        s = f"<unreprable {type(x)}: {e!r}>"
    return s if len(s) <= n else s[:n] + "..."


class Scenario:
    def __init__(self, name, fn, quick, thorough=None, isolated=False):
        self.name = name
        self.fn = fn
        self.n = {"quick": 2 * quick, "thorough": thorough if thorough is not None else quick * 25}


def case_rng(seed, prop, scen, idx):
    return random.Random(f"{seed}/{prop}/{scen}/{idx}")


def _alarm(*_):
    raise CaseTimeout()


def run_case(mod, scen, idx, seed, mon):
    """Run one case; return None or a violation dict."""
    rng = case_rng(seed, mod.PROPERTY, scen.name, idx)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
    try:
        scen.fn(rng, mon, idx)
        return None
    except Violation as e:
        kind, msg = "oracle", str(e)
    except CaseTimeout:
        kind, msg = "timeout", f"did not finish within {CASE_LIMIT_S} s\n" + traceback.format_exc()
    except RecursionError:
        kind, msg = "recursion", "RecursionError\n" + traceback.format_exc()[-1500:]
    except MemoryError:
        kind, msg = "memory", "MemoryError"
    except Exception:  # noqa: BLE001 - anything unexpected escaping the library
        kind, msg = "unexpected-exception", traceback.format_exc()[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {"property": mod.PROPERTY, "scenario": scen.name, "idx": idx, "seed": seed,
            "tier": env.tier(), "kind": kind, "message": msg}


LINES = None


def start_line_monitor():
    """Record which lines of the library execute (evidence only)."""
    global LINES
    LINES = set()
    m = sys.monitoring
    prefix = os.path.join(env.REPO, "binobj") + os.sep
    tool = 4
    try:
        m.use_tool_id(tool, "verif")
    except ValueError:
        return

    def on_line(code, line):
        if code.co_filename.startswith(prefix):
            LINES.add((code.co_filename[len(prefix):], line))
        return m.DISABLE

    m.register_callback(tool, m.events.LINE, on_line)
    m.set_events(tool, m.events.LINE)


def worker(mod, w, n, seed, tier, deadline, out_path):
    limit = 2 << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    start_line_monitor()
    mon = Mon()
    viols, done, skipped = [], collections.Counter(), 0
    for scen in mod.SCENARIOS:
        scen_viols = 0
        for idx in range(w, scen.n[tier], n):
            if time.monotonic() > deadline:
                skipped += 1
                continue
            if scen_viols >= 1 or len(viols) >= MAX_VIOL_PER_WORKER:
                break
            v = run_case(mod, scen, idx, seed, mon)
            done[scen.name] += 1
            if v:
                viols.append(v)
                scen_viols += 1
    with open(out_path, "wb") as f:
        pickle.dump((mon.counters, mon.sigs, mon.samples, viols, done, skipped, LINES), f)


def run(mod):
    t0 = time.monotonic()
    seed, tier, prop = env.seed(), env.tier(), mod.PROPERTY
    env.check_import()
    evdir = os.path.join(env.VERIF, "evidence")
    repdir = os.path.join(evdir, "replay")
    os.makedirs(repdir, exist_ok=True)
    deadline = t0 + SOFT_DEADLINE_S[tier]

    known_lines = run_known_probes(mod)

    tmpdir = os.path.join(evdir, f".tmp-{prop}-{os.getpid()}")
    os.makedirs(tmpdir)
    pids = {}
    sys.stdout.flush()
    try:
        for w in range(NPROC):
            pid = os.fork()
            if pid == 0:
                rc = 70
                try:
                    worker(mod, w, NPROC, seed, tier, deadline, f"{tmpdir}/{w}")
                    rc = 0
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(rc)
            pids[pid] = w
        bad_workers = []
        while pids:
            pid, st = os.wait()
            w = pids.pop(pid, None)
            if w is not None and st != 0:
                bad_workers.append((w, st))
        counters, sigs, samples, viols = collections.Counter(), set(), [], []
        done, skipped, lines = collections.Counter(), 0, set()
        for w in range(NPROC):
            p = f"{tmpdir}/{w}"
            if os.path.exists(p):
                with open(p, "rb") as f:
                    c, s, sm, v, d, sk, ln = pickle.load(f)
                counters += c
                sigs |= s
                samples += sm
                viols += v
                done += d
                skipped += sk
                lines |= ln or set()
    finally:
        for f in os.listdir(tmpdir):
            os.unlink(os.path.join(tmpdir, f))
        os.rmdir(tmpdir)

    wall = time.monotonic() - t0
    by_file = collections.Counter(f for f, _ in lines)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": sum(done.values()),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:6] or ["(none)"],
            "cases_per_scenario": dict(done),
            "events_observed": dict(sorted(counters.items())),
            "library_lines_executed": dict(sorted(by_file.items())),
            "skipped_by_deadline": skipped,
            "known_findings_reproduced": len(known_lines),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) or ["see DESIGN.md"],
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    path = os.path.join(evdir, f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write("\n")
    os.replace(path + ".tmp", path)
    if os.environ.get("VERIF_LINES"):
        with open(os.environ["VERIF_LINES"], "a") as f:
            for fn, ln in sorted(lines):
                f.write(f"{fn}:{ln}\n")

    for line in known_lines:
        print(line)
    viols.sort(key=lambda v: (v["scenario"], v["idx"]))
    if viols:
        for i, v in enumerate(viols[:5]):
            rp = os.path.join(repdir, f"{prop}-{v['scenario']}-{v['seed']}-{v['idx']}.json")
            with open(rp, "w") as f:
                json.dump(v, f, indent=1)
            print(f"VIOLATION property={prop} replay={rp}")
            print(f"  [{v['scenario']} #{v['idx']}] {v['kind']}: " + v["message"].replace("\n", "\n  ")[:3000])
        return 1
    problems = []
    if bad_workers:
        problems.append(f"workers died: {bad_workers}")
    for name, floor in getattr(mod, "FLOORS", {}).items():
        if counters.get(name, 0) < floor and not skipped:
            problems.append(f"monitor saw only {counters.get(name, 0)} {name} events (expected >= {floor})")
    if sum(done.values()) == 0:
        problems.append("no case ran")
    if problems:
        print(f"INCONCLUSIVE property={prop}: " + "; ".join(problems))
        return 2
    print(f"OK property={prop} tier={tier} seed={seed} cases={sum(done.values())} "
          f"distinct={len(sigs)} checks={counters['oracle_checks']} wall={wall:.1f}s")
    return 0


def known_entries(prop):
    path = os.path.join(env.VERIF, "known_findings.txt")
    out = []
    with open(path) as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding:"):
                parts = line[len("finding:"):].split(None, 2)
                kv = dict(p.split("=", 1) for p in parts[:2])
                if kv["property"] == prop:
                    out.append((kv["key"], parts[2]))
    return out


def run_known_probes(mod):
    lines = []
    for key, what in known_entries(mod.PROPERTY):
        probe = getattr(mod, "KNOWN", {}).get(key)
        if probe is None:
            raise SystemExit(f"no probe for known finding {key}")
        try:
            ok = probe()
        except Exception:  # noqa: BLE001
            ok = False
        if not ok:
            lines.append(f"KNOWN-FINDING: property={mod.PROPERTY} {what}")
    return lines


def replay(mod, path):
    env.check_import()
    with open(path) as f:
        v = json.load(f)
    scen = next(s for s in mod.SCENARIOS if s.name == v["scenario"])
    mon = Mon(replaying=True)
    r = run_case(mod, scen, v["idx"], v["seed"], mon)
    if r is None:
        print(f"replay of {path}: no violation")
        return 0
    print(f"VIOLATION property={mod.PROPERTY} replay={path}")
    print(r["kind"], r["message"])
    return 1
