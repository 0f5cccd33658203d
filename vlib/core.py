"""Runtime-monitoring harness.

A property module lists *streams* of cases.  A case is a function of a Ctx (seeded random generator
+ monitor); it drives the real library from /repo through `ctx.call`, which is the monitored
boundary, and raises Violation when the observed execution contradicts the oracle.
"""
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYSCIM_REPO", "/repo")
CASE_CPU_S = 20.0
QUICK_SCALE = 3

if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Violation(Exception):
    def __init__(self, message, **witness):
        super().__init__(message)
        self.message = message
        self.witness = witness


class Skip(Exception):
    """The generated case is outside of the property's domain."""


class _NoResult(BaseException):
    """Too much CPU time spent in one case."""


def short(value, limit=1500):
    try:
        text = repr(value)
    except Exception as e:  # noqa
        text = f"<unprintable {type(value).__name__}: {e!r}>"
    return text if len(text) <= limit else text[:limit] + "..."


class Ctx:
    """Monitor of one case: records the events at the library boundary."""

    def __init__(self, rng, tier, events, signatures):
        self.rng = rng
        self.tier = tier
        self.events = events
        self.signatures = signatures
        self.log = []
        self.samples = []

    def sample(self, value):
        """An actual case, written out for the evidence."""
        self.samples.append(value)

    def call(self, label, fn, *args, **kwargs):
        self.events["call:" + label] += 1
        try:
            return fn(*args, **kwargs)
        except Exception as e:
            frames = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.relpath(f.filename, REPO)}:{f.lineno}" for f in frames[-3:]]
            raise Violation(
                f"{label} raised {type(e).__name__}: {short(str(e), 200)}",
                at=where,
                args=short(args),
                kwargs=short(kwargs),
            ) from None

    def seen(self, event, n=1):
        self.events[event] += n

    def sig(self, *parts):
        """The case showed a non-trivial behaviour with that signature."""
        self.signatures.add(hash(parts))

    def expect(self, condition, message, **witness):
        self.events["oracle_decisions"] += 1
        if not condition:
            raise Violation(message, **{k: short(v) for k, v in witness.items()})

    def same(self, actual, expected, message, **witness):
        self.events["oracle_decisions"] += 1
        if actual != expected:
            raise Violation(
                message,
                expected=short(expected),
                actual=short(actual),
                **{k: short(v) for k, v in witness.items()},
            )


def case_rng(seed, pid, stream, index):
    return random.Random(f"{seed}:{pid}:{stream}:{index}")


def load(pid):
    return importlib.import_module(f"vlib.props.{pid.lower()}")


class LineCoverage:
    """Executed lines of the library, with sys.monitoring (each line costs once)."""

    def __init__(self):
        self.prefix = os.path.join(REPO, "src") + os.sep
        self.lines = set()

    def start(self):
        mon = sys.monitoring
        mon.use_tool_id(mon.COVERAGE_ID, "verif")

        def on_line(code, line):
            if code.co_filename.startswith(self.prefix):
                self.lines.add((code.co_filename[len(self.prefix) :], line))
            return mon.DISABLE

        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def _all_lines():
    """Executable lines of function bodies in the library (module level excluded)."""
    total = Counter()
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for name in files:
            if not name.endswith(".py"):
                continue
            path = os.path.join(root, name)
            with open(path) as f:
                try:
                    code = compile(f.read(), path, "exec")
                except SyntaxError:
                    continue
            todo = [c for c in code.co_consts if hasattr(c, "co_lines")]
            lines = set()
            while todo:
                c = todo.pop()
                if not (c.co_flags & 0x2):  # class bodies
                    todo.extend(x for x in c.co_consts if hasattr(x, "co_lines"))
                    continue
                lines.update(ln for _, _, ln in c.co_lines() if ln and ln != c.co_firstlineno)
                todo.extend(x for x in c.co_consts if hasattr(x, "co_lines"))
            total[os.path.relpath(path, os.path.join(REPO, "src"))] = lines
    return total


def _run_case(module, fn, pid, seed, stream, index, tier, events, signatures, samples=None):
    ctx = Ctx(case_rng(seed, pid, stream, index), tier, events, signatures)

    def on_timeout(*_):
        raise _NoResult()

    signal.signal(signal.SIGVTALRM, on_timeout)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        fn(ctx, index)
        return None
    except Skip:
        events["skipped"] += 1
        return None
    except Violation as v:
        return {"message": v.message, "witness": v.witness, "trace": ctx.log[-40:]}
    except Exception as e:
        # the oracle could not interpret what the library returned
        frames = traceback.extract_tb(e.__traceback__)
        return {
            "message": f"uninterpretable result: {type(e).__name__}: {short(str(e), 300)}",
            "witness": {"at": [f"{f.filename}:{f.lineno}" for f in frames[-6:]]},
            "trace": ctx.log[-40:],
        }
    except _NoResult:
        return {
            "message": f"no result within {CASE_CPU_S} s of CPU time",
            "witness": {},
            "trace": ctx.log[-40:],
        }
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if samples is not None and len(samples) < 3:
            written = [short(s, 600) for s in ctx.samples[:1]] or ctx.log[:12]
            if written:
                samples.append({"stream": stream, "index": index, "case": written})


def _worker(worker, workers, module_name, pid, seed, tier, counts, deadline, queue):
    try:
        module = importlib.import_module(module_name)
        coverage = LineCoverage()
        coverage.start()
        events, signatures = Counter(), set()
        executed = Counter()
        violations, errors = [], []
        samples = []
        cut = False
        found = Counter()
        # streams take turns, so that each gets its share should time run out
        cases = sorted(
            (index / n, stream, index) for stream, n in counts.items() for index in range(worker, n, workers)
        )
        for _, stream, index in cases:
            if time.monotonic() > deadline:
                cut = True
                break
            if found[stream] >= 3:
                continue
            if len(violations) >= 8 or len(errors) > 2:
                break
            fn = module.STREAMS[stream][0]
            try:
                result = _run_case(
                    module, fn, pid, seed, stream, index, tier, events, signatures,
                    samples if index < 3 * workers else None,
                )
            except Exception:
                errors.append({"stream": stream, "index": index, "error": traceback.format_exc()})
                continue
            executed[stream] += 1
            if result is not None:
                violations.append({"stream": stream, "index": index, **result})
                found[stream] += 1
        queue.put(
            {
                "events": dict(events),
                "signatures": signatures,
                "executed": dict(executed),
                "violations": violations,
                "errors": errors,
                "lines": coverage.lines,
                "cut": cut,
                "samples": samples,
            }
        )
    except BaseException:  # noqa
        queue.put({"crash": traceback.format_exc()})


def _load_findings():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get("findings", [])


def _matches_finding(finding, violation):
    if finding.get("stream") and finding["stream"] != violation["stream"]:
        return False
    text = violation["message"] + json.dumps(violation["witness"], default=str)
    return all(part in text for part in finding["contains"])


def run(pid, tier, scale=1.0, workers=0):
    started = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    workers = workers or max(1, min(8, os.cpu_count() or 1))
    budget = 500 if tier == "quick" else 3000
    deadline = started + budget
    try:
        module = load(pid)
    except Exception as e:
        # the library can not even be imported or set up
        frames = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(REPO + os.sep) for f in frames):
            path = _write_replay(pid, seed, tier, "import", 0, {"message": f"library can not be used: {e!r}", "witness": {}})
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  library can not be used: {e!r}")
            return 1
        raise
    column = 1 if tier == "quick" else 2
    if tier == "quick":
        scale *= QUICK_SCALE
    counts = {
        name: max(1, int(stream[column] * scale)) if len(stream) < 4 or not stream[3] else stream[column]
        for name, stream in module.STREAMS.items()
    }

    ctx = multiprocessing.get_context("fork")
    queue = ctx.Queue()
    processes = [
        ctx.Process(
            target=_worker,
            args=(w, workers, module.__name__, pid, seed, tier, counts, deadline, queue),
        )
        for w in range(workers)
    ]
    for p in processes:
        p.start()
    results, crashed = [], []
    pending = workers
    while pending:
        try:
            result = queue.get(timeout=5)
        except Exception:
            if time.monotonic() > deadline + 120:
                crashed.append("worker gave no result in time")
                break
            if not any(p.is_alive() for p in processes) and queue.empty():
                crashed.append("worker died")
                break
            continue
        pending -= 1
        (crashed if "crash" in result else results).append(result)
    for p in processes:
        if p.is_alive():
            p.terminate()
        p.join()

    events, executed, signatures, lines = Counter(), Counter(), set(), set()
    violations, errors, samples = [], [], []
    cut = False
    for result in results:
        events.update(result["events"])
        executed.update(result["executed"])
        signatures |= result["signatures"]
        lines |= result["lines"]
        violations.extend(result["violations"])
        errors.extend(result["errors"])
        cut = cut or result["cut"]
        samples.extend(result["samples"])

    findings = [f for f in _load_findings() if f["property"] == pid]
    known, new = {}, []
    for violation in violations:
        for finding in findings:
            if _matches_finding(finding, violation):
                known[finding["what"]] = violation
                break
        else:
            new.append(violation)
    for what in known:
        print(f"KNOWN-FINDING: property={pid} {what}")

    wall = time.monotonic() - started
    all_lines = _all_lines()
    touched = {}
    for name, executable in sorted(all_lines.items()):
        hit = len({ln for f, ln in lines if f == name} & executable)
        if hit:
            touched[name] = f"{hit}/{len(executable)}"
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(executed.values()),
            "distinct_nontrivial": len(signatures),
            "rule": module.RULE,
            "samples": [
                s if isinstance(s, (str, dict, list)) else short(s) for s in samples[:6]
            ] or [f"stream {name} case 0" for name in list(executed)[:2]],
            "cases_per_stream": dict(executed),
            "monitor_events": dict(sorted(events.items())),
            "library_lines_executed": touched,
            "cut_by_time": cut,
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write("\n")

    if new:
        new.sort(key=lambda v: (v["index"], v["stream"]))
        shown = set()
        for violation in new:
            key = (violation["stream"], violation["message"])
            if key in shown or len(shown) >= 5:
                continue
            shown.add(key)
            path = _write_replay(pid, seed, tier, violation["stream"], violation["index"], violation)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  {violation['stream']}#{violation['index']}: {violation['message']}")
            for k, v in violation["witness"].items():
                print(f"    {k}: {v}")
        return 1
    if crashed or errors:
        for c in crashed:
            print(f"CHECK-ERROR property={pid}: {c if isinstance(c, str) else c['crash']}")
        for e in errors[:3]:
            print(f"CHECK-ERROR property={pid} {e['stream']}#{e['index']}: {e['error']}")
        return 2
    share = sum(executed.values()) / sum(counts.values())
    problems = [
        f"{name}={events.get(name, 0)} < {floor}"
        for name, floor in getattr(module, "FLOORS", {}).items()
        if events.get(name, 0) < floor * min(1.0, scale, scale * share)
    ]
    if cut and tier == "quick" and share < 0.05:
        problems.append("too few cases executed in time")
    if len(signatures) < 2:
        problems.append("no distinct behaviour was observed")
    if problems:
        print(f"INCONCLUSIVE property={pid}: {'; '.join(problems)}")
        return 2
    print(
        f"OK property={pid} tier={tier} seed={seed} cases={sum(executed.values())} "
        f"distinct={len(signatures)} decisions={events.get('oracle_decisions', 0)} wall={wall:.1f}s"
    )
    return 0


def _write_replay(pid, seed, tier, stream, index, violation):
    folder = os.path.join(HERE, "replay")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{pid}-{seed}-{stream}-{index}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": pid,
                "seed": seed,
                "tier": tier,
                "stream": stream,
                "index": index,
                "message": violation["message"],
                "witness": violation["witness"],
                "trace": violation.get("trace", []),
            },
            f,
            indent=1,
            default=str,
        )
    return path


def replay(pid, path):
    with open(path) as f:
        data = json.load(f)
    module = load(pid)
    fn = module.STREAMS[data["stream"]][0]
    result = _run_case(
        module, fn, pid, data["seed"], data["stream"], data["index"], data["tier"], Counter(), set()
    )
    if result is None:
        print("replay: property held on that case")
        return 0
    print(f"VIOLATION property={pid} replay={path}")
    print(f"  {result['message']}")
    for k, v in result["witness"].items():
        print(f"    {k}: {v}")
    for line in result["trace"]:
        print(f"    | {line}")
    return 1
