from collections import Counter

from vlib import gen
from vlib.lib import ValidationError, ValidationIssues

RULE = (
    "random histories of add/merge/get/pop over a pool of issue reports; a history is counted by "
    "its operation kinds and the final blocking state; every step re-checks every report"
)
ASSUMPTIONS = ["locations are tuples of attribute names and item positions"]
PARTS = ["a", "b", "Operations", 0, 1, "urn:x:y", 10, 11, "ab", "A", "0", "a.b", "urn:x:y:z"]
MAKERS = [
    lambda uid: ValidationError.bad_url(uid),  # 8
    lambda uid: ValidationError.must_be_equal_to(uid),  # 11
    lambda uid: ValidationError.bad_status_code(200, uid),  # 16
    lambda uid: ValidationError.missing_required_header(uid),  # 10
]


class Model:
    def __init__(self):
        self.issues = []  # (location, code, uid)
        self.blocking = set()  # (location, code)

    def copy_under(self, location):
        out = Model()
        n = len(location)
        out.issues = [(l[n:], c, u) for l, c, u in self.issues if l[:n] == location]
        out.blocking = {(l[n:], c) for l, c in self.blocking if l[:n] == location}
        return out

    def merge(self, other, location):
        self.issues += [(location + l, c, u) for l, c, u in other.issues]
        self.blocking |= {(location + l, c) for l, c in other.blocking}

    def pop(self, location, code):
        out = Model()
        out.issues = [((), c, u) for l, c, u in self.issues if l == location and c == code]
        if (location, code) in self.blocking:
            out.blocking = {((), code)}
        self.issues = [x for x in self.issues if not (x[0] == location and x[1] == code)]
        self.blocking.discard((location, code))
        return out

    def can_proceed(self, location):
        return not any(location[: len(l)] == l for l, _ in self.blocking)

    def has_issues(self, location):
        return any(l[: len(location)] == location for l, _, _ in self.issues)


def random_location(rng, maximum=4):
    parts = PARTS if rng.random() < 0.4 else PARTS[:6]
    return tuple(rng.choice(parts) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, maximum])))


def neighbour(location):
    """A location that looks like the given one."""
    last = location[-1]
    if isinstance(last, int):
        return [location[:-1] + (x,) for x in (int(str(last)[:1]), last + 1, str(last), last * 10)]
    return [location[:-1] + (x,) for x in (last[:-1], last + "b", last.swapcase())] + [tuple(".".join(map(str, location)).split("."))]


def as_given(rng, location):
    return list(location) if rng.random() < 0.2 else location


def uid_of(context):
    values = [v for v in context.values() if isinstance(v, str) and v.startswith("u")]
    return values[0] if values else None


def exported(tree):
    found = []

    def walk(node, location):
        for key, value in node.items():
            if key == "_errors":
                for item in value:
                    uid = uid_of(item["context"])
                    found.append((location, item["code"], uid))
                    if uid is not None and uid not in item["error"]:
                        found.append((location, "message does not belong to the issue", uid))
            else:
                walk(value, location + (key,))

    walk(tree, ())
    return Counter(found)


def observe(ctx, issues, model, extra, step):
    tree = ctx.call("to_dict", issues.to_dict, msg=True, ctx=True)
    expected = Counter((tuple(str(p) for p in l), c, u) for l, c, u in model.issues)
    actual = exported(tree)
    ctx.expect(
        actual == expected,
        "report does not hold exactly the recorded issues",
        step=step,
        lost=expected - actual,
        invented=actual - expected,
    )
    codes = exported_codes(ctx.call("to_dict", issues.to_dict))
    ctx.expect(
        codes == Counter((l, c) for l, c, _ in expected.elements()),
        "export without messages differs",
        step=step,
    )
    known = {l for l, _, _ in model.issues} | set(extra)
    for location in list(known):
        known.add(location + ("zz",))
        known.add(location[:-1])
        if location:
            known.update(neighbour(location))
    for location in known:
        ctx.expect(
            issues.can_proceed(location) is model.can_proceed(location),
            "wrong decision whether a location may proceed",
            step=step, location=location, expected=model.can_proceed(location),
            blocking=model.blocking,
        )
        ctx.expect(
            issues.has_issues(location) is model.has_issues(location),
            "wrong decision whether a location has issues",
            step=step, location=location, expected=model.has_issues(location),
        )
    ctx.same(issues.has_issues(), bool(model.issues), "has_issues() is wrong", step=step)
    ctx.same(issues.can_proceed(), model.can_proceed(()), "can_proceed() is wrong", step=step)
    pair = [ctx.rng.choice(sorted(known, key=repr)) for _ in range(2)] if known else []
    if pair:
        ctx.same(
            issues.can_proceed(*pair),
            all(model.can_proceed(l) for l in pair),
            "can_proceed of several locations is wrong", step=step, locations=pair,
        )
        ctx.same(
            issues.has_issues(*pair),
            any(model.has_issues(l) for l in pair),
            "has_issues of several locations is wrong", step=step, locations=pair,
        )


def exported_codes(tree):
    found = []

    def walk(node, location):
        for key, value in node.items():
            if key == "_errors":
                found.extend((location, item["code"]) for item in value)
            else:
                walk(value, location + (key,))

    walk(tree, ())
    return Counter(found)


def history(ctx, index):
    rng = ctx.rng
    pool = [(ValidationIssues(), Model()) for _ in range(rng.randint(1, 3))]
    kinds = []
    counter = 0
    for step in range(gen.few(rng, 3, 14, 60)):
        kind = rng.choices(["add", "merge", "get", "pop", "pop_hit"], [5, 3, 2, 1, 2])[0]
        target = rng.randrange(len(pool))
        issues, model = pool[target]
        location = random_location(rng)
        if kind == "add":
            counter += 1
            uid = f"u{counter}"
            issue = rng.choice(MAKERS)(uid)
            proceed = rng.random() < 0.5
            if location or rng.random() < 0.5:
                ctx.call("add", issues.add, issue, proceed, as_given(rng, location))
            else:
                ctx.call("add", issues.add, issue=issue, proceed=proceed)
            model.issues.append((location, issue.code, uid))
            if not proceed:
                model.blocking.add((location, issue.code))
            ctx.log.append(f"{step}: #{target}.add({issue.code}, {proceed}, {location}) {uid}")
        elif kind == "merge":
            source = rng.randrange(len(pool))
            if source == target:
                other, other_model = ValidationIssues(), Model()
                pool.append((other, other_model))
                source = len(pool) - 1
            other, other_model = pool[source]
            if location or rng.random() < 0.5:
                ctx.call("merge", issues.merge, other, location)
            else:
                ctx.call("merge", issues.merge, issues=other)
            model.merge(other_model, location)
            ctx.log.append(f"{step}: #{target}.merge(#{source}, {location})")
        elif kind == "get":
            if model.issues and rng.random() < 0.7:
                location = rng.choice(model.issues)[0]
                location = location[: rng.randint(0, len(location))]
            got = ctx.call("get", issues.get, as_given(rng, location))
            pool.append((got, model.copy_under(location)))
            ctx.log.append(f"{step}: #{len(pool) - 1} = #{target}.get({location})")
        else:
            code = rng.choice([8, 10, 11, 16])
            if kind == "pop_hit" and model.issues:
                location, code, _ = rng.choice(model.issues)
            got = ctx.call("pop", issues.pop, as_given(rng, location), code)
            pool.append((got, model.pop(location, code)))
            ctx.log.append(f"{step}: #{len(pool) - 1} = #{target}.pop({location}, {code})")
        kinds.append(kind)
        if len(pool) > 6:
            pool.pop(0)
        for i, (a, b) in enumerate(pool):
            observe(ctx, a, b, [location], f"{step} report #{i}")
        ctx.seen("op:" + kind)
    if sum(len(m.issues) for _, m in pool) > 1:
        blocked = sum(len(m.blocking) for _, m in pool)
        ctx.sig(tuple(kinds), blocked, sum(len(m.issues) for _, m in pool))


STREAMS = {"history": (history, 12000, 250000)}
FLOORS = {"op:merge": 2000, "op:get": 1000, "op:pop_hit": 1000, "oracle_decisions": 100000}
