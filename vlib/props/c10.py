import copy

from vlib import gen, model
from vlib.lib import INVALID, Invalid, SCIMDataContainer, build_schema, issue_set, plain, same_data

RULE = (
    "resources of generated and built-in schemas, with other letter case and order, unknown attributes "
    "and values replaced at any position, parsed and dumped, compared with a reference; counted by "
    "schema, direction and set of reported issues"
)
ASSUMPTIONS = [
    "the main schema's URN is not used as a key of the data, and no two keys differ only in case",
    "values of the built-in documents' attribute characteristics come from a reviewed snapshot (builtin.json)",
]


def judge(ctx, spec, schema, data, mode, tag):
    given = copy.deepcopy(data)
    as_container = ctx.rng.random() < 0.3
    result, issues = ctx.call(mode, getattr(schema, mode), SCIMDataContainer(data) if as_container and isinstance(data, dict) else data)
    expected, expected_issues = model.process(spec, given, mode)
    found = issue_set(issues)
    ctx.same(found, expected_issues, "issues differ", mode=mode, schema=spec["schema"], data=given)
    ctx.sig(tag, mode, spec.get("builtin"), tuple(sorted((len(loc), code) for loc, code in found)),
            min(len(str(given)) // 60, 12))
    if expected is INVALID:
        ctx.expect(result is Invalid, "data that is not a resource gives something", data=given, result=result)
        ctx.seen("not_a_resource")
        return None
    out = plain(result)
    compare(ctx, spec, out, expected, expected_issues, given, mode)
    ctx.seen("with_issues" if found else "clean")
    return result if not found else None


def compare(ctx, spec, out, expected, issues, given, mode):
    ctx.same(set(out), set(expected), "attributes are lost or let through", mode=mode, data=given)
    urns = {e["schema"] for e in spec.get("extensions", [])}
    for name, value in expected.items():
        if name in urns:
            ctx.same(set(out[name]), set(value), "extension attributes are lost or let through", mode=mode, data=given)
            parts = [((name, k), out[name][k], v) for k, v in value.items()]
        else:
            parts = [((name,), out[name], value)]
        for location, actual, wanted in parts:
            below = [loc for loc, _ in issues if loc[: len(location)] == location]
            if not below:
                ctx.expect(same_data(actual, plain(wanted)), "value is changed", mode=mode, attribute=location,
                           actual=actual, wanted=wanted, data=given)
            elif location in below and wanted is INVALID:
                ctx.expect(actual == INVALID, "rejected value is kept", mode=mode, attribute=location, actual=actual)
            ctx.seen("values")


def process(ctx, index):
    rng = ctx.rng
    spec = gen.some_spec(rng)
    schema = build_schema(spec)
    place = {}  # the same object with other content
    for _ in range(4):
        mode = rng.choice(["parse", "dump"])
        data = gen.resource(rng, spec, mode, density=rng.choice([0.3, 0.7, 1.0]))
        tag = "valid"
        r = rng.random()
        if r < 0.5:
            tag = "corrupt"
            data = gen.corrupt(rng, data, rng.choice([1, 1, 2, 3]), value=lambda g: scalar(g, mode))
        if rng.random() < 0.4:
            tag += "+unknown"
            data = gen.add_unknown(rng, data)
            for urn in [e["schema"] for e in spec.get("extensions", [])]:
                if isinstance(data.get(urn), dict):
                    data[urn] = gen.add_unknown(rng, data[urn])
        if rng.random() < 0.6:
            tag += "+case"
            data = gen.recase(rng, gen.shuffled(rng, data))
        if duplicated(data):
            continue
        ctx.sample((spec["schema"], mode, data))
        if isinstance(data, dict) and rng.random() < 0.5:
            place.clear()
            place.update(data)
            data = place
        result = judge(ctx, spec, schema, data, mode, tag)
        if result is not None:
            round_trip(ctx, spec, schema, result, mode, data)


def round_trip(ctx, spec, schema, result, mode, data):
    first = plain(result)
    other = "dump" if mode == "parse" else "parse"
    if other == "dump" and model.find(first.get("meta"), "resourceType") not in (model.MISSING, spec["name"]):
        return
    back, issues = ctx.call(other, getattr(schema, other), result)
    ctx.same(issue_set(issues), set(), f"what was {mode}d can not be {other}d", data=data)
    again, issues = ctx.call(mode, getattr(schema, mode), plain(back))
    ctx.same(issue_set(issues), set(), "round trip fails", data=data)
    ctx.expect(same_data(plain(again), first), "round trip changes the resource", first=first, again=plain(again))
    ctx.seen("round_trips")


def scalar(rng, mode):
    if rng.random() < 0.1:
        return gen.date_time(rng)
    if rng.random() < 0.15:
        return rng.choice(gen.URLS + ["YQ==", "2020-01-01T00:00:00", 1, 1.0, "work"])
    return gen.json_value(rng, 2)


def duplicated(data):
    if isinstance(data, dict):
        keys = [k.lower() for k in data]
        return len(set(keys)) != len(keys) or any(duplicated(v) for v in data.values())
    if isinstance(data, list):
        return any(duplicated(v) for v in data)
    return False


def not_resources(ctx, index):
    rng = ctx.rng
    spec = gen.some_spec(rng)
    schema = build_schema(spec)
    for value in [None, [], "", "x", 0, 1, True, 2.5, [{}], {}]:
        judge(ctx, spec, schema, value, rng.choice(["parse", "dump"]), "root")


def every_position(ctx, index):
    """Each defined attribute and sub-attribute gets a bad value, one at a time."""
    rng = ctx.rng
    spec = gen.some_spec(rng)
    schema = build_schema(spec)
    mode = rng.choice(["parse", "dump"])
    data = gen.resource(rng, spec, mode, density=1.0)
    places = [p for p in gen.positions(data) if p]
    rng.shuffle(places)
    for place in places[:12]:
        bad = gen.replace_at(data, place, rng.choice([None, {}, [], "x", 5, True, [1], {"value": {}}, "", 0.5]))
        judge(ctx, spec, schema, bad, mode, "position")
        ctx.seen("positions")
    for place in places[:5]:
        if not isinstance(place[-1], int):
            judge(ctx, spec, schema, gen.delete_at(data, place), mode, "gap")


STREAMS = {
    "process": (process, 2200, 30000),
    "not_resources": (not_resources, 200, 1000),
    "every_position": (every_position, 800, 10000),
}
FLOORS = {"clean": 1500, "with_issues": 2000, "round_trips": 1000, "positions": 3000, "values": 20000}
