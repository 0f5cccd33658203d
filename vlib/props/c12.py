import copy

from vlib import gen, model
from vlib.lib import SCIMDataContainer, build_attr, build_schema, issue_set, plain, same_data

RULE = (
    "values inside, near and outside the canonical values of attributes, sub-attributes and items; lists "
    "of items with any number of primary marks; identifiers around the reserved keyword; counted by "
    "kind of attribute, rule and verdict"
)
ASSUMPTIONS = [
    "the single-primary rule is judged on items without other issues",
]
POOL = ["Work", "home", "OTHER", "x y", "é", "ß", "İ", "a", "A1", "work2", "1"]


def wrapped(value):
    """Complex attributes take items as containers."""
    if isinstance(value, list):
        return [wrapped(item) for item in value]
    return SCIMDataContainer(copy.deepcopy(value)) if isinstance(value, dict) else value


def canonical_attr(rng, name):
    kind = rng.choice(["string", "string", "string", "integer", "uriref", "decimal"])
    attr = {"name": name, "type": kind, "multi": rng.random() < 0.4, "caseExact": rng.random() < 0.5,
            "enforce": rng.random() < 0.75}
    if kind == "integer":
        attr["canonical"] = rng.sample([0, 1, 2, 7, -5, 10**20], rng.randint(1, 3))
    elif kind == "decimal":
        attr["canonical"] = rng.sample([0.5, 1.5, 2.0, -3.25], rng.randint(1, 3))
    else:
        pool = [p for p in POOL if p.lower().upper().lower() == p.lower() and len(p.lower()) == len(p)]
        attr["canonical"] = rng.sample(pool, rng.randint(1, 4))
    return attr


def near(rng, attr):
    value = rng.choice(attr["canonical"])
    if isinstance(value, str):
        return rng.choice([
            value, value, value.upper(), value.lower(), value.swapcase(), value.title(), value + "x", value[:-1],
            " " + value, value + " ", "", "nope", rng.choice(POOL), value + value,
        ])
    return rng.choice([value, value, value + 1, -value, value * 2, float(value), 3, 1.5, str(value)])


def value_for(rng, attr):
    if attr.get("multi"):
        return [near(rng, attr) for _ in range(gen.few(rng, 0, 4))]
    return near(rng, attr)


def canonical(ctx, index):
    rng = ctx.rng
    for _ in range(4):
        mode = rng.choice(["parse", "dump"])
        form = rng.choice(["top", "sub", "multi_sub"])
        attr = canonical_attr(rng, "kind")
        if form == "top":
            spec, value = attr, value_for(rng, attr)
        else:
            other = canonical_attr(rng, "other")
            spec = {"name": "c", "type": "complex", "multi": form == "multi_sub", "sub": [attr, other]}
            items = [
                {k: v for k, v in {"kind": value_for(rng, attr), "other": value_for(rng, other)}.items()
                 if rng.random() < 0.8}
                for _ in range(gen.few(rng, 1, 3))
            ]
            value = items if form == "multi_sub" else items[0]
        target = build_attr(spec)
        given = copy.deepcopy(value)
        result, issues = ctx.call(mode, getattr(target, mode), wrapped(value))
        expected, expected_issues = model.process_attr(spec, given, mode)
        ctx.same(issue_set(issues), expected_issues, "canonical values are enforced wrongly", attribute=spec,
                 value=given, mode=mode)
        if not expected_issues:
            ctx.expect(same_data(plain(result), expected), "canonical value is changed", attribute=spec, value=given,
                       result=plain(result))
        elif form == "top":
            ctx.expect(same_data(plain(result), plain(expected)), "non-canonical value is kept", attribute=spec,
                       value=given, result=plain(result))
        rejected = any(code == 14 for _, code in expected_issues)
        ctx.seen("outside" if rejected else "inside")
        if not attr["enforce"]:
            ctx.seen("not_enforced")
        ctx.sample((spec, value))
        ctx.sig("canonical", form, mode, attr["type"], attr["caseExact"], attr["enforce"],
                tuple(sorted((len(loc), code) for loc, code in expected_issues)))


def in_schema(ctx, index):
    """The same rules hold once the attribute is part of a schema or of an extension."""
    rng = ctx.rng
    attr = canonical_attr(rng, "kind")
    complex_ = {"name": "c", "type": "complex", "multi": rng.random() < 0.7,
                "sub": [canonical_attr(rng, "kind"), {"name": "primary", "type": "boolean"}]}
    urn = "urn:x:y:ext"
    spec = {"schema": "urn:x:y", "name": "Thing", "attrs": [attr, complex_],
            "extensions": [{"schema": urn, "attrs": [canonical_attr(rng, "kind"), dict(complex_, name="d")]}]}
    schema = build_schema(spec)
    for _ in range(4):
        mode = rng.choice(["parse", "dump"])

        def complex_value():
            items = [{"kind": value_for(rng, complex_["sub"][0]), "primary": rng.random() < 0.4}
                     for _ in range(gen.few(rng, 1, 3))]
            return items if complex_["multi"] else items[0]

        data = {
            "kind": value_for(rng, attr), "c": complex_value(),
            urn: {"kind": value_for(rng, spec["extensions"][0]["attrs"][0]), "d": complex_value()},
            "id": rng.choice(["1", "bulkId", "xbulkIdy", "bulkid", "BULKID", "bulkI", "bulk Id"]),
            "schemas": ["urn:x:y", urn],
        }
        _, issues = ctx.call(mode, getattr(schema, mode), data)
        _, expected = model.process(spec, data, mode)
        ctx.same(issue_set(issues), expected, "rules are enforced wrongly in a schema", data=data, mode=mode)
        ctx.seen("in_schema")
        ctx.sig("schema", mode, tuple(sorted((len(loc), code) for loc, code in expected)))


def primary(ctx, index):
    rng = ctx.rng
    for _ in range(4):
        mode = rng.choice(["parse", "dump"])
        multi = rng.random() < 0.85
        spec = {"name": "c", "type": "complex", "multi": multi, "sub": [
            {"name": "value", "type": "string"},
            {"name": rng.choice(["primary", "primary", "Primary"]), "type": "boolean"},
            {"name": "type", "type": "string"},
        ]}
        marks = [rng.choice([True, True, False, False, None, "absent"]) for _ in range(gen.few(rng, 0, 5))]
        items = []
        for mark in marks:
            item = {"value": gen.word(rng)}
            if rng.random() < 0.5:
                item = {"value": "same", "type": "work"}
            if mark != "absent":
                item[gen.recase_text(rng, "primary")] = mark
            items.append(item)
        if not multi:
            items = items[0] if items else {}
        if rng.random() < 0.1 and items and multi:
            items[rng.randrange(len(items))]["value"] = rng.choice([5, None, [], "x"])
        target = build_attr(spec)
        result, issues = ctx.call(mode, getattr(target, mode), wrapped(items))
        expected, expected_issues = model.process_attr(spec, items, mode)
        ctx.same(issue_set(issues), expected_issues, "primary marks are judged wrongly", items=items, mode=mode)
        if not expected_issues:
            ctx.expect(same_data(plain(result), expected), "items are changed", items=items, result=plain(result))
        n = sum(m is True for m in marks)
        ctx.seen("primary_many" if n > 1 else "primary_one" if n else "primary_none")
        ctx.sig("primary", mode, multi, n, len(marks), bool(expected_issues))


def builtin(ctx, index):
    """Built-in schemas: multi-valued complex attributes, canonical values and identifiers."""
    rng = ctx.rng
    spec = model.BUILTIN[rng.choice(["User", "User", "User", "Group", "ServiceProviderConfig", "ResourceType"])]
    schema = build_schema(spec)
    mode = rng.choice(["parse", "dump"])
    data = gen.resource(rng, spec, mode, density=0.5)
    data["id"] = rng.choice(["1", "bulkId", "xbulkIdy", "bulkid", "BULKID", "bulk Id", "bulkId:1", "\u00e9bulkId"])
    for urn, attr in model.all_attrs(spec):
        if attr["type"] == "complex" and attr.get("multi") and rng.random() < 0.5:
            items = [gen.valid_single(rng, attr, mode) for _ in range(gen.few(rng, 1, 4))]
            if any(s["name"] == "primary" for s in attr["sub"]):
                for item in items:
                    item["primary"] = rng.random() < 0.4
            for sub in attr["sub"]:
                if sub.get("canonical"):
                    for item in items:
                        if rng.random() < 0.5:
                            item[sub["name"]] = near(rng, sub)
            (data if urn is None else data.setdefault(urn, {}))[attr["name"]] = items
        elif attr.get("canonical") and rng.random() < 0.5:
            (data if urn is None else data.setdefault(urn, {}))[attr["name"]] = value_for(rng, attr)
    data["schemas"] = [spec["schema"]] + [e["schema"] for e in spec.get("extensions", [])]
    _, issues = ctx.call(mode, getattr(schema, mode), data)
    _, expected = model.process(spec, data, mode)
    ctx.same(issue_set(issues), expected, "rules are enforced wrongly in a built-in schema", data=data, mode=mode)
    for _, code in expected:
        ctx.seen(f"code_{code}")
    ctx.seen("builtin")
    ctx.sig("builtin", spec["name"], mode, tuple(sorted((len(loc), code) for loc, code in expected)))


STREAMS = {
    "canonical": (canonical, 6000, 60000),
    "primary": (primary, 4000, 40000),
    "in_schema": (in_schema, 1500, 15000),
    "builtin": (builtin, 2500, 25000),
}
FLOORS = {"outside": 3000, "inside": 3000, "not_enforced": 1000, "primary_many": 2000, "primary_one": 1000,
          "code_7": 300, "code_9": 300}
