import json
import time

from vlib import drive, filters, gen, model
from vlib.lib import (
    TYPES,
    AttrRep,
    AttributePresenceChecker,
    Filter,
    Invalid,
    PatchPath,
    SCIMDataContainer,
    Sorter,
    ValidationIssues,
    build_schema,
    plain,
    rv,
)

RULE = (
    "calls of every request parser, response dumper, schema, attribute type and text parser, and evaluation of filters, "
    "sorters and presence checks, on arguments from well-formed to hostile; counted by entry point, hostility and set of "
    "reported issues"
)
ASSUMPTIONS = [
    "JSON nests at most 60 levels and filters at most 30 groups below the interpreter's recursion limit",
    "sorting resources directly, with text and numbers under one name, may raise a type error (pinned by the existing tests)",
    "a call that takes more than 20 s of CPU time counts as giving no result",
]


def report(ctx, label, issues):
    """The report itself must be usable."""
    ctx.expect(isinstance(issues, ValidationIssues), "no issue report", call=label, issues=issues)
    out = ctx.call("report", issues.to_dict)
    full = ctx.call("report", issues.to_dict, msg=True, ctx=True)
    ctx.same(bool(out), issues.has_issues(), "report contradicts itself", call=label)
    ctx.call("json", json.dumps, full, default=str)
    codes = []

    def collect(node):
        for key, value in node.items():
            if key == "_errors" and isinstance(value, list):
                codes.extend(e["code"] for e in value)
            elif isinstance(value, dict):
                collect(value)

    collect(out)
    return tuple(sorted(set(codes)))


def calls(ctx, index):
    rng = ctx.rng
    specs, schemas, targets = drive.world(rng)
    for _ in range(30):
        target = rng.choice(targets)
        level = rng.choice([0, 1, 1, 2, 2, 2, 2])
        kwargs = target.make(rng, level)
        ctx.sample((target.label, kwargs))
        outcome = ctx.call(target.label, target.call, **kwargs)
        ctx.expect(isinstance(outcome, tuple) and len(outcome) == 2, "no result and report", call=target.label)
        result, issues = outcome
        codes = report(ctx, target.label, issues)
        if target.kind == "request":
            ctx.expect(isinstance(result, rv.RequestData), "no request data", call=target.label, result=result)
        elif target.kind == "response":
            ctx.expect(isinstance(result, rv.ResponseData), "no response data", call=target.label, result=result)
            if isinstance(result.body, SCIMDataContainer):
                ctx.call("to_dict", result.body.to_dict)
        elif target.kind in ("data", "message"):
            ctx.expect(result is Invalid or isinstance(result, SCIMDataContainer), "no data", call=target.label, result=result)
            ctx.call("to_dict", plain, result)
        ctx.seen("level_%d_%s" % (level, "reported" if codes else "clean"))
        ctx.sig(target.label, level, codes)


def texts(ctx, index):
    rng = ctx.rng
    for _ in range(60):
        text = drive.soup(rng) if rng.random() < 0.7 else filters.mutate(rng, drive.a_filter_text(rng, 1))
        entry, call = rng.choice([
            ("Filter.parse", Filter.parse), ("PatchPath.parse", PatchPath.parse), ("Sorter.parse", Sorter.parse),
            ("Presence.parse", lambda t: AttributePresenceChecker.parse([t, t[::-1]], True)),
            ("AttrRep.parse", lambda t: (AttrRep.parse(t), ValidationIssues())),
        ])
        ctx.sample((entry, text))
        result, issues = ctx.call(entry, call, text)
        codes = report(ctx, entry, issues)
        ctx.seen("text_refused" if result is Invalid else "text_parsed")
        ctx.sig(entry, codes, result is Invalid, len(text) // 8)


def values(ctx, index):
    """One attribute type or declared attribute against single hostile values."""
    rng = ctx.rng
    spec = gen.some_spec(rng)
    schema = build_schema(spec)
    attrs = [a for _, a in [(None, a) for a in schema.attrs]]
    for _ in range(30):
        value = drive.hostile(rng)
        if rng.random() < 0.4:
            type_ = rng.choice(list(TYPES))
            result, issues = ctx.call("type " + type_, rng.choice([TYPES[type_].parse, TYPES[type_].dump]), value)
        else:
            attr = rng.choice(attrs)
            type_ = "attribute"
            result, issues = ctx.call("attribute", rng.choice([attr.parse, attr.dump]), value)
        codes = report(ctx, type_, issues)
        ctx.seen("value_refused" if codes else "value_accepted")
        ctx.sig("value", type_, type(value).__name__, codes)


def uses(ctx, index):
    """Filters, sorters and presence checks used on data that no schema has approved."""
    rng = ctx.rng
    specs = [gen.some_spec(rng) for _ in range(rng.choice([1, 2]))]
    schemas = [build_schema(s) for s in specs]
    for _ in range(8):
        data, used = [], []
        for _ in range(rng.randint(1, 4)):
            i = rng.randrange(len(specs))
            raw = drive.spoil(rng, gen.resource(rng, specs[i], rng.choice(["dump", "parse"])))
            try:
                data.append(SCIMDataContainer(raw if isinstance(raw, dict) else {}))
            except Exception:  # not a resource at all: can not be built
                continue
            used.append(schemas[i])
        if not data:
            continue
        i = rng.randrange(len(specs))
        filter_ = drive.some_filter(rng, specs[i])
        if filter_:
            for strict in (True, False):
                for resource, schema in zip(data, used):
                    result = ctx.call("Filter()", filter_, resource, schema, strict)
                    ctx.sig("filter", strict, result.status.name, ctx.call("ast", plain, filter_)[1][0])
                    ctx.seen("filter_" + result.status.name)
        sorter = drive.some_sorter(rng, specs[i])
        fine = [SCIMDataContainer(gen.resource(rng, specs[i], "dump", density=0.7)) for _ in range(rng.randint(1, 4))]
        ordered = ctx.call("Sorter()", sorter, fine, schemas[i])
        ctx.same(len(ordered), len(fine), "sorting loses resources")
        try:
            sorter(data, used)
            ctx.seen("sorted_hostile")
        except TypeError:  # values of different types have no order
            ctx.seen("no_order")
        checker = drive.some_checker(rng, specs[i]) if rng.random() < 0.7 else AttributePresenceChecker()
        if checker is not Invalid:
            for resource, schema in zip(data, used):
                issues = ctx.call("Presence()", checker, resource, schema.attrs, rng.choice(["REQUEST", "RESPONSE"]))
                ctx.sig("presence", report(ctx, "presence", issues))
                ctx.seen("presence")
        path, _ = PatchPath.parse(drive.c16.a_path(rng, specs[i])[0])
        if path is not Invalid:
            ctx.call("get_by_path", schemas[i].attrs.get_by_path, path)


def nest(rng, n, leaf):
    for _ in range(n):
        leaf = [leaf] if rng.random() < 0.5 else {rng.choice(["a", "name", "value", "emails"]): leaf}
    return leaf


def sizes(ctx, index):
    """Deeply nested, long and repetitive input; time is watched."""
    rng = ctx.rng
    spec = model.BUILTIN["User"] if rng.random() < 0.5 else gen.some_spec(rng)
    schema = build_schema(spec)
    n = rng.choice([5, 10, 20, 30])
    kind = index % 8
    long = rng.choice([300, 1000, 3000])
    started = time.process_time()
    if kind == 0:
        text = "(" * n + "userName pr" + ")" * rng.choice([n, n, n - 1, n + 1])
        _, issues = ctx.call("Filter.parse", Filter.parse, text)
    elif kind == 1:
        op = rng.choice([" and ", " or ", " and not ", " or not (", " and ("])
        text = op.join(["a eq 1"] * n)
        _, issues = ctx.call("Filter.parse", Filter.parse, text + ")" * (n - 1 if op.endswith("(") else 0))
    elif kind == 2:
        text = rng.choice(['"', "'", "(", ")", "[", "]", " ", "a", ".", ":", "not ", "\\", '\\"', "|&PLACE_HOLDER_1&|", "and ",
                           "a eq ", '"x" ', "a[", "urn:", "-", "a.b ", "\n", "1", "é"]) * long
        entry = rng.choice([Filter.parse, PatchPath.parse, Sorter.parse])
        _, issues = ctx.call("long text", entry, text)
    elif kind == 3:
        text = 'userName eq "' + rng.choice(["a", " and ", '\\"', "(", "]", "'", "\\"]) * long + '"'
        _, issues = ctx.call("Filter.parse", Filter.parse, text)
    elif kind == 4:
        attr = rng.choice(model.all_attrs(spec))
        value = nest(rng, 2 * n, 1)
        data = {"schemas": [spec["schema"]], attr[1]["name"]: value}
        _, issues = ctx.call("deep data", rng.choice([schema.parse, schema.dump]), data)
    elif kind == 5:
        data = gen.resource(rng, spec, "parse")
        for key in list(data):
            if isinstance(data[key], list) and data[key]:
                data[key] = data[key] * (long // 3)
        _, issues = ctx.call("long data", rng.choice([schema.parse, schema.dump]), data)
    elif kind == 6:
        data = {f"k{i}": i for i in range(long)}
        _, issues = ctx.call("wide data", rng.choice([schema.parse, schema.dump]), data)
    else:
        value = rng.choice(["a", "A", "=", "1", "0" * 7 + "-", "é", "/", ":", " "]) * (long * 10)
        type_ = rng.choice(list(TYPES))
        _, issues = ctx.call("long value", TYPES[type_].parse, value)
    codes = report(ctx, "sizes", issues)
    ctx.seen("sizes_%d" % kind)
    ctx.seen("milliseconds", int(1000 * (time.process_time() - started)))
    ctx.sig("sizes", kind, n, codes)


STREAMS = {"calls": (calls, 1000, 18000), "texts": (texts, 1500, 20000), "values": (values, 1000, 12000),
           "uses": (uses, 600, 8000), "sizes": (sizes, 320, 3200)}
FLOORS = {"level_2_reported": 2000, "level_2_clean": 500, "level_0_clean": 500, "text_refused": 3000, "text_parsed": 1000,
          "value_refused": 2000, "value_accepted": 1000, "filter_PASSED": 100, "filter_FAILED": 100, "presence": 500,
          "sizes_0": 10, "sizes_7": 10}
