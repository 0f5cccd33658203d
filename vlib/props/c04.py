import copy

from vlib import evaluate, filters, gen, model
from vlib.core import Skip
from vlib.lib import Filter, Invalid, SCIMDataContainer, build_schema, issue_list, plain, same_data, typed

RULE = (
    "filters over the names of a generated or built-in schema, with literals drawn from the resource "
    "or close to it, evaluated strictly and leniently on resources with gaps, nulls and mistyped "
    "values; counted by shape of the filter and outcome"
)
ASSUMPTIONS = [
    "equality of booleans with numbers and 'ne' between values of different types are not judged",
    "an undefined sub-attribute of a complex attribute without data is accepted in lenient mode "
    "(pinned by the existing tests)",
]
CODE = {"PASSED": "P", "FAILED": "F", "FAILED_NO_ATTR": "F", "MISSING_DATA": "M"}


def literal_for(rng, attr, data, op):
    """A literal close to what the resource holds."""
    pool = []
    for item in data if isinstance(data, list) else [data]:
        if isinstance(item, dict):
            item = model.find(item, "value")
        pool.append(item)
    pool = [i for i in pool if isinstance(i, (str, int, float, bool)) or hasattr(i, "isoformat")]
    value = rng.choice(pool) if pool and rng.random() < 0.75 else gen.valid_scalar(
        rng, {"type": attr["type"] if attr["type"] in gen.SIMPLE_TYPES else "string"}, "parse")
    if hasattr(value, "isoformat"):
        value = value.isoformat()
    if isinstance(value, str):
        if attr["type"] == "datetime" and rng.random() < 0.4:
            value = gen.iso_variant(rng, gen.date_time(rng))
        elif rng.random() < 0.5:
            value = gen.recase_text(rng, value)
        if op in ("co", "sw", "ew") and value and rng.random() < 0.7:
            i, j = sorted((rng.randint(0, len(value)), rng.randint(0, len(value))))
            value = {"co": value[i:j], "sw": value[:j], "ew": value[i:]}[op]
        elif op in filters.ORDER_OPS and rng.random() < 0.3:
            value += rng.choice(["a", " ", "Z", "\u00e9"])
    elif isinstance(value, bool):
        pass
    elif op in filters.ORDER_OPS and rng.random() < 0.5:
        value = value + rng.choice([1, -1, 0.5])
    if op in filters.TEXT_OPS and not isinstance(value, str):
        value = str(value)
    if op in filters.ORDER_OPS and isinstance(value, bool):
        value = rng.choice([0, 1, "true"])
    if rng.random() < 0.05 and op in ("eq", "ne"):
        value = rng.choice([None, True, 1, "x"])
    return value


def leaf_for(rng, rep, attr, data):
    weights = ["eq"] * 4 + filters.OPS + ["pr"] * 2
    op = rng.choice(weights)
    if op == "pr":
        return ("pr", rep)
    value = literal_for(rng, attr, data, op)
    if isinstance(value, float) and value == int(value):
        value = int(value)
    return (op, rep, typed(value))


def clause(rng, spec, data):
    r = rng.random()
    if r < 0.06:
        return leaf_for(rng, ("", "zzz", ""), {"type": "string"}, None)
    if r < 0.09:
        return ("complex", ("", "zzz", ""), leaf_for(rng, ("", "value", ""), {"type": "string"}, None))
    attrs = model.all_attrs(spec)
    urn, attr = rng.choice(attrs)
    if rng.random() < 0.6:
        held = [(u, a) for u, a in attrs if model.has_value(
            model.find(data if u is None else model.find(data, u), a["name"]))]
        if held:
            urn, attr = rng.choice(held)
    schema = urn or (spec["schema"] if rng.random() < 0.2 else "")
    unqualified = [u for u, a in attrs if a["name"].lower() == attr["name"].lower()]
    if urn is not None and unqualified == [urn] and rng.random() < 0.3:
        schema = ""
    rep = (gen.recase_text(rng, schema), gen.recase_text(rng, attr["name"]), "")
    value = model.find(data if urn is None else model.find(data, urn), attr["name"])
    if attr["type"] != "complex" or rng.random() < 0.15:
        return leaf_for(rng, rep, attr, value)
    return ("complex", rep, inner(rng, attr, value, rng.choice([0, 0, 1, 1, 2])))


def inner(rng, attr, value, depth):
    r = rng.random()
    if depth and r < 0.6:
        return (rng.choice(["and", "or"]), tuple(inner(rng, attr, value, depth - 1) for _ in range(gen.few(rng, 2, 3, 8))))
    if depth and r < 0.75:
        return ("not", inner(rng, attr, value, depth - 1))
    if r < 0.8:
        return leaf_for(rng, ("", "zzz", ""), {"type": "string"}, None)
    sub = rng.choice(attr["sub"])
    items = value if isinstance(value, list) else [value]
    item = rng.choice(items) if items else None
    return leaf_for(rng, ("", gen.recase_text(rng, sub["name"]), ""), sub, model.find(item, sub["name"]))


def whole(rng, spec, data, depth):
    r = rng.random()
    if depth and r < 0.6:
        return (rng.choice(["and", "or"]), tuple(whole(rng, spec, data, depth - 1) for _ in range(gen.few(rng, 2, 3, 8))))
    if depth and r < 0.8:
        return ("not", whole(rng, spec, data, depth - 1))
    return clause(rng, spec, data)


def damage(rng, data):
    """Gaps, nulls, empty and mistyped values."""
    for _ in range(rng.choice([0, 0, 1, 2])):
        places = [p for p in gen.positions(data) if p]
        if not places:
            break
        place = rng.choice(places)
        r = rng.random()
        if r < 0.4:
            data = gen.delete_at(data, place)
        else:
            data = gen.replace_at(data, place, rng.choice([None, None, [], "", 5, "x", True, 2.5, {}, ["a"]]))
    return data


def shape(t):
    if t[0] in ("and", "or"):
        return (t[0], tuple(sorted(str(shape(x)) for x in t[1])))
    if t[0] == "not":
        return ("not", shape(t[1]))
    if t[0] == "complex":
        return ("complex", shape(t[2]))
    return t[0]


def judge(ctx, spec, schema, data, t, text):
    filter_, issues = ctx.call("Filter.parse", Filter.parse, text)
    ctx.expect(filter_ is not Invalid, "well-formed filter is rejected", text=text, issues=issue_list(issues))
    container = SCIMDataContainer(copy.deepcopy(data))
    for strict in (True, False):
        expected = evaluate.evaluate(t, data, evaluate.of_schema(spec), strict)
        result = ctx.call("Filter()", filter_, container, schema, strict)
        outcome = CODE[result.status.name]
        wanted = "F" if expected == "N" else expected
        ctx.same(outcome, wanted, "filter gives a wrong outcome", text=text, data=data, strict=strict)
        ctx.same(result == True, wanted == "P", "outcome does not compare to a truth value")  # noqa: E712
        ctx.same(result == False, wanted == "F", "outcome does not compare to a truth value")  # noqa: E712
        if wanted != "M":
            ctx.same(bool(result), wanted == "P", "outcome has a wrong truth value")
        if strict:
            default = ctx.call("Filter()", filter_, container, schema)
            ctx.same(CODE[default.status.name], wanted, "evaluation is not strict by default", text=text, data=data)
            if t[0] in ("and", "or", "not"):
                default = ctx.call("match", filter_.operator.match, container, schema.attrs)
                ctx.same(CODE[default.status.name], wanted, "an operator does not match strictly by default",
                         text=text, data=data)
                ctx.seen("default_of_" + t[0])
        ctx.seen(f"{'strict' if strict else 'lenient'}_{expected}")
        ctx.sig(shape(t), expected, strict)
    ctx.expect(same_data(plain(container), plain(SCIMDataContainer(data))), "evaluation modifies the resource",
               text=text)


def usable(spec):
    for _, attr in model.all_attrs(spec):
        if any(s["name"].lower() in ("and", "or", "not") for s in attr.get("sub", [])):
            return False
    return True


def generated(ctx, index):
    rng = ctx.rng
    spec = gen.random_spec(rng, n_attrs=gen.few(rng, 2, 5, 10)) if rng.random() < 0.8 else gen.some_spec(rng)
    schema = build_schema(spec)
    for _ in range(6):
        data = gen.resource(rng, spec, rng.choice(["parse", "parse", "dump"]), density=0.8)
        if rng.random() < 0.6:
            data = damage(rng, data)
        if rng.random() < 0.4:
            data = gen.recase(rng, data, 0.4)
        for _ in range(4):
            t = whole(rng, spec, data, rng.choice([0, 0, 0, 1, 1, 2]))
            try:
                text = filters.Writer(rng, False).write(t)
                ctx.sample((text, data))
                judge(ctx, spec, schema, data, t, text)
            except (filters.Unspecified, Skip):
                ctx.seen("not_judged")


STREAMS = {"evaluate": (generated, 1600, 25000)}
FLOORS = {"strict_P": 2000, "strict_F": 2000, "strict_M": 500, "strict_N": 100, "lenient_P": 2000}
