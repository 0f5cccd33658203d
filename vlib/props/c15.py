import copy

from vlib import gen, model, single
from vlib.lib import SCIMDataContainer, build_schema, issue_set, make_config, plain, rv, same_data
from vlib.props.c10 import duplicated

RULE = (
    "bodies of create and replace requests for generated and built-in schemas: valid ones, ones with missing, "
    "null, mistyped, unknown and oddly-cased attributes at any position, read-only attributes at every level; "
    "counted by method, schema and set of reported issues"
)
ASSUMPTIONS = [
    "no two keys of one object differ only in letter case, and the main schema's URN is not used as a key",
    "an empty complex value or namespace left after removing read-only parts means the same as none",
]


def judge(ctx, method, spec, validator, body, tag, **extra):
    given = copy.deepcopy(body)
    request, issues = ctx.call(method, validator.parse_request, body=body, **extra)
    expected, expected_issues = (single.create if method == "POST" else single.replace)(spec, given)
    found = issue_set(issues)
    ctx.same(found, expected_issues, "issues differ", method=method, schema=spec["schema"], body=given)
    ctx.expect((request.body is None) == (expected is None), "body is delivered exactly when it is fine",
               method=method, body=given, delivered=request.body)
    ctx.sig(tag, method, spec.get("builtin"), tuple(sorted((len(loc), code) for loc, code in found))[:10],
            min(len(str(given)) // 80, 10))
    ctx.seen("refused" if found else "delivered")
    ctx.sample((method, spec["schema"], given))
    if expected is None:
        return
    out = plain(request.body)
    if method == "POST":
        ctx.expect(same_data(out, expected), "created data differs", body=given, delivered=out, expected=expected)
        return
    ctx.expect(same_data(single.pruned(out), single.pruned(expected)), "replaced data differs", body=given,
               delivered=out, expected=expected)
    if not same_data(model.process(spec, given, "parse")[0], expected):
        ctx.seen("stripped")


def body_for(rng, spec):
    body = gen.resource(rng, spec, "parse", density=rng.choice([0.2, 0.6, 1.0]), required_all=rng.random() < 0.85)
    r = rng.random()
    tag = "valid"
    if r < 0.3:
        tag = "corrupt"
        body = gen.corrupt(rng, body, rng.choice([1, 1, 2, 3]))
    elif r < 0.4:
        tag = "removed"
        for _ in range(rng.randint(1, 3)):
            places = [p for p in gen.positions(body) if p]
            if places:
                body = gen.delete_at(body, rng.choice(places))
    elif r < 0.45:
        tag = "null"
        body = gen.corrupt(rng, body, 2, value=lambda g: g.choice([None, "", [], {}]))
    if isinstance(body, dict) and rng.random() < 0.3:
        tag += "+unknown"
        body = gen.add_unknown(rng, body)
    if rng.random() < 0.4:
        tag += "+case"
        body = gen.recase(rng, gen.shuffled(rng, body))
    if rng.random() < 0.02:
        tag, body = "not_object", gen.json_value(rng, 1)
    return tag, body


def requests(ctx, index):
    rng = ctx.rng
    spec = gen.some_spec(rng)
    schema = build_schema(spec)
    method = rng.choice(["POST", "PUT", "PUT"])
    cls = rv.ResourcesPOST if method == "POST" else rv.ResourceObjectPUT
    validator = cls(make_config(), resource_schema=schema)
    for _ in range(4):
        tag, body = body_for(rng, spec)
        if duplicated(body):
            continue
        headers = rng.choice([None, {"X": "1"}])
        query = rng.choice([None, {"attributes": "id"}, {"excludeAttributes": "id,meta.version"}, {}])
        judge(ctx, method, spec, validator, body, tag, headers=headers, query_string=query)


def read_only(ctx, index):
    """Attributes with every mutability at every level."""
    rng = ctx.rng
    kinds = ["readOnly", "readWrite", "immutable", "writeOnly"]

    def attribute(name):
        shape = rng.choice(["simple", "multi", "complex", "complex_multi"])
        attr = {"name": name, "type": "string", "multi": shape.endswith("multi"), "mutability": rng.choice(kinds),
                "required": rng.random() < 0.2, "issuer": rng.choice(["none", "server", "client"])}
        if shape.startswith("complex"):
            attr["type"] = "complex"
            attr["sub"] = [
                {"name": sub, "type": rng.choice(["string", "integer", "boolean"]), "mutability": rng.choice(kinds),
                 "required": rng.random() < 0.2, "issuer": rng.choice(["none", "server"]),
                 "multi": rng.random() < 0.2}
                for sub in rng.sample(["value", "note", "$ref", "display", "Rank"], rng.randint(1, 4))
            ]
        return attr

    names = ["alpha", "Beta", "gamma"]
    spec = {"schema": "urn:x:y", "name": "Thing", "attrs": [attribute(n) for n in names],
            "extensions": [{"schema": urn, "attrs": [attribute(n) for n in rng.sample(names, 2)]}
                           for urn in rng.sample(["urn:x:y:ext", "urn:a:B:c"], rng.randint(0, 2))]}
    schema = build_schema(spec)
    for method, cls in (("PUT", rv.ResourceObjectPUT), ("POST", rv.ResourcesPOST)):
        validator = cls(make_config(), resource_schema=schema)
        for _ in range(3):
            body = gen.resource(rng, spec, "parse", density=rng.choice([0.5, 0.9]), required_all=rng.random() < 0.9)
            if rng.random() < 0.2:
                body = gen.corrupt(rng, body, 1, value=lambda g: g.choice([None, "", [], {}, 0]))
            if rng.random() < 0.5:
                body = gen.recase(rng, body)
            if rng.random() < 0.2:
                body_in = SCIMDataContainer(body)
                request, _ = ctx.call(method, validator.parse_request, body=body_in)
                expected, _ = (single.create if method == "POST" else single.replace)(spec, body)
                ctx.expect((request.body is None) == (expected is None), "body is delivered exactly when it is fine",
                           method=method, body=body)
            judge(ctx, method, spec, validator, body, "mutability")
            ctx.seen("mutability_" + method)


STREAMS = {
    "requests": (requests, 1600, 30000),
    "read_only": (read_only, 1000, 20000),
}
FLOORS = {"delivered": 3000, "refused": 1500, "stripped": 500, "mutability_PUT": 1000}
