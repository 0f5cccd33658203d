from vlib import gen, model
from vlib.lib import (
    INVALID,
    AttrRep,
    AttributePresenceChecker,
    Invalid,
    SCIMDataContainer,
    build_schema,
    issue_set,
    make_config,
    rv,
)

RULE = (
    "resources of generated and built-in schemas in which any attribute, sub-attribute, item or extension is "
    "present, empty, zero, null, absent or already invalid, checked in requests and responses against "
    "selections of names in any letter case, qualified or not, listing attributes, sub-attributes and unknown "
    "names; counted by direction, selection and kinds of reported issues"
)
ASSUMPTIONS = [
    "values of attributes have the shape their definition gives them (shapes are judged by C09 and C10)",
]


def value_of(rng, attr):
    """A value, an empty one, or none at all."""
    r = rng.random()
    if r < 0.25:
        return None if rng.random() < 0.3 else "absent"
    if attr.get("multi"):
        if attr["type"] == "complex":
            return [item_of(rng, attr) if rng.random() < 0.93 else rng.choice([None, INVALID, "x", 5])
                    for _ in range(gen.few(rng, 0, 3))]
        return gen.valid_value(rng, attr, "parse")
    if attr["type"] == "complex":
        return item_of(rng, attr)
    if r < 0.4:
        return rng.choice(["", 0, False, 0.0, INVALID, " "])
    return gen.valid_value(rng, attr, "parse")


def item_of(rng, attr):
    out = {}
    for sub in attr["sub"]:
        value = value_of(rng, sub)
        if value != "absent":
            out[sub["name"]] = value
    return out


def resource_of(rng, spec, density=0.8):
    data = {}
    namespaces = {None: data}
    for extension in spec.get("extensions", []):
        if rng.random() < 0.7:
            namespaces[extension["schema"]] = data[extension["schema"]] = {}
    for urn, attr in model.all_attrs(spec):
        if urn not in namespaces or rng.random() > density:
            continue
        value = value_of(rng, attr)
        if value != "absent":
            namespaces[urn][attr["name"]] = value
    return data


def marked(value):
    if value == INVALID:
        return Invalid
    if isinstance(value, dict):
        return {k: marked(v) for k, v in value.items()}
    if isinstance(value, list):
        return [marked(v) for v in value]
    return value


def container(data):
    return SCIMDataContainer(marked(data))


def all_reps(spec):
    reps = []
    for urn, attr in model.all_attrs(spec):
        schema = urn or spec["schema"]
        reps.append((schema, attr["name"], ""))
        reps.extend((schema, attr["name"], sub["name"]) for sub in attr.get("sub", []))
    return reps


def selection(rng, spec, maximum=6):
    """Requested names: (texts, parts)."""
    texts, parts = [], []
    reps = all_reps(spec)
    for _ in range(gen.few(rng, 1, maximum, 25)):
        if rng.random() < 0.1:
            schema, attr, sub = rng.choice([
                ("", "unknownOne", ""), ("", "name", "unknownSub"), ("urn:no:such", rng.choice(reps)[1], ""),
                (spec["schema"], "nope", ""),
            ])
        else:
            schema, attr, sub = rng.choice(reps)
            if rng.random() < 0.6:
                schema = ""
            if rng.random() < 0.5:
                schema, attr, sub = (gen.recase_text(rng, x) for x in (schema, attr, sub))
        parts.append((schema, attr, sub))
        texts.append((schema + ":" if schema else "") + attr + ("." + sub if sub else ""))
    return texts, parts


def respond(ctx, index):
    rng = ctx.rng
    spec = gen.some_spec(rng)
    schema = build_schema(spec)
    for _ in range(3):
        data = resource_of(rng, spec, rng.choice([0.3, 0.8, 0.95]))
        include = rng.choice([None, True, True, False, False])
        texts, parts = selection(rng, spec) if include is not None else ([], [])
        if include is None:
            checker = AttributePresenceChecker()
        elif rng.random() < 0.7:
            checker, issues = ctx.call("selection", AttributePresenceChecker.parse, list(texts), include)
            ctx.expect(not issues.has_issues(), "names are refused", names=texts)
        else:
            checker = AttributePresenceChecker(
                [AttrRep(schema=s, attr=a, sub_attr=b) for s, a, b in parts], include
            )
        direction = rng.choice(["RESPONSE", "RESPONSE", "RESPONSE", "REQUEST"])
        issues = ctx.call("check", checker, container(data), schema.attrs, direction)
        expected = model.presence(spec, data, direction, parts, include)
        ctx.same(issue_set(issues), expected, "presence is policed wrongly", data=data, names=texts,
                 include=include, direction=direction, schema=spec["name"])
        for _, code in expected:
            ctx.seen(f"{direction.lower()}_{code}")
        if not expected:
            ctx.seen("clean")
        ctx.sample((texts, include, direction, data))
        ctx.sig("respond", direction, include, tuple(sorted((len(loc), code) for loc, code in expected))[:12])


def exempted(ctx, index):
    rng = ctx.rng
    spec = gen.some_spec(rng)
    schema = build_schema(spec)
    data = resource_of(rng, spec, 0.4)
    required = [r for r in all_reps(spec)]
    parts = rng.sample(required, min(len(required), gen.few(rng, 1, 6, 25)))
    parts = [("" if rng.random() < 0.3 else s, a, b) for s, a, b in parts]
    checker = AttributePresenceChecker(
        ignore_required=[AttrRep(schema=s, attr=a, sub_attr=b) for s, a, b in parts]
    )
    direction = rng.choice(["RESPONSE", "REQUEST"])
    issues = ctx.call("check", checker, container(data), schema.attrs, direction)
    expected = model.presence(spec, data, direction, exempt=parts)
    ctx.same(issue_set(issues), expected, "exemptions are applied wrongly", data=data, exempt=parts,
             direction=direction)
    ctx.seen("exempted")
    ctx.sig("exempt", direction, len(parts), len(expected))


FLAGS = [(returned, required) for returned in ("always", "never", "default", "request") for required in (True, False)]


def corners(ctx, index):
    """One attribute and its sub-attributes with every combination of characteristics, selections and values."""
    rng = ctx.rng
    kinds = ["simple", "simple_multi", "complex", "complex_multi"]
    kind = kinds[index % 4]
    returned, required = FLAGS[(index // 4) % 8]
    sub_returned, sub_required = FLAGS[(index // 32) % 8]
    attr = {"name": "thing", "type": "string", "multi": kind.endswith("multi"), "returned": returned,
            "required": required}
    if kind.startswith("complex"):
        attr["type"] = "complex"
        attr["sub"] = [
            {"name": "one", "type": "string", "returned": sub_returned, "required": sub_required},
            {"name": "two", "type": "integer", "returned": "default", "required": False},
        ]
    in_extension = (index // 256) % 2 == 1
    urn = "urn:x:y:ext"
    spec = {"schema": "urn:x:y", "name": "Thing",
            "attrs": [{"name": "other", "type": "string"}] + ([] if in_extension else [attr]),
            "extensions": [{"schema": urn, "attrs": [attr]}] if in_extension else []}
    schema = build_schema(spec)
    values = {
        "simple": ["absent", None, "", "x", 0, False],
        "simple_multi": ["absent", None, [], ["x"], ["x", ""]],
        "complex": ["absent", None, {}, {"one": "x"}, {"one": ""}, {"two": 0}, {"one": "x", "two": 1}],
        "complex_multi": ["absent", [], [{}], [{"one": "x"}, {"two": 5}], [{"one": None}], [{"two": 0}, {"one": "z"}]],
    }[kind]
    names = [[], ["thing"], ["thing.one"], ["thing.two"], ["other"], ["THING", "other"], ["thing.ONE", "thing.two"],
             [("urn:x:y:ext" if in_extension else "urn:x:y") + ":thing"], ["urn:no:no:thing"]]
    for value in values:
        data = {"schemas": ["urn:x:y"], "other": "o"}
        if value != "absent":
            (data.setdefault(urn, {}) if in_extension else data)["thing"] = value
        for texts in names:
            for include in (True, False):
                for direction in ("RESPONSE", "REQUEST"):
                    checker, _ = ctx.call("selection", AttributePresenceChecker.parse, texts, include)
                    parts = []
                    for t in texts:
                        prefix, _, rest = t.rpartition(":")
                        a, _, b = rest.partition(".")
                        parts.append((prefix, a, b))
                    issues = ctx.call("check", checker, container(data), schema.attrs, direction)
                    expected = model.presence(spec, data, direction, parts, include)
                    ctx.same(issue_set(issues), expected, "presence is policed wrongly", attribute=attr, data=data,
                             names=texts, include=include, direction=direction)
                    ctx.sig("corner", kind, returned, required, sub_returned, sub_required, direction, include,
                            len(expected))
        ctx.seen("corner_values")


def end_to_end(ctx, index):
    """A client's selection, through the request parser, to the response."""
    rng = ctx.rng
    spec = gen.some_spec(rng)
    validator = rv.ResourceObjectGET(make_config(), resource_schema=build_schema(spec))
    for _ in range(2):
        texts, parts = selection(rng, spec)
        include = rng.random() < 0.5
        key = "attributes" if include else "excludeAttributes"
        request, issues = ctx.call("parse_request", validator.parse_request, query_string={key: ",".join(texts)})
        ctx.expect(not issues.has_issues(), "names are refused", names=texts)
        data = gen.resource(rng, spec, "dump", density=rng.choice([0.1, 0.5, 0.9]),
                            required_all=rng.random() < 0.5)
        processed, process_issues = model.process(spec, data, "dump")
        response, issues = ctx.call(
            "dump_response", validator.dump_response, status_code=200, body=data,
            presence_checker=request.query_string["presence_checker"],
        )
        expected = model.under(process_issues | model.presence(spec, processed, "RESPONSE", parts, include), "body")
        ctx.same(issue_set(issues), expected, "response is policed wrongly", data=data, names=texts, include=include)
        for _, code in expected:
            ctx.seen(f"e2e_{code}")
        ctx.sig("e2e", include, tuple(sorted((len(loc), code) for loc, code in expected))[:12])


def requests(ctx, index):
    """Required attributes in create and replace requests."""
    rng = ctx.rng
    spec = gen.some_spec(rng)
    schema = build_schema(spec)
    creating = rng.random() < 0.5
    validator = (rv.ResourcesPOST if creating else rv.ResourceObjectPUT)(make_config(), resource_schema=schema)
    data = gen.resource(rng, spec, "parse", density=rng.choice([0.2, 0.6, 0.95]), required_all=rng.random() < 0.4)
    if rng.random() < 0.5:
        places = [p for p in gen.positions(data) if p and p[0] != "schemas"]
        if places:
            data = gen.delete_at(data, rng.choice(places)) if rng.random() < 0.5 else gen.replace_at(
                data, rng.choice(places), None)
    processed, process_issues = model.process(spec, data, "parse")
    exempt = []
    if creating:
        for urn, attr in model.all_attrs(spec):
            schema_urn = urn or spec["schema"]
            if attr.get("required") and attr.get("issuer") == "server":
                exempt.append((schema_urn, attr["name"], ""))
            for sub in attr.get("sub", []):
                if sub.get("required") and sub.get("issuer") == "server":
                    exempt.append((schema_urn, attr["name"], sub["name"]))
    expected = set(process_issues)
    if processed is not INVALID:
        expected |= model.presence(spec, processed, "REQUEST", exempt=exempt)
    _, issues = ctx.call("parse_request", validator.parse_request, body=data)
    ctx.same(issue_set(issues), model.under(expected, "body"), "request is policed wrongly", data=data,
             creating=creating)
    for _, code in expected:
        ctx.seen(f"request_{code}")
    ctx.sig("request", creating, tuple(sorted((len(loc), code) for loc, code in expected))[:12])


STREAMS = {
    "corners": (corners, 512, 512, True),
    "respond": (respond, 2500, 40000),
    "exempted": (exempted, 1500, 15000),
    "end_to_end": (end_to_end, 1000, 15000),
    "requests": (requests, 1000, 15000),
}
FLOORS = {"response_19": 2000, "response_15": 500, "request_15": 500, "clean": 30, "exempted": 1000,
          "corner_values": 2000, "e2e_19": 200}
