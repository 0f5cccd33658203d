from vlib import gen, model
from vlib.lib import (
    build_extension, build_schema, bulk_ops, error, issue_set, list_response, patch_op, plain,
    search_request, user,
)

RULE = (
    "declared schema lists built from the main URN, extension URNs and foreign URNs in any letter case, "
    "with and without extension data, parsed and dumped; counted by what the list and the data name"
)
ASSUMPTIONS = []


def at_schemas(issues):
    return {code for loc, code in issues if loc == ("schemas",)}


def declared(ctx, index):
    rng = ctx.rng
    spec = gen.some_spec(rng) if rng.random() < 0.4 else gen.random_spec(rng, extensions=rng.choice([1, 2, 3]))
    schema = build_schema(spec)
    urns = [e["schema"] for e in spec.get("extensions", [])]
    for _ in range(6):
        mode = rng.choice(["parse", "dump"])
        data = gen.resource(rng, spec, mode, density=rng.choice([0.2, 0.8]))
        for urn in urns:
            if urn in data and rng.random() < 0.3:
                del data[urn]
            elif urn in data and rng.random() < 0.1:
                data[urn] = rng.choice([None, {}, {"unknownKey": 1}])
            elif urn in data and rng.random() < 0.2:  # attributes without a value are data, too
                data[urn] = {k: rng.choice([None, None, v]) for k, v in data[urn].items()}
        names = []
        main = rng.random() < 0.75
        if main:
            names.append(spec["schema"])
        names += [u for u in urns if rng.random() < 0.6]
        foreign = rng.random() < 0.3
        if foreign:
            names.append(rng.choice(["urn:foreign", gen.near(rng, rng.choice([spec["schema"], *urns])), spec["schema"] + "x", spec["schema"][:-1], "", spec["name"],
                                     spec["schema"] + ":", *gen.MAIN_URNS, *gen.EXT_URNS]))
        if rng.random() < 0.15 and names:
            names.append(rng.choice(names))
        names = [gen.recase_text(rng, n) if rng.random() < 0.6 else n for n in names]
        rng.shuffle(names)
        data["schemas"] = names
        if rng.random() < 0.3:
            data = gen.recase(rng, data, 0.4)
        given = plain(data)
        result, issues = ctx.call(mode, getattr(schema, mode), data)
        _, expected = model.process(spec, given, mode)
        ctx.same(issue_set(issues), expected, "declared schemas are judged wrongly", data=given, mode=mode,
                 schema=spec["schema"], extensions=urns)
        codes = at_schemas(expected)
        for code in codes:
            ctx.seen(f"code_{code}")
        if names and not codes:
            ctx.seen("accepted")
            ctx.same(plain(result["schemas"]), names, "declared schemas are changed")
        ctx.sample((names, sorted(given)))
        ctx.sig(mode, main, foreign, len(names), tuple(sorted(codes)), tuple(u in given for u in urns))


def malformed(ctx, index):
    rng = ctx.rng
    spec = gen.some_spec(rng)
    schema = build_schema(spec)
    mode = rng.choice(["parse", "dump"])
    data = gen.resource(rng, spec, mode, density=0.3)
    data["schemas"] = rng.choice([None, [], "", spec["schema"], [None], [1, spec["schema"]], {}, {"0": spec["schema"]},
                                  [[spec["schema"]]], [spec["schema"], None], True, 5, [spec["schema"], {}]])
    if rng.random() < 0.1:
        del data["schemas"]
    result, issues = ctx.call(mode, getattr(schema, mode), data)
    _, expected = model.process(spec, data, mode)
    ctx.same(issue_set(issues), expected, "declared schemas are judged wrongly", data=data, mode=mode)
    ctx.seen("malformed")
    ctx.sig("malformed", mode, str(type(data.get("schemas"))), tuple(sorted(expected))[:3])


def resource_type(ctx, index):
    rng = ctx.rng
    spec = gen.some_spec(rng)
    schema = build_schema(spec)
    name = spec["name"]
    for given in [name, name.lower(), name.upper(), name + "s", "", " " + name, "Other", None, 5, [name], {}, gen.near(rng, name), gen.near(rng, name)]:
        data = gen.resource(rng, spec, "dump", density=0.3)
        data["meta"] = {gen.recase_text(rng, "resourceType"): given}
        if rng.random() < 0.3:
            data["meta"]["version"] = rng.choice(["x", 5])
        _, issues = ctx.call("dump", schema.dump, data)
        _, expected = model.process(spec, data, "dump")
        ctx.same(issue_set(issues), expected, "resource type is judged wrongly", data=data, schema=name)
        mismatch = (("meta", "resourceType"), 17) in expected
        ctx.seen("type_mismatch" if mismatch else "type_match")
        ctx.sig("type", mismatch, type(given).__name__, given == name)
        # the resource type is judged on output only
        _, issues = ctx.call("parse", schema.parse, {"meta": {"resourceType": given}})
        ctx.expect((("meta", "resourceType"), 17) not in issue_set(issues), "resource type is judged on input")


def messages(ctx, index):
    """Message schemas follow the same rule."""
    rng = ctx.rng
    prefix = "urn:ietf:params:scim:api:messages:2.0:"
    schema, mode, data, main = rng.choice([
        (error.Error(), "dump", {"status": "400"}, prefix + "Error"),
        (patch_op.PatchOp(user.User()), "parse", {"Operations": []}, prefix + "PatchOp"),
        (search_request.SearchRequest(), "parse", {"count": 1}, prefix + "SearchRequest"),
        (list_response.ListResponse([user.User()]), "dump", {"totalResults": 0}, prefix + "ListResponse"),
        (bulk_ops.BulkRequest(), "parse", {"Operations": []}, prefix + "BulkRequest"),
        (bulk_ops.BulkResponse(), "dump", {"Operations": []}, prefix + "BulkResponse"),
    ])
    names = []
    if rng.random() < 0.6:
        names.append(gen.recase_text(rng, main))
    if rng.random() < 0.4:
        names.append(rng.choice([prefix, main + "x", "urn:x", "", prefix + "Error", prefix + "PatchOp"]))
    _, issues = ctx.call(mode, getattr(schema, mode), {**data, "schemas": names})
    expected = set()
    if names and not any(n.lower() == main.lower() for n in names):
        expected.add(28)
    if any(n.lower() != main.lower() for n in names):
        expected.add(27)
    ctx.same(at_schemas(issue_set(issues)), expected, "declared schemas of a message are judged wrongly",
             schema=main, names=names)
    ctx.seen("messages")
    ctx.sig("message", main, tuple(sorted(expected)))


def attach(ctx, index):
    rng = ctx.rng
    spec = gen.random_spec(rng, extensions=rng.choice([1, 2]))
    schema = build_schema(spec)
    before = [spec["schema"]] + [e["schema"] for e in spec["extensions"]]
    ctx.same(list(schema.schemas), before, "attached extensions are listed wrongly")
    ctx.same(list(schema.schema_extensions), before[1:], "attached extensions are listed wrongly")
    n_attrs = len(list(schema.attrs))
    urn = gen.recase_text(rng, rng.choice(before))
    try:
        schema.with_extension(build_extension({"schema": urn, "attrs": [gen.random_attr(rng, "extra")]}))
    except ValueError:
        pass
    else:
        ctx.expect(False, "extension can be attached again", urn=urn, attached=before)
    ctx.same(list(schema.schemas), before, "refused extension is listed", urn=urn)
    ctx.same(len(list(schema.attrs)), n_attrs, "refused extension leaves attributes", urn=urn)
    fresh = "urn:fresh:ext"
    schema.with_extension(build_extension({"schema": fresh, "attrs": [gen.random_attr(rng, "extra")]}))
    ctx.same(list(schema.schemas), before + [fresh], "new extension is not listed")
    ctx.seen("attach")
    ctx.sig("attach", urn in before, len(before))


STREAMS = {
    "declared": (declared, 1600, 20000),
    "malformed": (malformed, 1500, 15000),
    "resource_type": (resource_type, 400, 5000),
    "messages": (messages, 1500, 10000),
    "attach": (attach, 300, 3000),
}
FLOORS = {"accepted": 500, "code_27": 300, "code_28": 300, "code_29": 300, "type_mismatch": 500, "type_match": 200}
