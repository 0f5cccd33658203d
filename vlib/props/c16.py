import copy

from vlib import filters, gen, model, single
from vlib.core import Skip
from vlib.lib import Missing, PatchPath, ast_of, build_schema, issue_set, make_config, plain, rep_of, rv, same_data
from vlib.props.c05 import read as read_path
from vlib.props.c10 import duplicated

RULE = (
    "patch requests of one to five operations on generated and built-in schemas: every operation name in any "
    "letter case, targets at every level, qualified or not, known or not, with and without filters, values that fit "
    "or do not, read-only and required parts at every position, malformed operations; counted by kinds of "
    "operations and set of reported issues"
)
ASSUMPTIONS = [
    "filters in paths are put on multi-valued complex attributes only",
    "names in a generated schema are unique across its extensions, or paths are qualified",
    "the code that says why a path is malformed is not judged, its location is",
]


def unique_spec(rng):
    for _ in range(20):
        spec = gen.some_spec(rng)
        names = [a["name"].lower() for _, a in model.all_attrs(spec)]
        if len(set(names)) == len(names):
            return spec
    return model.BUILTIN["User"]


def a_path(rng, spec):
    """(text, attribute the value is for or None)"""
    r = rng.random()
    if r < 0.06:
        return rng.choice(["unknownOne", "userName.x.y", "a b", "", "emails[", "x[y eq 1].z", "urn:no:such:title",
                           "[x eq 1]", "emails[type eq].value", "emails[x eq 1]value"]), None
    urn, attr = rng.choice(model.all_attrs(spec))
    if rng.random() < 0.7:
        pool = [(u, a) for u, a in model.all_attrs(spec) if a["type"] == "complex"]
        if pool and rng.random() < 0.6:
            urn, attr = rng.choice(pool)
    prefix = rng.choice(["", (urn or spec["schema"]) + ":"])
    if rng.random() < 0.3:
        prefix = gen.recase_text(rng, prefix)
    name = attr["name"] if rng.random() < 0.6 else gen.recase_text(rng, attr["name"])
    if attr["type"] != "complex" or rng.random() < 0.35:
        return prefix + name, attr
    sub = rng.choice(attr["sub"])
    sub_name = sub["name"] if rng.random() < 0.6 else gen.recase_text(rng, sub["name"])
    if rng.random() < 0.05:
        sub, sub_name = None, "noSuchSub"
    if attr.get("multi") and rng.random() < 0.7:
        inner = filters.tree(rng, rng.choice([0, 0, 1]), inner=True)
        try:
            text = prefix + name + "[" + filters.Writer(rng, wild=rng.random() < 0.4).write(inner) + "]"
        except filters.Unspecified:
            return prefix + name, attr
        if rng.random() < 0.6:
            return text + "." + sub_name, sub
        return text, attr
    return prefix + name + "." + sub_name, sub


def a_value(rng, spec, attr):
    r = rng.random()
    if attr is None or r < 0.08:
        return gen.json_value(rng, 2)
    value = gen.valid_value(rng, attr, "parse")
    if attr["type"] == "complex":
        read_only = {s["name"] for s in attr["sub"] if single.read_only(s)}
        if rng.random() < 0.6:  # without what may not be written
            def allowed(item):
                return {k: v for k, v in item.items() if k not in read_only}
            value = [allowed(i) for i in value] if isinstance(value, list) else allowed(value)
        if rng.random() < 0.2 and value:  # with something missing
            items = value if isinstance(value, list) else [value]
            item = rng.choice(items)
            if item:
                item.pop(rng.choice(list(item)))
        if rng.random() < 0.5:
            value = gen.recase(rng, value)
        if rng.random() < 0.15:
            value = gen.corrupt(rng, value, 1)
    return value


def whole_value(rng, spec):
    value = gen.resource(rng, spec, "parse", density=rng.choice([0.1, 0.3, 0.6]))
    if rng.random() < 0.85:
        value.pop("schemas", None)
    if rng.random() < 0.7:
        data, _ = model.process(spec, value, "parse")
        kept = single.writable(spec, data)
        value = {
            k: ({n: v for n, v in value[k].items() if n in kept[k]} if k in spec_urns(spec) else value[k])
            for k in value if k in kept
        }
        for urn, attr in model.all_attrs(spec):
            namespace = value if urn is None else value.get(urn, {})
            if attr["name"] in namespace and attr["type"] == "complex":
                hidden = {s["name"] for s in attr["sub"] if single.read_only(s)}
                current = namespace[attr["name"]]
                if isinstance(current, dict):
                    namespace[attr["name"]] = {k: v for k, v in current.items() if k not in hidden}
                else:
                    namespace[attr["name"]] = [{k: v for k, v in i.items() if k not in hidden} for i in current]
    if rng.random() < 0.15:
        value = gen.corrupt(rng, value, 1)
    if rng.random() < 0.2:
        value = gen.add_unknown(rng, value)
    if rng.random() < 0.4:
        value = gen.recase(rng, value)
    return value


def spec_urns(spec):
    return {e["schema"] for e in spec.get("extensions", [])}


def an_operation(rng, spec, hostile=True):
    op = rng.choice(["add", "replace", "remove"])
    operation = {"op": gen.recase_text(rng, op) if rng.random() < 0.4 else op}
    if op != "remove" and rng.random() < 0.3:
        operation["value"] = whole_value(rng, spec)
        if rng.random() < 0.1:
            operation["path"] = None
    else:
        operation["path"], attr = a_path(rng, spec)
        if op != "remove" or rng.random() < 0.2:
            operation["value"] = a_value(rng, spec, attr)
    if hostile and rng.random() < 0.06:
        r = rng.random()
        if r < 0.3:
            operation["op"] = rng.choice(["", "delete", "move", "addd", " add", None, 5, ["add"], "İ", "REMOVE "])
        elif r < 0.6:
            operation.pop(rng.choice(list(operation)))
        elif r < 0.8:
            operation["path"] = rng.choice([None, 5, [], {}, True])
        elif r < 0.9:
            operation["value"] = rng.choice([None, "", [], {}])
        else:
            operation = rng.choice([None, 5, "x", [], {}, True])
    if isinstance(operation, dict) and rng.random() < 0.15:
        operation = {gen.recase_text(rng, k): v for k, v in operation.items()}
    return operation


def read(text):
    return read_path(text)


def optional_issues(operations, expected_issues, found, prefix=("body", "Operations")):
    """Issues that may be reported or not."""
    optional = {(prefix + (str(i), "op"), 15) for i, o in enumerate(operations) if not isinstance(o, dict)}
    for loc, code in expected_issues:
        if code == 305:  # its value may be looked at or not
            optional |= {x for x in found if x[0][: len(loc)] == loc[:-1] + ("value",)}
    return optional


def judge(ctx, spec, validator, body, tag):
    given = copy.deepcopy(body)
    try:
        expected, expected_issues = single.patch(spec, given, read)
    except filters.Unspecified:
        raise Skip()
    request, issues = ctx.call("patch", validator.parse_request, body=body)
    found = issue_set(issues)
    unclear = {loc for loc, code in expected_issues if code == single.ANY}
    exact = {(loc, code) for loc, code in found if loc not in unclear}
    ctx.same({loc for loc, _ in found} & unclear, unclear, "malformed path is not reported", body=given, issues=found)
    optional = set()
    operations = model.find(given, "Operations")
    if isinstance(operations, list):
        optional = optional_issues(operations, expected_issues, exact)
    ctx.same(exact - optional, {x for x in expected_issues if x[1] != single.ANY} - optional, "issues differ",
             schema=spec["schema"], body=given)
    ctx.expect((request.body is None) == bool(found), "request is delivered exactly when it is valid", body=given)
    ctx.sample((spec["schema"], given))
    for _, code in expected_issues:
        ctx.seen(f"code_{code}")
    ctx.sig(tag, spec.get("builtin"), tuple(sorted((len(loc), str(code)) for loc, code in expected_issues))[:8],
            tuple(str(o.get("op")).lower() for o in operations if isinstance(o, dict))
            if isinstance(operations, list) else None)
    if expected is None:
        ctx.seen("refused")
        return
    ctx.seen("delivered")
    same_operations(ctx, request.body["Operations"], expected, given)


def same_operations(ctx, delivered, expected, given):
    ctx.same(len(delivered), len(expected), "operations are lost or added", body=given)
    for i, (operation, wanted) in enumerate(zip(delivered, expected)):
        ctx.same(operation["op"], wanted["op"], "operation became another one", body=given, at=i)
        path = operation["path"]
        if wanted["path"] is None:
            ctx.expect(path is None or path is Missing, "operation got a path", body=given, at=i)
        else:
            ctx.expect(isinstance(path, PatchPath), "path is lost", body=given, at=i)
            rep, tree, sub = wanted["path"]
            ctx.same(rep_of(path.attr_rep), rep, "operation has another target", body=given, at=i)
            ctx.same(None if path.complex_filter is None else ast_of(path.complex_filter.operator), tree,
                     "operation has another filter", body=given, at=i)
            actual = path.complex_filter_attr_rep
            ctx.same(None if actual is None else rep_of(actual), sub, "operation has another target", body=given,
                     at=i)
        value = operation["value"]
        if "value" not in wanted:
            ctx.expect(value is Missing or value is None, "removal has a value", body=given, at=i)
        else:
            ctx.expect(value is not Missing and same_data(plain(value), plain(wanted["value"])),
                       "operation has another value", body=given, at=i, value=plain(value), wanted=wanted["value"])
        ctx.seen("op_" + wanted["op"] + ("_at_path" if wanted["path"] else ""))


def requests(ctx, index):
    rng = ctx.rng
    spec = unique_spec(rng)
    validator = rv.ResourceObjectPATCH(make_config(), resource_schema=build_schema(spec))
    for _ in range(4):
        body = {"schemas": [single.PATCH_URN],
                "Operations": [an_operation(rng, spec) for _ in range(rng.choice([1, 1, 2, 3, gen.few(rng, 4, 6, 20)]))]}
        if duplicated(body):
            continue
        judge(ctx, spec, validator, body, "requests")


def single_operation(ctx, index):
    """One operation per request, so that each is decided on its own."""
    rng = ctx.rng
    spec = unique_spec(rng)
    validator = rv.ResourceObjectPATCH(make_config(), resource_schema=build_schema(spec))
    for _ in range(8):
        body = {"schemas": [single.PATCH_URN], "Operations": [an_operation(rng, spec, hostile=False)]}
        if duplicated(body):
            continue
        judge(ctx, spec, validator, body, "single")


def protected(ctx, index):
    """Operations aimed at read-only and required parts."""
    rng = ctx.rng
    kinds = ["readOnly", "readWrite", "immutable", "writeOnly"]

    def attribute(name):
        multi = rng.random() < 0.6
        attr = {"name": name, "type": "string", "multi": multi, "mutability": rng.choice(kinds),
                "required": rng.random() < 0.4, "issuer": rng.choice(["none", "server"])}
        if rng.random() < 0.7:
            attr["type"] = "complex"
            attr["sub"] = [
                {"name": sub, "type": "string", "mutability": rng.choice(kinds), "required": rng.random() < 0.4,
                 "issuer": rng.choice(["none", "server"])}
                for sub in rng.sample(["value", "note", "$ref", "display"], rng.randint(1, 3))
            ]
        return attr

    spec = {"schema": "urn:x:y", "name": "Thing", "attrs": [attribute("alpha"), attribute("Beta")],
            "extensions": [{"schema": "urn:x:y:ext", "attrs": [attribute("gamma")]}]}
    clash = rng.random() < 0.3  # an extension has an attribute of the same name: paths are qualified then
    if clash:
        spec["extensions"][0]["attrs"].append(attribute(rng.choice(["alpha", "ALPHA"])))
    validator = rv.ResourceObjectPATCH(make_config(), resource_schema=build_schema(spec))
    for _ in range(8):
        op = rng.choice(["add", "replace", "remove", "REMOVE", "Add"])
        urn, attr = rng.choice([(u, a) for u, a in model.all_attrs(spec) if a["name"] in ("alpha", "ALPHA", "Beta", "gamma")])
        prefix = rng.choice([(urn or "urn:x:y") + ":"] if clash else ["", (urn or "urn:x:y") + ":"])
        form = rng.choice(["attr", "attr", "sub", "filter", "filter_sub", "whole"])
        if attr["type"] != "complex" and form != "whole":
            form = "attr"
        elif not attr.get("multi") and form.startswith("filter"):
            form = "sub"
        if form == "whole" and op.lower() == "remove":
            form = "attr"
        sub = rng.choice(attr["sub"]) if attr["type"] == "complex" else None
        if clash and sub and rng.random() < 0.3:
            sub = {"name": rng.choice(["value", "note", "display", "nope"]), "type": "string"}
        last = attr
        path = prefix + attr["name"]
        if form.startswith("filter"):
            path += '[value eq "x"]'
        if form.endswith("sub"):
            path += "." + sub["name"]
            last = sub
        if rng.random() < 0.3:
            path = gen.recase_text(rng, path)
        operation = {"op": op}
        value = gen.valid_value(rng, last, "parse")
        if rng.random() < 0.3 and last["type"] == "complex":
            value = gen.corrupt(rng, value, 1, value=lambda g: g.choice([None, "", "x"]))
        if form == "whole":
            operation["value"] = {attr["name"]: value} if urn is None else {urn: {attr["name"]: value}}
        else:
            operation["path"] = path
            if op.lower() != "remove":
                operation["value"] = value
        judge(ctx, spec, validator, {"schemas": [single.PATCH_URN], "Operations": [operation]}, form)
        ctx.seen("protected_" + form)


def envelopes(ctx, index):
    """Malformed requests around the operations."""
    rng = ctx.rng
    spec = rng.choice([model.BUILTIN["User"], model.BUILTIN["Group"]])
    validator = rv.ResourceObjectPATCH(make_config(), resource_schema=build_schema(spec))
    body = {"schemas": [single.PATCH_URN], "Operations": [an_operation(rng, spec)]}
    r = rng.random()
    if r < 0.3:
        body["schemas"] = rng.choice([None, [], [single.PATCH_URN.upper()], ["urn:x"], [single.PATCH_URN, "urn:x"],
                                      "x", 5, [None], [5]])
    elif r < 0.6:
        body["Operations"] = rng.choice([None, [], {}, "x", [None], [[]], [5, body["Operations"][0]]])
    elif r < 0.7:
        body.pop(rng.choice(list(body)))
    elif r < 0.8:
        body = rng.choice([None, [], "x", 5, {}, True])
    else:
        body = gen.recase(rng, gen.add_unknown(rng, body))
    if duplicated(body):
        return
    judge(ctx, spec, validator, body, "envelope")


STREAMS = {
    "requests": (requests, 1500, 25000),
    "single_operation": (single_operation, 1500, 25000),
    "protected": (protected, 1500, 20000),
    "envelopes": (envelopes, 1500, 10000),
}
FLOORS = {"delivered": 3000, "refused": 3000, "code_304": 1000, "code_306": 300, "code_303": 100, "code_15": 200,
          "op_remove_at_path": 500, "op_add_at_path": 500, "op_replace": 100}
