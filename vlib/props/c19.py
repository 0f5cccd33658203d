import copy

from vlib import bulk, filters, gen, model, single
from vlib.core import Skip
from vlib.lib import MISSING, SCIMDataContainer, build_schema, issue_set, make_config, plain, rv, same_data
from vlib.props.c05 import read as read_path
from vlib.props.c10 import duplicated
from vlib.props.c15 import body_for
from vlib.props.c16 import an_operation, optional_issues, same_operations, unique_spec

RULE = (
    "bulk requests of zero to six operations over one to three resource types: every method in any letter case, "
    "right and wrong path forms, known and unknown resource types, missing and null parts, data of create, replace "
    "and patch requests that would and would not be accepted alone, operation limits around the number of operations; "
    "counted by methods and set of reported issues"
)
ASSUMPTIONS = [
    "when an operation is not of the right shape, other rules of operations may or may not be reported along with it",
    "no two keys of one object differ only in letter case",
    "resource types of one server have distinct endpoints",
]


def some_specs(rng):
    specs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        for _ in range(20):
            spec = unique_spec(rng)
            if bulk.plural(spec).lower() not in {bulk.plural(s).lower() for s in specs}:
                specs.append(spec)
                break
    return specs


def patch_body(rng, spec):
    return {"schemas": [single.PATCH_URN],
            "Operations": [an_operation(rng, spec, hostile=rng.random() < 0.3) for _ in range(rng.choice([1, 1, 2]))]}


def good_patch(rng, spec):
    """A patch that is mostly fine."""
    for _ in range(6):
        body = patch_body(rng, spec)
        try:
            if not single.patch(spec, body, read_path)[1]:
                return body
        except filters.Unspecified:
            pass
    return body


def good_body(rng, spec, method):
    body = gen.resource(rng, spec, "parse", density=rng.choice([0.2, 0.5]), required_all=True)
    return gen.recase(rng, body) if rng.random() < 0.3 else body


def operation_for(rng, specs, clean):
    spec = rng.choice(specs)
    method = rng.choice(bulk.METHODS)
    name = bulk.plural(spec)
    operation = {"method": gen.recase_text(rng, method) if rng.random() < 0.3 else method}
    if method == "POST":
        operation["path"] = f"/{name}"
        operation["bulkId"] = rng.choice(["qwerty", "1", gen.word(rng)])
    else:
        operation["path"] = f"/{name}/" + rng.choice(["1", "a-b", "x/y", "bulkId:q", "", "é", "1?x=y"])
        if rng.random() < 0.2:
            operation["bulkId"] = rng.choice(["x", None])
    if rng.random() < 0.3:
        operation["version"] = rng.choice(['W/"1"', "", None])
    if method in ("POST", "PUT"):
        operation["data"] = good_body(rng, spec, method) if clean else body_for(rng, spec)[1]
    elif method == "PATCH":
        operation["data"] = good_patch(rng, spec) if clean else patch_body(rng, spec)
    elif rng.random() < 0.2:
        operation["data"] = rng.choice([None, {}, {"x": 1}, 5])
    if not clean and rng.random() < 0.5:
        operation = damage(rng, operation, specs)
    if isinstance(operation, dict) and rng.random() < 0.15:
        operation = {gen.recase_text(rng, k): v for k, v in operation.items()}
    if isinstance(operation, dict) and rng.random() < 0.1:
        operation["unknownKey"] = 1
    return operation


def damage(rng, operation, specs):
    operation = {k: v for k, v in operation.items()}
    if "path" not in operation:
        return operation
    kind = rng.choice(["drop", "drop", "null", "method", "path", "path", "path", "data", "type", "shape", "unknown"])
    name = bulk.plural(rng.choice(specs))
    if kind == "drop":
        operation.pop(rng.choice(list(operation)))
    elif kind == "null":
        operation[rng.choice(list(operation))] = None
    elif kind == "method":
        operation["method"] = rng.choice(["", "HEAD", "post ", "PUTT", "OPTIONS", " GET", *bulk.METHODS])
    elif kind == "path":
        operation["path"] = rng.choice([f"/{name}", f"/{name}/", f"/{name}/1", f"/{name}/1/2", f"{name}", f"{name}/1",
                                        "", "/", "//", f"//{name}", f"/{name} ", f"https://x/{name}/1", f"/{name}?x",
                                        f"/{name.lower()}", f"/{name.lower()}/1", f"/{name}x", f"/x{name}/1",
                                        f"/v2/{name}", f"/v2/{name}/1"])
    elif kind == "unknown":
        operation["path"] = rng.choice(["/Unknowns/1", "/Unknowns", operation.get("path", "").replace(name, "No")])
    elif kind == "data":
        operation["data"] = gen.json_value(rng, 2)
    elif kind == "type":
        operation[rng.choice(["method", "path", "bulkId", "version"])] = rng.choice([5, [], {}, True, ["x"]])
    else:
        operation = rng.choice([None, 5, "x", [], {}, True, [{}]])
    return operation


def matches(found, must, may):
    """Found issues against the expected ones, where a code may be anything."""
    wild = {loc for loc, code in must | may if code == single.ANY}
    lost = {(loc, code) for loc, code in must
            if (loc, code) not in found and not (code == single.ANY and any(loc == l for l, _ in found))}
    odd = {(loc, code) for loc, code in found if (loc, code) not in must | may and loc not in wild}
    return lost, odd


def judge(ctx, specs, body, maximum, tag):
    rng = ctx.rng
    given = copy.deepcopy(body)
    try:
        expected, must, may = bulk.request(specs, given, maximum, read_path)
    except filters.Unspecified:
        raise Skip()
    config = make_config(max_operations=maximum)
    validator = rv.BulkOperations(config, resource_schemas=[build_schema(s) for s in specs])
    if isinstance(body, dict) and rng.random() < 0.1:
        body = SCIMDataContainer(body)
    request, issues = ctx.call("bulk", validator.parse_request, body=body)
    found = issue_set(issues)
    operations = model.find(given, "Operations")
    operations = operations if isinstance(operations, list) else []
    # what a patch request alone may or may not report
    optional = set(may)
    for i, operation in enumerate(operations):
        inner = model.find(model.find(operation, "data"), "Operations")
        if isinstance(inner, list):
            prefix = ("body", "Operations", str(i), "data", "Operations")
            optional |= optional_issues(inner, {x for x in must | may if x[0][:5] == prefix}, found, prefix)
    lost, odd = matches(found, must - optional, optional | must)
    witness = dict(body=given, maximum=maximum, endpoints=[bulk.plural(s) for s in specs])
    ctx.expect(not lost, "violation is not reported", lost=lost, found=found, **witness)
    ctx.expect(not odd, "valid part is reported", odd=odd, found=found, **witness)
    ctx.expect((request.body is None) == bool(found), "request is delivered exactly when it is valid", **witness)
    ctx.sample((tag, given))
    for _, code in must:
        ctx.seen(f"code_{code}")
    methods = tuple(str(model.find(o, "method")).upper()[:6] for o in operations)
    ctx.sig(tag, methods, tuple(sorted((len(loc), str(code)) for loc, code in must))[:8])
    if expected is None:
        ctx.seen("refused")
        return
    ctx.seen("delivered")
    envelope, wanted = expected
    out = request.body
    ctx.expect(same_data(plain(out["schemas"]), envelope.get("schemas")), "declared schemas differ", **witness)
    fail = envelope.get("failOnErrors", MISSING)
    ctx.expect(same_data(plain(out["failOnErrors"]), fail), "error limit differs", **witness)
    delivered = out["Operations"]
    ctx.same(len(delivered), len(wanted), "operations are lost or added", **witness)
    for i, (operation, want) in enumerate(zip(delivered, wanted)):
        for name in ("method", "path", "bulkId", "version"):
            ctx.expect(same_data(plain(operation[name]), want.get(name, MISSING)), "operation differs", part=name,
                       at=i, delivered=plain(operation[name]), wanted=want.get(name, MISSING), **witness)
        data = operation["data"]
        method = want["method"]
        if method in ("GET", "DELETE"):
            ctx.expect(plain(data) in (None, MISSING), "operation carries data", at=i, **witness)
        elif method == "POST":
            ctx.expect(same_data(plain(data), want["data"]), "other data is delivered", at=i, delivered=plain(data),
                       wanted=want["data"], **witness)
        elif method == "PUT":
            ctx.expect(same_data(single.pruned(plain(data)), single.pruned(want["data"])), "other data is delivered",
                       at=i, delivered=plain(data), wanted=want["data"], **witness)
        else:
            same_operations(ctx, data["Operations"], want["data"], given)
        ctx.seen("delivered_" + method)


def limits(rng, n):
    return rng.choice([None, max(1, n), n + 1, max(1, n - 1), max(1, n - 1), 100])


def requests(ctx, index):
    rng = ctx.rng
    specs = some_specs(rng)
    for _ in range(3):
        chance = rng.choice([0, 0, 0.3, 1])
        n = rng.choice([0, 1, 1, 2, 3, 4, 6])
        body = {"schemas": [bulk.REQUEST_URN],
                "Operations": [operation_for(rng, specs, rng.random() >= chance) for _ in range(n)]}
        if rng.random() < 0.3:
            body["failOnErrors"] = rng.choice([0, 1, 5, None, 2.0, -1])
        if duplicated(body):
            continue
        maximum = rng.choice([None, 100, max(1, n), n + 1]) if rng.random() < 0.85 else limits(rng, n)
        judge(ctx, specs, body, maximum, "requests")


def one_operation(ctx, index):
    """One damaged operation among good ones, or alone."""
    rng = ctx.rng
    specs = some_specs(rng)
    for _ in range(4):
        operations = [operation_for(rng, specs, True) for _ in range(rng.choice([1, 1, 2, 3, gen.few(rng, 3, 6, 14)]))]
        i = rng.randrange(len(operations))
        operations[i] = damage(rng, operations[i], specs)
        body = {"schemas": [bulk.REQUEST_URN], "Operations": operations}
        if duplicated(body):
            continue
        judge(ctx, specs, body, None if rng.random() < 0.5 else 10, "one")


def envelopes(ctx, index):
    rng = ctx.rng
    specs = some_specs(rng)
    body = {"schemas": [bulk.REQUEST_URN],
            "Operations": [operation_for(rng, specs, True) for _ in range(rng.choice([1, 2]))]}
    r = rng.random()
    if r < 0.25:
        body["schemas"] = rng.choice([None, [], [bulk.REQUEST_URN.upper()], ["urn:x"], [bulk.REQUEST_URN, "urn:x"],
                                      "x", 5, [None]])
    elif r < 0.5:
        body["Operations"] = rng.choice([None, [], {}, "x", [None], [[]], [5, body["Operations"][0]], True])
    elif r < 0.6:
        body["failOnErrors"] = rng.choice(["1", 1.5, True, [], {}, "", 10**20])
    elif r < 0.7:
        body.pop(rng.choice(list(body)))
    elif r < 0.8:
        body = rng.choice([None, [], "x", 5, {}, True])
    else:
        body = gen.recase(rng, gen.add_unknown(rng, body), 0.3)
    if duplicated(body):
        return
    judge(ctx, specs, body, rng.choice([None, 1, 2, 10]), "envelope")


STREAMS = {
    "requests": (requests, 1500, 25000),
    "one_operation": (one_operation, 1500, 20000),
    "envelopes": (envelopes, 1500, 10000),
}
FLOORS = {"delivered": 1500, "refused": 2000, "code_15": 500, "code_34": 50, "code_35": 100, "code_36": 100,
          "code_37": 100, "code_14": 50, "delivered_GET": 300, "delivered_POST": 300, "delivered_PUT": 300,
          "delivered_PATCH": 300, "delivered_DELETE": 300}
