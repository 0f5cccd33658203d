import copy

from vlib import bulk, gen, model, single
from vlib.lib import MISSING, SCIMDataContainer, build_schema, issue_set, make_config, plain, rv, same_data
from vlib.props.c10 import duplicated
from vlib.props.c17 import a_body
from vlib.props.c19 import matches, some_specs

RULE = (
    "bulk responses of zero to six operations over one to three resource types: every method, right and wrong "
    "statuses, matching, differing, missing and unknown locations and versions, bodies that would and would not be "
    "released alone, error bodies that agree or not, numbers of failures around the client's limit; counted by "
    "methods, statuses and set of reported issues"
)
ASSUMPTIONS = [
    "when an operation is not of the right shape, other rules of operations may or may not be reported along with it",
    "no two keys of one object differ only in letter case; resource types of one server have distinct endpoints",
    "an empty response of a create (not null, but without content) is not judged",
]


def an_error(rng, status):
    body = {"schemas": [single.ERROR_URN], "status": str(status)}
    if rng.random() < 0.4:
        body["detail"] = gen.text(rng)
    if rng.random() < 0.4:
        body["scimType"] = gen.recase_text(rng, rng.choice(single.SCIM_TYPES))
    return body


def operation_for(rng, specs, clean):
    spec = rng.choice(specs)
    method = rng.choice(bulk.METHODS)
    location = rng.choice(["https://example.com", "http://h/v2"]) + f"/{bulk.plural(spec)}/" + rng.choice(["1", "x-y"])
    operation = {"method": gen.recase_text(rng, method) if rng.random() < 0.3 else method, "location": location}
    if method == "POST" or rng.random() < 0.2:
        operation["bulkId"] = rng.choice(["qwerty", "1"])
    failed = rng.random() < 0.3
    version = rng.choice([None, None, 'W/"1"', 'W/"1"', gen.text(rng)])
    if version:
        operation["version"] = version
    if failed:
        status = rng.choice([300, 307, 400, 404, 409, 412, 500, 599])
        operation["response"] = an_error(rng, status)
        if method == "POST" and rng.random() < 0.6:
            del operation["location"]
    else:
        status = {"POST": 201, "DELETE": 204}.get(method, 200)
        if method == "PATCH" and rng.random() < 0.3:
            status = 204
        if method == "DELETE":
            if rng.random() < 0.2:
                operation["response"] = rng.choice([None, {}, {"x": 1}, 5])
        elif rng.random() < 0.7:
            response = fine_body(rng, spec)
            meta = dict(response.get("meta") or {}, location=location)
            if version and rng.random() < 0.7:
                meta["version"] = version
            elif version:
                meta.pop("version", None)
            response["meta"] = meta
            operation["response"] = response
        elif rng.random() < 0.3:
            operation["response"] = None
    operation["status"] = str(status)
    if not clean:
        operation = damage(rng, operation, specs)
    if isinstance(operation, dict):
        if rng.random() < 0.15:
            operation = {gen.recase_text(rng, k): v for k, v in operation.items()}
        if rng.random() < 0.1:
            operation["unknownKey"] = 1
    return operation


def fine_body(rng, spec):
    """A body that is mostly free of issues."""
    for _ in range(5):
        body = a_body(rng, spec, clean=1, density=rng.choice([0.2, 0.5]))
        data, issues = model.process(spec, body, "dump")
        if not issues and not model.presence(spec, data, "RESPONSE"):
            break
    return body


def near_url(rng, location):
    """Almost the same, but still plainly a URL."""
    for _ in range(10):
        text = gen.near(rng, location if isinstance(location, str) and location else "https://x.y/Users/1")
        if text.isascii() and text.isprintable() and " " not in text:
            return text
    return "https://x.y/Users/1"


def damage(rng, operation, specs):
    operation = dict(operation)
    name = bulk.plural(rng.choice(specs))
    kind = rng.choice(["drop", "drop", "drop", "null", "method", "location", "location", "status", "status", "version",
                       "response", "body", "body", "body", "type", "shape", "error"])
    if kind == "drop":
        operation.pop(rng.choice(list(operation)))
    elif kind == "null":
        operation[rng.choice(list(operation))] = None
    elif kind == "method":
        operation["method"] = rng.choice(["", "HEAD", "post ", *bulk.METHODS, *bulk.METHODS])
    elif kind == "location":
        operation["location"] = rng.choice([f"https://x.y/{name}/2", f"https://x.y/{name}", "https://x.y/Unknowns/1",
                                            f"/{name}/1", "", "x", f"https://x.y/{name.lower()}/1",
                                            f"https://x.y/z{name}/1", f"https://x.y/{name}z/1", near_url(rng, operation.get("location")),
                                            near_url(rng, operation.get("location"))])
    elif kind == "status":
        operation["status"] = rng.choice(["200", "201", "204", "202", "299", "300", "400", "404", "100", "600", "999",
                                          "", "20", "2000", " 200", "2e2", "abc", "000", "-20", "٢٠٠", "+40",
                                          "4_0", gen.near(rng, rng.choice(["200", "201", "404"]))])
    elif kind == "version":
        operation["version"] = rng.choice(['W/"1"', 'W/"2"', "", None, "x", gen.near(rng, operation.get("version") or 'W/"1"')])
        if isinstance(operation.get("response"), dict) and isinstance(operation["response"].get("meta"), dict):
            operation["response"] = dict(operation["response"],
                                         meta=dict(operation["response"]["meta"], version=rng.choice(['W/"1"', "", None])))
    elif kind == "response":
        operation["response"] = rng.choice([gen.json_value(rng, 2), an_error(rng, 400), {"x": 1}])
    elif kind == "body" and isinstance(operation.get("response"), dict) and operation["response"]:
        if rng.random() < 0.7:
            operation["response"] = gen.corrupt(rng, operation["response"], 1)
        else:
            places = [p for p in gen.positions(operation["response"]) if p]
            operation["response"] = gen.delete_at(operation["response"], rng.choice(places))
    elif kind == "error":
        status = rng.choice([400, 404, 500, 299, 600])
        operation["status"] = str(status)
        operation["response"] = an_error(rng, rng.choice([400, 404, status]))
    elif kind == "type":
        operation[rng.choice(["method", "location", "bulkId", "version", "status"])] = rng.choice(
            [5, 200, [], {}, True, ["x"]])
    elif kind == "shape":
        operation = rng.choice([None, 5, "x", [], {}, True, [{}]])
    return operation


def judge(ctx, specs, body, status, limit, tag):
    rng = ctx.rng
    given = copy.deepcopy(body)
    operations = model.find(given, "Operations")
    operations = operations if isinstance(operations, list) else []
    for operation in operations:
        answer = model.find(operation, "response")
        if str(model.find(operation, "method")).upper() == "POST" and bulk.given(answer) and not answer:
            return
    expected, must, may = bulk.response(specs, given, status, limit)
    validator = rv.BulkOperations(make_config(), resource_schemas=[build_schema(s) for s in specs])
    if isinstance(body, dict) and rng.random() < 0.1:
        body = SCIMDataContainer(body)
    kwargs = {} if limit is None and rng.random() < 0.5 else {"fail_on_errors": limit}
    response, issues = ctx.call("bulk", validator.dump_response, status_code=status, body=body, **kwargs)
    found = issue_set(issues)
    lost, odd = matches(found, must, may)
    witness = dict(body=given, status=status, limit=limit, endpoints=[bulk.plural(s) for s in specs])
    ctx.expect(not lost, "violation is not reported", lost=lost, found=found, **witness)
    ctx.expect(not odd, "consistent part is reported", odd=odd, found=found, **witness)
    ctx.expect((response.body is None) == bool(found), "response is released exactly when it is consistent", **witness)
    ctx.sample((tag, given))
    for _, code in must:
        ctx.seen(f"code_{code}")
    shape = tuple((str(model.find(o, "method")).upper()[:6], str(model.find(o, "status"))[:3]) for o in operations)
    ctx.sig(tag, shape, limit, tuple(sorted((len(loc), code) for loc, code in must))[:8])
    if expected is None:
        ctx.seen("held_back")
        return
    ctx.seen("released")
    schemas, wanted = expected
    out = plain(response.body)
    ctx.expect(same_data(model.find(out, "schemas"), schemas), "declared schemas differ", **witness)
    released = model.find(out, "Operations")
    ctx.same(len(released), len(wanted), "operations are lost or added", **witness)
    for i, (operation, want) in enumerate(zip(released, wanted)):
        for name in ("method", "location", "bulkId", "version", "status"):
            ctx.expect(same_data(model.find(operation, name), want.get(name, MISSING)), "operation differs", part=name,
                       at=i, released=operation, wanted=want, **witness)
        answer = model.find(operation, "response")
        if not bulk.given(want["response"]):
            ctx.expect(not bulk.given(answer), "operation carries a response", at=i, released=operation, **witness)
            ctx.seen("released_" + want["method"])
        else:
            ctx.expect(same_data(answer, want["response"]), "another response is released", at=i, released=operation,
                       wanted=want, **witness)
            ctx.seen("released_body_" + want["method"])


def responses(ctx, index):
    rng = ctx.rng
    specs = some_specs(rng)
    for _ in range(3):
        chance = rng.choice([0, 0, 0.1, 0.3])
        n = rng.choice([0, 1, 1, 2, 3, 4, 6])
        body = {"schemas": [bulk.RESPONSE_URN],
                "Operations": [operation_for(rng, specs, rng.random() >= chance) for _ in range(n)]}
        if duplicated(body):
            continue
        failed = sum(1 for o in body["Operations"]
                     if str(model.find(o, "status")).isdecimal() and int(model.find(o, "status")) >= 300)
        limit = rng.choice([None, None, failed, failed + 1, max(0, failed - 1), 0])
        status = 200 if rng.random() < 0.92 else rng.choice([201, 204, 400, 207, 0])
        judge(ctx, specs, body, status, limit, "responses")


def one_operation(ctx, index):
    """One damaged operation among good ones, or alone."""
    rng = ctx.rng
    specs = some_specs(rng)
    for _ in range(4):
        operations = [operation_for(rng, specs, True) for _ in range(rng.choice([1, 1, 2, 3, gen.few(rng, 3, 6, 14)]))]
        i = rng.randrange(len(operations))
        operations[i] = operation_for(rng, specs, False)
        body = {"schemas": [bulk.RESPONSE_URN], "Operations": operations}
        if duplicated(body):
            continue
        judge(ctx, specs, body, 200, None, "one")


def look_alikes(ctx, index):
    """What an operation says and what its resource says are almost the same."""
    rng = ctx.rng
    specs = some_specs(rng)
    for _ in range(4):
        spec = rng.choice(specs)
        method = rng.choice(["GET", "POST", "PUT", "PATCH"])
        location = rng.choice(["https://example.com", "http://h/v2"]) + f"/{bulk.plural(spec)}/" + rng.choice(["1", "x-y", "Ab"])
        version = rng.choice(['W/"1"', 'W/"1"', '"1"', "1", "v10", "W/a", 'w/"Ab"', gen.text(rng) or "1"])
        response = fine_body(rng, spec)
        meta = dict(response.get("meta") or {}, location=location, version=version)
        operation = {"method": method, "location": location, "version": version, "bulkId": "q",
                     "status": "201" if method == "POST" else "200", "response": dict(response, meta=meta)}
        variants = [
            version.replace("W/", ""), "W/" + version, f'"{version}"', version.strip('"'), version.strip('W/"'), version.lower(),
            version.upper(), version.swapcase(), version + " ", " " + version, gen.near(rng, version), gen.near(rng, version),
            version[::-1], version, "*",
        ]
        if rng.random() < 0.6:
            if rng.random() < 0.5:
                operation["version"] = rng.choice(variants)
            else:
                meta["version"] = rng.choice(variants)
        else:
            other = rng.choice([near_url(rng, location), near_url(rng, location), location + "/", location.rstrip("1"),
                                location.lower(), location.upper(), location.replace("http", "HTTP"),
                                location.replace("https:", "http:"), location.partition(":")[2], location + "?", location + "#",
                                "/" + location.split("/", 3)[3]])
            if rng.random() < 0.5:
                operation["location"] = other
            else:
                meta["location"] = other
        judge(ctx, specs, {"schemas": [bulk.RESPONSE_URN], "Operations": [operation]}, 200, None, "alike")


def envelopes(ctx, index):
    rng = ctx.rng
    specs = some_specs(rng)
    body = {"schemas": [bulk.RESPONSE_URN],
            "Operations": [operation_for(rng, specs, True) for _ in range(rng.choice([1, 2]))]}
    r = rng.random()
    if r < 0.25:
        body["schemas"] = rng.choice([None, [], [bulk.RESPONSE_URN.upper()], ["urn:x"], [bulk.RESPONSE_URN, "urn:x"],
                                      "x", 5, [None]])
    elif r < 0.5:
        body["Operations"] = rng.choice([None, [], {}, "x", [None], [[]], [5, body["Operations"][0]], True])
    elif r < 0.6:
        body.pop(rng.choice(list(body)))
    elif r < 0.7:
        body = rng.choice([None, [], "x", 5, {}, True])
    else:
        body = gen.recase(rng, gen.add_unknown(rng, body), 0.3)
    if duplicated(body):
        return
    judge(ctx, specs, body, rng.choice([200, 200, 200, 400]), rng.choice([None, 0, 5]), "envelope")


STREAMS = {
    "responses": (responses, 1500, 25000),
    "one_operation": (one_operation, 1500, 20000),
    "envelopes": (envelopes, 1500, 10000),
    "look_alikes": (look_alikes, 1200, 15000),
}
FLOORS = {"released": 1500, "held_back": 2000, "code_1": 50, "code_11": 200, "code_12": 20, "code_13": 100, "code_15": 500,
          "code_16": 200, "code_36": 100, "code_38": 200, "released_DELETE": 300, "released_body_GET": 200,
          "released_body_POST": 200, "released_body_PUT": 200, "released_body_PATCH": 200}
