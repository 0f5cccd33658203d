import copy

from vlib import gen, model, single
from vlib.lib import error as error_schema
from vlib.lib import AttributePresenceChecker, SCIMDataContainer, build_schema, issue_set, make_config, plain, rv, same_data
from vlib.props.c10 import duplicated
from vlib.props.c13 import selection

RULE = (
    "responses of every method with right and wrong statuses, matching, differing, missing and odd Location headers, "
    "bodies that fit and bodies damaged at any position, attribute selections, and error responses over all status "
    "combinations; counted by method, status, header and set of reported issues"
)
ASSUMPTIONS = [
    "a create response without a body, and the body of a 204 patch response, are not looked at",
    "a Location header is not null",
]
LOCATIONS = ["https://example.com/Users/1", "https://example.com/Users/2", "/Users/1", "HTTPS://example.com/Users/1",
             "https://example.com/Users/1 ", "", "x"]


def release(ctx, response, issues, expected, expected_issues, what, **witness):
    found = issue_set(issues)
    ctx.same(found, expected_issues, "issues differ", what=what, **witness)
    if expected is None:
        ctx.expect(response.body is None, "body is released together with an issue", what=what, **witness)
        ctx.seen("held_back")
    else:
        ctx.expect(isinstance(response.body, dict) and same_data(plain(response.body), expected),
                   "another body is released", what=what, released=response.body, expected=expected, **witness)
        ctx.seen("released")
    return found


def a_body(rng, spec, clean=0.85, density=None):
    density = rng.choice([0.2, 0.6, 0.9]) if density is None else density
    body = gen.resource(rng, spec, "dump", density=density, required_all=rng.random() < max(clean, 0.9))
    # what must never be returned is mostly not there
    if rng.random() < clean:
        for urn, attr in model.all_attrs(spec):
            namespace = body if urn is None else body.get(urn, {})
            if attr["name"] in namespace and attr.get("returned") == "never":
                del namespace[attr["name"]]
            hidden = {s["name"] for s in attr.get("sub", []) if s.get("returned") == "never"}
            value = namespace.get(attr["name"])
            for item in value if isinstance(value, list) else [value]:
                if isinstance(item, dict):
                    for name in hidden:
                        item.pop(name, None)
    return body


def single_responses(ctx, index):
    rng = ctx.rng
    spec = gen.some_spec(rng)
    schema = build_schema(spec)
    method = rng.choice(["GET", "PUT", "POST", "PATCH"])
    cls = {"GET": rv.ResourceObjectGET, "PUT": rv.ResourceObjectPUT, "POST": rv.ResourcesPOST,
           "PATCH": rv.ResourceObjectPATCH}[method]
    validator = cls(make_config(), resource_schema=schema)
    right = 201 if method == "POST" else 200
    for _ in range(4):
        body = a_body(rng, spec)
        location = rng.choice(LOCATIONS)
        headers = rng.choice([None, {}, {"X": "1"}, {"Location": location}, {"Location": location, "ETag": "1"},
                              {"Location": location}])
        if rng.random() < 0.7 and isinstance(headers, dict) and "Location" in headers:
            body["meta"] = dict(body.get("meta") or {}, location=location)
        elif rng.random() < 0.6:
            body["meta"] = dict(body.get("meta") or {}, location=rng.choice([rng.choice(LOCATIONS), gen.near(rng, location)]))
        r = rng.random()
        tag = "valid"
        if r < 0.2:
            tag = "corrupt"
            body = gen.corrupt(rng, body, rng.choice([1, 1, 2]))
        elif r < 0.28:
            tag = "meta"
            body["meta"] = rng.choice([None, 5, [], {}, {"location": None}, {"location": 5}, {"location": ""},
                                       {"resourceType": "nope", "location": location}])
        elif r < 0.33:
            tag = "odd"
            body = rng.choice([None, [], "x", 5, {}, True])
        if rng.random() < 0.3:
            body = gen.recase(rng, body)
        if duplicated(body):
            continue
        status = right if rng.random() < 0.85 else rng.choice([200, 201, 202, 204, 400, 0, 404])
        include, texts, parts = None, [], []
        if rng.random() < 0.3:
            texts, parts = selection(rng, spec)
            include = rng.random() < 0.4
        checker = None
        if include is not None:
            checker, _ = AttributePresenceChecker.parse(texts, include)
        given, given_headers = copy.deepcopy(body), copy.deepcopy(headers)
        if isinstance(body, dict) and rng.random() < 0.2:
            body = SCIMDataContainer(body)
        response, issues = ctx.call(method, validator.dump_response, status_code=status, body=body, headers=headers,
                                    presence_checker=checker)
        if method == "POST" and not given:
            if given is None:
                ctx.same(issue_set(issues), set(), "create response without a body has issues", body=given)
            continue
        if method == "PATCH" and status == 204:
            expected = None
            expected_issues = {(("status",), 16)} if parts else set()
        else:
            expected, expected_issues = single.respond(
                spec, given, status, right, given_headers, method == "POST", parts, include
            )
        release(ctx, response, issues, expected, expected_issues, method, schema=spec["schema"], body=given,
                status=status, headers=given_headers, names=texts, include=include)
        ctx.sample((method, status, given_headers, given))
        for _, code in expected_issues:
            ctx.seen(f"code_{code}")
        if expected is not None and model.find(given_headers, "Location") is not model.MISSING:
            ctx.seen("consistent_location")
        ctx.sig(tag, method, status, bool(headers), include,
                tuple(sorted((len(loc), code) for loc, code in expected_issues))[:8])


def deletions(ctx, index):
    rng = ctx.rng
    status = rng.choice([204, 204, 200, 201, 202, 205, 404, 500, 0, 20, 2040, rng.randint(100, 599)])
    headers = rng.choice([None, {}, {"X": "1"}])
    validator = rv.ResourceObjectDELETE(make_config())
    response, issues = ctx.call("DELETE", validator.dump_response, status_code=status, headers=headers)
    ctx.same(issue_set(issues), set() if status == 204 else {(("status",), 16)}, "deletion is judged wrongly",
             status=status)
    ctx.expect(response.body is None, "deletion has a body", body=response.body)
    ctx.seen("deletion")
    ctx.sig("DELETE", status)


def errors(ctx, index):
    rng = ctx.rng
    validator = rv.Error()
    for _ in range(4):
        status = rng.choice([300, 301, 400, 404, 409, 412, 500, 501, 599, 299, 600, 200, 204, 0, -400, 100, 1000,
                             rng.randint(100, 700)])
        body = {"schemas": [single.ERROR_URN], "status": str(status)}
        if rng.random() < 0.4:
            body["detail"] = gen.text(rng)
        if rng.random() < 0.4:
            body["scimType"] = gen.recase_text(rng, rng.choice(single.SCIM_TYPES + ["nope", "", gen.near(rng, rng.choice(single.SCIM_TYPES))]))
        r = rng.random()
        if r < 0.25:
            body["status"] = rng.choice(["400", "404", str(status + 1), gen.near(rng, str(status)), gen.near(rng, str(status)), f" {status}", f"{status}.0", "", "x", status,
                                         None, f"0{status}", [str(status)], "500"])
        elif r < 0.35:
            body = gen.corrupt(rng, body, 1)
        elif r < 0.45:
            body.pop(rng.choice(list(body)))
        elif r < 0.55:
            body["schemas"] = rng.choice([[], None, [single.ERROR_URN.upper()], [gen.near(rng, single.ERROR_URN)], ["urn:x"], [single.ERROR_URN, "urn:x"],
                                          "x"])
        elif r < 0.6:
            body = rng.choice([None, [], 5, "x", {}])
        if isinstance(body, dict) and rng.random() < 0.3:
            body = gen.recase(rng, gen.add_unknown(rng, body))
        if duplicated(body):
            continue
        given = copy.deepcopy(body)
        headers = rng.choice([None, {"X": "1"}])
        response, issues = ctx.call("error", validator.dump_response, status_code=status, body=body, headers=headers)
        expected, expected_issues = single.error(given, status)
        release(ctx, response, issues, expected, expected_issues, "error", body=given, status=status)
        for _, code in expected_issues:
            ctx.seen(f"error_{code}")
        if expected is not None:
            ctx.seen("error_released")
        ctx.sig("error", status // 100, tuple(sorted((len(loc), code) for loc, code in expected_issues)))


def read_errors(ctx, index):
    """An error body as a client reads it: the status becomes a number of the error range."""
    rng = ctx.rng
    schema = error_schema.Error()
    for _ in range(4):
        status = rng.choice(["300", "400", "404", "599", "299", "600", "200", "0", "1000", "x", "", "4.0", "4e2", "four", "400x",
                             str(rng.randint(100, 700)), str(rng.randint(300, 599))])
        body = {"schemas": [single.ERROR_URN], "status": status}
        if rng.random() < 0.5:
            body["scimType"] = rng.choice(single.SCIM_TYPES)
        if rng.random() < 0.5:
            body["detail"] = gen.text(rng)
        number = int(status) if status.isdigit() and status.isascii() else None
        data, issues = ctx.call("read", schema.parse, gen.recase(rng, body) if rng.random() < 0.3 else body)
        fits = number is not None and 300 <= number < 600
        ctx.same(issue_set(issues), set() if fits else {(("status",), 12)}, "error body is judged wrongly", body=body)
        if fits:
            got = {k.lower(): v for k, v in data.to_dict().items()}
            ctx.same(got, {**{k.lower(): v for k, v in body.items()}, "status": number}, "error body is read wrongly", body=body)
            ctx.seen("read_error")
        else:
            ctx.seen("read_error_refused")
        ctx.sig("read", number is not None, fits, len(body))


def predefined(ctx, index):
    """Error bodies that come with the library."""
    from src.assets import scim_error

    found = 0
    for name, body in sorted(vars(scim_error).items()):
        if not name.isupper() or not isinstance(body, dict):
            continue
        found += 1
        body = dict(body, schemas=[single.ERROR_URN])
        given = copy.deepcopy(body)
        ctx.expect(isinstance(body.get("detail"), str) and body["detail"].strip() and set(body) == {"schemas", "status", "scimType", "detail"},
                   "predefined error does not tell its status, type and detail", name=name, body=given)
        status = int(body["status"])
        for status in (int(body["status"]), ctx.rng.choice([200, 299, 400, 401, 403, 404, 409, 500])):
            response, issues = ctx.call("error", rv.Error().dump_response, status_code=status, body=body)
            expected, expected_issues = single.error(given, status)
            if str(status) == given["status"]:
                ctx.same(issue_set(issues), set(), "predefined error is not valid", name=name, body=given)
            release(ctx, response, issues, expected, expected_issues, "error", body=given, status=status)
            ctx.seen("predefined")
        ctx.same(body, given, "predefined error is changed", name=name)
        ctx.sig("predefined", name)
    ctx.expect(found > 0, "there are no predefined errors")


STREAMS = {
    "predefined": (predefined, 4, 8),
    "single_responses": (single_responses, 2200, 40000),
    "deletions": (deletions, 400, 2000),
    "errors": (errors, 3000, 30000),
    "read_errors": (read_errors, 300, 3000),
}
FLOORS = {"released": 2000, "held_back": 2000, "code_11": 300, "code_10": 50, "code_16": 200, "code_19": 200,
          "code_15": 100, "error_12": 500, "error_13": 500, "error_released": 500, "consistent_location": 200,
          "deletion": 300, "read_error": 200, "read_error_refused": 200}
