"""Reference models of bulk requests and responses, over plain data."""
from vlib import model, single
from vlib.lib import INVALID, MISSING

METHODS = ["GET", "POST", "PATCH", "PUT", "DELETE"]
REQUEST_URN = "urn:ietf:params:scim:api:messages:2.0:BulkRequest"
RESPONSE_URN = "urn:ietf:params:scim:api:messages:2.0:BulkResponse"
METHOD = {"name": "method", "type": "string", "required": True, "canonical": METHODS, "enforce": True}
REQUEST = {
    "schema": REQUEST_URN,
    "name": "BulkRequest",
    "common": single.SCHEMAS_ATTR,
    "attrs": [
        {"name": "failOnErrors", "type": "integer"},
        {"name": "Operations", "type": "complex", "multi": True, "required": True, "sub": [
            METHOD,
            {"name": "bulkId", "type": "string"},
            {"name": "version", "type": "string"},
            {"name": "path", "type": "string", "required": True},
            {"name": "data", "type": "unknown"},
        ]},
    ],
}
RESPONSE = {
    "schema": RESPONSE_URN,
    "name": "BulkResponse",
    "common": single.SCHEMAS_ATTR,
    "attrs": [
        {"name": "Operations", "type": "complex", "multi": True, "required": True, "sub": [
            METHOD,
            {"name": "bulkId", "type": "string"},
            {"name": "version", "type": "string"},
            {"name": "location", "type": "extref"},
            {"name": "status", "type": "string", "required": True},
            {"name": "response", "type": "unknown"},
        ]},
    ],
}


def plural(spec):
    return spec.get("plural") or spec["name"] + "s"


def is_word(text):
    return bool(text) and all(c.isalnum() or c == "_" for c in text)


def path_form(method, path):
    """Code of what is wrong with the form of a path, or None."""
    parts = path.split("/")
    if method == "POST":
        fine = len(parts) == 2 and parts[0] == "" and is_word(parts[1])
        return None if fine else 34
    fine = len(parts) > 2 and parts[0] == "" and is_word(parts[1])
    return None if fine else 35


def given(value):
    return value is not None and value is not MISSING


def data_of(spec, method, data, read):
    """(what the single request would deliver, issues)"""
    if method == "POST":
        return single.create(spec, data)
    if method == "PUT":
        return single.replace(spec, data)
    return single.patch(spec, data, read)


def request(specs, body, maximum, read):
    """(delivered operations or None, issues that must be reported, issues that may be)"""
    data, issues = model.process(REQUEST, body, "parse")
    if data is INVALID:
        return None, model.under(issues, "body"), set()
    must, may = issues | model.presence(REQUEST, data, "REQUEST"), set()
    operations = data.get("Operations", MISSING)
    if not isinstance(operations, list):
        return None, model.under(must, "body"), set()
    # operations are looked at one by one when all are of the right shape; otherwise they may be
    shaped = not any(loc[:1] == ("Operations",) for loc, _ in issues)
    delivered = []
    for i, operation in enumerate(operations):
        if not isinstance(operation, dict):
            continue
        found = set()
        method, path = operation.get("method", MISSING), operation.get("path", MISSING)
        payload = operation.get("data", MISSING)
        if isinstance(method, str):
            method = method.upper()
        if not given(method):
            found.add((("method",), 15))
        if method == "POST" and not given(operation.get("bulkId", MISSING)):
            found.add((("bulkId",), 15))
        form = None
        if not given(path):
            found.add((("path",), 15))
        elif isinstance(path, str) and method in METHODS:
            form = path_form(method, path)
            if form:
                found.add((("path",), form))
        if method in ("POST", "PUT", "PATCH") and not given(payload):
            found.add((("data",), 15))
            if not shaped:
                found.add((("data",), 2))
        out = None
        if isinstance(path, str) and path and method in METHODS:
            name = path.split("/")[1] if form is None else None
            spec = next((s for s in specs if plural(s) == name), None)
            if spec is None and (form is None or not shaped):
                found.add((("path",), 36))
            if spec is None and form and not shaped:
                # which resource it is about is not clear
                for s in specs:
                    if plural(s) in path and method in ("POST", "PUT", "PATCH"):
                        _, below = data_of(s, method, payload, read)
                        found |= {(("data",) + loc[1:], code) for loc, code in below}
            if spec is not None and method in ("POST", "PUT", "PATCH") and given(payload):
                out, below = data_of(spec, method, payload, read)
                found |= {(("data",) + loc[1:], code) for loc, code in below}
        if shaped:
            must |= model.under(found, "Operations", str(i))
        else:
            may |= model.under(found, "Operations", str(i))
        wanted = {k: operation[k] for k in ("bulkId", "version") if k in operation}
        wanted.update(method=method, path=path)
        if out is not None:
            wanted["data"] = out
        delivered.append(wanted)
    if maximum is not None and len(operations) > maximum:
        must.add((("Operations",), 37))
    envelope = {k: v for k, v in data.items() if k != "Operations"}
    result = None if must else (envelope, delivered)
    return result, model.under(must, "body"), model.under(may, "body")


EXPECTED_STATUS = {"GET": 200, "POST": 201, "PUT": 200, "PATCH": 200}


def is_status(text):
    return len(text) == 3 and all(c in "0123456789" for c in text)


def response(specs, body, status, limit):
    """(released operations or None, issues that must be reported, issues that may be)"""
    data, issues = model.process(RESPONSE, body, "dump")
    outer = set() if status == 200 else {(("status",), 16)}
    if data is INVALID:
        return None, model.under(issues, "body") | outer, set()
    operations = data.get("Operations", MISSING)
    if isinstance(operations, list):
        for i, operation in enumerate(operations):
            text = operation.get("status") if isinstance(operation, dict) else None
            if isinstance(text, str) and not is_status(text):
                operation["status"] = INVALID
                issues.add((("Operations", str(i), "status"), 1))
    must, may = issues | model.presence(RESPONSE, data, "RESPONSE"), set()
    if not isinstance(operations, list):
        return None, model.under(must, "body") | outer, set()
    shaped = not any(loc[:1] == ("Operations",) for loc, _ in issues)
    failed = 0
    released = []
    for i, operation in enumerate(operations):
        if not isinstance(operation, dict):
            continue
        found = set()
        method = operation.get("method", MISSING)
        method = method.upper() if isinstance(method, str) else method
        code = operation.get("status", MISSING)
        location = operation.get("location", MISSING)
        answer = operation.get("response", MISSING)
        number = int(code) if isinstance(code, str) else None
        if not given(method):
            found.add((("method",), 15))
        if method == "POST" and not given(operation.get("bulkId", MISSING)):
            found.add((("bulkId",), 15))
        if not given(code):
            found.add((("status",), 15))
        if number is not None:
            if not given(location) and method in METHODS and (method != "POST" or number < 300):
                found.add((("location",), 15))
            if number >= 300 and not given(answer):
                found.add((("response",), 15))
        spec = None
        if isinstance(location, str) and method in METHODS:
            spec = next((s for s in specs if f"/{plural(s)}/" in location), None)
            if spec is None:
                found.add((("location",), 36))
        out = answer
        if number is not None and method in METHODS:
            if number >= 300:
                failed += 1
                if given(answer):
                    out, below = single.error(answer, number)
                    found |= {((("response",) + loc[1:]) if loc[0] == "body" else loc, c) for loc, c in below}
            elif method == "DELETE":
                out = MISSING
                if spec is not None and number != 204:
                    found.add((("status",), 16))
            elif spec is not None and given(answer):
                if method == "PATCH" and number == 204:
                    out = None
                else:
                    out, below = single.respond(spec, answer, number, EXPECTED_STATUS[method],
                                                {"Location": location}, method == "POST")
                    for loc, c in below:
                        if loc[0] == "body":
                            found.add((("response",) + loc[1:], c))
                        else:
                            found.add((loc if loc[0] == "status" else ("location",), c))
                    if out is not None:
                        version = model.find(model.find(out, "meta"), "version")
                        claimed = operation.get("version")
                        if claimed and given(version) and version and claimed != version:
                            found.add((("response", "meta", "version"), 11))
                            found.add((("version",), 11))
        if shaped:
            must |= model.under(found, "Operations", str(i))
        else:
            may |= model.under(found, "Operations", str(i))
        wanted = {k: operation[k] for k in ("bulkId", "version", "location", "status") if k in operation}
        wanted.update(method=method, response=out)
        released.append(wanted)
    if limit is not None and failed > limit:
        (must if shaped else may).add((("Operations",), 38))
    result = None if must or outer else (data.get("schemas"), released)
    return result, model.under(must, "body") | outer, model.under(may, "body")
