"""Reference models of single requests and responses, over plain data.

Every function returns (delivered data or None, set of (location, code)).
"""
from vlib import model
from vlib.lib import INVALID, MISSING


def server_issued(spec):
    """Names of required attributes the server fills in."""
    found = []
    for urn, attr in model.all_attrs(spec):
        schema = urn or spec["schema"]
        if attr.get("required") and attr.get("issuer") == "server":
            found.append((schema, attr["name"], ""))
        for sub in attr.get("sub", []):
            if sub.get("required") and sub.get("issuer") == "server":
                found.append((schema, attr["name"], sub["name"]))
    return found


def writable(spec, data):
    """Processed data without the attributes a client may not write."""
    out = {}
    for urn, attr in model.all_attrs(spec):
        value = model.find(data if urn is None else model.find(data, urn), attr["name"])
        if value is MISSING or attr.get("mutability") == "readOnly":
            continue
        hidden = {s["name"] for s in attr.get("sub", []) if s.get("mutability") == "readOnly"}
        if isinstance(value, dict):
            value = {k: v for k, v in value.items() if k not in hidden}
        elif isinstance(value, list):
            value = [
                {k: v for k, v in item.items() if k not in hidden} if isinstance(item, dict) else item
                for item in value
            ]
        (out if urn is None else out.setdefault(urn, {}))[attr["name"]] = value
    return out


def pruned(data):
    """Data in which an empty complex value or namespace means the same as none."""
    if isinstance(data, dict):
        out = {k: pruned(v) for k, v in data.items()}
        return {k: v for k, v in out.items() if v != {}}
    if isinstance(data, list):
        return [pruned(v) for v in data]
    return data


def create(spec, body):
    data, issues = model.process(spec, body, "parse")
    if data is not INVALID:
        issues = issues | model.presence(spec, data, "REQUEST", exempt=server_issued(spec))
    return (None if issues else data), model.under(issues, "body")


def replace(spec, body):
    data, issues = model.process(spec, body, "parse")
    if data is not INVALID:
        issues = issues | model.presence(spec, data, "REQUEST")
    return (None if issues else writable(spec, data)), model.under(issues, "body")


def respond(spec, body, status, expected_status, headers=None, header_required=False, requested=(), include=None):
    """A response carrying one resource."""
    data, issues = model.process(spec, body, "dump")
    if data is not INVALID:
        issues = issues | model.presence(spec, data, "RESPONSE", requested, include)
    blocked = any(loc in ((), ("meta",), ("meta", "location")) for loc, code in issues if code != 19)
    issues = model.under(issues, "body")
    location = headers.get("Location") if isinstance(headers, dict) else None
    if header_required and not (isinstance(headers, dict) and "Location" in headers):
        issues.add((("headers", "Location"), 10))
    if status != expected_status:
        issues.add((("status",), 16))
    if location is not None and not blocked:
        in_body = model.find(model.find(data, "meta"), "location")
        if in_body != location:
            issues.add((("body", "meta", "location"), 11))
            issues.add((("headers", "Location"), 11))
    return (None if issues else data), issues


# patch requests ---------------------------------------------------------------------------------

SCHEMAS_ATTR = [a for a in model.COMMON if a["name"] == "schemas"]
PATCH_URN = "urn:ietf:params:scim:api:messages:2.0:PatchOp"
PATCH = {
    "schema": PATCH_URN,
    "name": "PatchOp",
    "common": SCHEMAS_ATTR,
    "attrs": [
        {
            "name": "Operations",
            "type": "complex",
            "multi": True,
            "required": True,
            "sub": [
                {"name": "op", "type": "string", "required": True, "canonical": ["add", "remove", "replace"],
                 "enforce": True},
                {"name": "path", "type": "string"},
                {"name": "value", "type": "unknown"},
            ],
        }
    ],
}
ANY = "any"  # stands for whatever code says that a path is malformed


def target(spec, rep):
    """(namespace, attribute, sub-attribute or None) a name addresses, or None."""
    for urn, attr in model.all_attrs(spec):
        if not model.rep_equal((urn or spec["schema"], attr["name"], ""), (rep[0], rep[1], "")):
            continue
        if not rep[2]:
            return urn, attr, None
        for sub in attr.get("sub", []):
            if sub["name"].lower() == rep[2].lower():
                return urn, attr, sub
    return None


def read_only(attr):
    return attr.get("mutability") == "readOnly"


def read_only_subs(attr, value):
    """Locations, in a value of the attribute, of sub-attributes a client may not write."""
    found = set()
    for sub in attr.get("sub", []):
        if not read_only(sub):
            continue
        if isinstance(value, dict) and sub["name"] in value:
            found.add((sub["name"],))
        elif isinstance(value, list):
            found |= {
                (str(i), sub["name"])
                for i, item in enumerate(value)
                if isinstance(item, dict) and sub["name"] in item
            }
    return found


def missing_subs(attr, value, issues):
    """Required sub-attributes new items lack; items with other issues are not looked into."""
    found = set()
    if attr["type"] != "complex" or not attr.get("multi") or not isinstance(value, list):
        return found
    for i, item in enumerate(value):
        if not isinstance(item, dict) or any(loc[:1] == (str(i),) for loc, _ in issues):
            continue
        for sub in attr["sub"]:
            if not sub.get("required") or sub.get("issuer") == "server":
                continue
            if not model.has_value(model.find(item, sub["name"])):
                found.add(((str(i), sub["name"]), 15))
    return found


def patch(spec, body, read_path):
    """`read_path` gives (target, filter tree, sub-attribute) of a text, or None."""
    data, issues = model.process(PATCH, body, "parse")
    if data is INVALID:
        return None, model.under(issues, "body")
    operations = data.get("Operations", MISSING)
    delivered = []
    if isinstance(operations, list):
        per_op = [set() for _ in operations]
        paths = []
        for i, operation in enumerate(operations):
            path = operation.get("path") if isinstance(operation, dict) else None
            if isinstance(path, str):
                path = read_path(path)
                if path is None:
                    per_op[i].add((("path",), ANY))
            else:
                path = None
            paths.append(path)
            per_op[i] |= {(loc[2:], code) for loc, code in issues if loc[:2] == ("Operations", str(i))}
        clean = not any(per_op)
        for i, operation in enumerate(operations):
            if per_op[i]:
                continue
            op = operation.get("op")
            if op is None:
                continue
            value = operation.get("value", MISSING)
            if clean:
                early = set()
                if op.lower() == "remove" and paths[i] is None:
                    early.add((("path",), 15))
                if op.lower() == "add":
                    if value is None or value is MISSING:
                        early.add((("value",), 15))
                    if paths[i] is not None and paths[i][1] is not None and paths[i][2] is None:
                        early.add((("path",), 305))
                if early:
                    per_op[i] |= early
                    continue
            elif op.lower() == "remove" and paths[i] is None:
                per_op[i].add((("path",), 15))
                continue
            result, found = one_operation(spec, op.lower(), paths[i], value)
            per_op[i] |= found
            delivered.append(result)
        issues = {(loc, code) for loc, code in issues if loc[:1] != ("Operations",) or len(loc) == 1}
        for i, found in enumerate(per_op):
            issues |= model.under(found, "Operations", str(i))
    issues = issues | model.presence(PATCH, data, "REQUEST")
    return (None if issues else delivered), model.under(issues, "body")


def one_operation(spec, op, path, value):
    if path is None:
        data, issues = model.process(spec, value, "parse")
        issues = {
            (loc, code) for loc, code in issues if not (loc == ("schemas",) and code in (27, 28, 29))
        }
        if data is INVALID:
            return None, model.under(issues, "value")
        missing = set()
        for urn, attr in model.all_attrs(spec):
            given = model.find(data if urn is None else model.find(data, urn), attr["name"])
            if given is MISSING:
                continue
            prefix = (attr["name"],) if urn is None else (urn, attr["name"])
            if read_only(attr):
                issues.add((prefix, 304))
            issues |= {(prefix + loc, 304) for loc in read_only_subs(attr, given)}
            below = {(loc[len(prefix) :], code) for loc, code in issues if loc[: len(prefix)] == prefix}
            missing |= model.under(missing_subs(attr, given, below), *prefix)
        return {"op": op, "path": None, "value": data}, model.under(issues | missing, "value")

    rep, tree, sub_rep = path
    found = target(spec, rep)
    found_sub = target(spec, sub_rep) if sub_rep is not None else None
    if found is None or (sub_rep is not None and found_sub is None):
        return None, {(("path",), 303)}
    _, attr, sub = found_sub or found
    if op == "remove":
        issues = set()
        if read_only(attr) or (sub is not None and read_only(sub)):
            issues.add((("path",), 304))
        last = attr if sub is None else sub
        if last.get("required") and not (sub is None and tree is not None and attr["type"] == "complex"):
            issues.add((("path",), 306))
        return {"op": op, "path": path}, issues
    if read_only(attr) or (sub is not None and read_only(sub)):
        return None, {(("value",), 304)}
    last = attr if sub is None else sub
    if value is MISSING:
        return None, {(("value",), 2)}
    parsed, issues = model.process_attr(
        last, value, "parse", identifier=last["name"] == "id" and found[0] is None and sub is None
    )
    if not issues:
        issues = {(loc, 304) for loc in read_only_subs(last, parsed)}
    issues = issues | missing_subs(last, parsed, issues)
    return {"op": op, "path": path, "value": parsed}, model.under(issues, "value")


# error responses --------------------------------------------------------------------------------

ERROR_URN = "urn:ietf:params:scim:api:messages:2.0:Error"
SCIM_TYPES = ["invalidFilter", "tooMany", "uniqueness", "mutability", "invalidSyntax", "invalidPath", "noTarget",
              "invalidValue", "invalidVers", "sensitive"]
ERROR = {
    "schema": ERROR_URN,
    "name": "Error",
    "common": SCHEMAS_ATTR,
    "attrs": [
        {"name": "status", "type": "string", "required": True, "returned": "always"},
        {"name": "scimType", "type": "string", "returned": "always", "canonical": SCIM_TYPES, "enforce": True},
        {"name": "detail", "type": "string", "returned": "always"},
    ],
}


def error(body, status):
    data, issues = model.process(ERROR, body, "dump")
    if data is not INVALID:
        issues = issues | model.presence(ERROR, data, "RESPONSE")
    blocked = any(loc in ((), ("status",)) for loc, _ in issues)
    issues = model.under(issues, "body")
    if not blocked and data["status"] != str(status):
        issues |= {(("body", "status"), 13), (("status",), 13)}
    if not 300 <= status < 600:
        issues.add((("status",), 12))
    return (None if issues else data), issues
