import copy

from vlib import gen, model
from vlib.core import Skip
from vlib.lib import SCIMDataContainer, issue_set, make_config, plain, rv, same_data, schema_doc
from vlib.props.c10 import duplicated
from vlib.props.c17 import a_body
from vlib.props.c18 import LIST_URN, truth

RULE = (
    "schema and resource type documents made from generated schemas, and such documents damaged at any depth, dumped "
    "alone and through the discovery endpoints, and queries of those; counted by place and kind of the damage and set of issues"
)
ASSUMPTIONS = [
    "descriptions of sub-attributes from which a mandatory member is missing (other than caseExact of a text) are not judged",
    "when several kinds of violations meet, some of them are reported, not all",
]
SCHEMA_URN = "urn:ietf:params:scim:schemas:core:2.0:Schema"


def fixed(name, *values):
    return {"name": name, "type": "string", "required": True, "canonical": list(values), "enforce": True}


TYPES = ["string", "integer", "decimal", "boolean", "reference", "dateTime", "binary", "complex"]
MUTABILITY = ["readOnly", "readWrite", "immutable", "writeOnly"]
RETURNED = ["always", "never", "default", "request"]
UNIQUENESS = ["none", "server", "global"]
DOCUMENT = {
    "builtin": "Schema",
    "schema": SCHEMA_URN,
    "name": "Schema",
    "common": [a if a["name"] != "id" else {"name": "id", "type": "string"} for a in model.COMMON],
    "attrs": [
        {"name": "name", "type": "string"},
        {"name": "description", "type": "string"},
        {
            "name": "attributes", "type": "complex", "multi": True, "descriptions": True,
            "sub": [
                {"name": "name", "type": "string", "required": True},
                fixed("type", *TYPES),
                {"name": "subAttributes", "type": "unknown"},
                {"name": "multiValued", "type": "boolean", "required": True},
                {"name": "description", "type": "string"},
                {"name": "required", "type": "boolean", "required": True},
                {"name": "canonicalValues", "type": "unknown", "multi": True},
                {"name": "caseExact", "type": "boolean"},
                fixed("mutability", *MUTABILITY),
                fixed("returned", *RETURNED),
                fixed("uniqueness", *UNIQUENESS),
                {"name": "referenceTypes", "type": "string", "multi": True},
            ],
        },
    ],
}
MANDATORY = {s["name"].lower() for s in DOCUMENT["attrs"][2]["sub"] if s.get("required")}


def description(rng, depth=0):
    type_ = rng.choice(TYPES if depth < 2 else TYPES[:-1])
    if depth == 0 and rng.random() < 0.3:
        type_ = "complex"
    out = {
        "name": gen.word(rng),
        "type": type_ if rng.random() < 0.8 else gen.recase_text(rng, type_),
        "multiValued": rng.random() < 0.5,
        "required": rng.random() < 0.5,
        "mutability": rng.choice(MUTABILITY),
        "returned": rng.choice(RETURNED),
        "uniqueness": rng.choice(UNIQUENESS),
    }
    if rng.random() < 0.3:
        key = rng.choice(["mutability", "returned", "uniqueness"])
        out[key] = gen.recase_text(rng, out[key])
    if type_ == "string" or rng.random() < 0.3:
        out["caseExact"] = rng.random() < 0.5
    if type_ == "complex" or rng.random() < 0.1:
        out["subAttributes"] = [description(rng, depth + 1) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if rng.random() < 0.5:
        out["description"] = gen.text(rng)
    if rng.random() < 0.2:
        out["canonicalValues"] = rng.choice([[], ["a"], ["a", "B"], [1, 2], ["x", None], [{"a": 1}]])
    if type_ == "reference" or rng.random() < 0.1:
        out["referenceTypes"] = rng.sample(["external", "uri", "User", "Group"], rng.randint(0, 2))
    return gen.shuffled(rng, out)


def a_document(rng):
    out = {
        "schemas": [SCHEMA_URN],
        "id": rng.choice(["urn:a:b", "urn:a:bulkId", gen.text(rng)]),
        "attributes": [description(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))],
    }
    for key in ("name", "description"):
        if rng.random() < 0.7:
            out[key] = gen.text(rng)
    if rng.random() < 0.6:
        out["meta"] = {"resourceType": "Schema"}
        if rng.random() < 0.5:
            out["meta"]["location"] = "/v2/Schemas/x"
    if rng.random() < 0.1:
        del out["attributes"]
    return out


def inner(document, wanted=1):
    """Positions inside of attribute descriptions."""
    return [p for p in gen.positions(document) if len(p) > 2 and p[0] == "attributes"]


def damage(rng, document):
    """(kind, changed document)"""
    kind = rng.choice(["none", "type", "canonical", "case_exact", "sub_shape", "remove", "value", "anywhere", "root", "rename"])
    places = inner(document)
    if kind in ("type", "canonical", "case_exact", "sub_shape", "remove", "value") and not places:
        kind = "anywhere"
    if kind == "anywhere":
        return kind, gen.corrupt(rng, document, rng.choice([1, 1, 2]))
    if kind == "root":
        key = rng.choice(["schemas", "id", "name", "description", "attributes", "meta"])
        value = rng.choice([None, [], {}, "x", 5, [None], ["x"], [[]], [SCHEMA_URN.upper()], {"resourceType": "Schemas"},
                            {"resourceType": "schema"}, [SCHEMA_URN, "urn:x"]])
        return kind, dict(document, **{key: value})
    if kind == "rename":
        return kind, gen.recase(rng, gen.add_unknown(rng, document), 0.5)
    if kind == "none":
        return kind, document

    def those(*names):
        return [p for p in places if p[-1] in names]

    if kind == "type":
        found, value = those("type"), rng.choice(["", "text", "strings", "date", "datetime", "Complex", "STRING", None, 5, ["string"]])
    elif kind == "canonical":
        found = those("mutability", "returned", "uniqueness")
        value = rng.choice(["readonly", "read", "never", "none", "NONE", "Default", "", None, 1, "server ", True])
    elif kind == "case_exact":
        found, value = those("caseExact"), rng.choice([None, "true", 0, 1, [], True])
        if found and rng.random() < 0.5:
            return kind, gen.delete_at(document, rng.choice(found))
    elif kind == "sub_shape":
        found, value = those("subAttributes"), rng.choice([None, {}, "x", 5, [None], [5], [[]], [{}], True, []])
    elif kind == "remove":
        found = [p for p in places if isinstance(p[-1], str) and len(p) == 3]
        if found:
            return kind, gen.delete_at(document, rng.choice(found))
        value = None
    else:
        found, value = [p for p in places if isinstance(p[-1], str)], gen.json_value(rng, 2)
    if not found:
        return "none", document
    return kind, gen.replace_at(document, rng.choice(found), value)


def lacking(descriptions, nested=False):
    """A description of a sub-attribute lacks something mandatory."""
    if not isinstance(descriptions, list):
        return False
    for item in descriptions:
        if not isinstance(item, dict):
            continue
        if nested and any(not model.has_value(model.find(item, name)) for name in MANDATORY):
            return True
        if lacking(model.find(item, "subAttributes"), True):
            return True
    return False


def unclear(document):
    return duplicated(document) or lacking(model.find(document, "attributes"))


def documents(ctx, index):
    rng = ctx.rng
    schema = schema_doc.Schema()
    for _ in range(4):
        kind, document = damage(rng, a_document(rng))
        if unclear(document):
            ctx.seen("not_judged")
            continue
        given = copy.deepcopy(document)
        expected, wanted = model.process(DOCUMENT, copy.deepcopy(document), "dump")
        if isinstance(document, dict) and rng.random() < 0.2:
            document = SCIMDataContainer(document)
        data, issues = ctx.call("Schema.dump", schema.dump, document)
        ctx.same(issue_set(issues), wanted, "issues of a schema document differ", document=given)
        if not wanted:
            ctx.expect(same_data(plain(data), expected), "another schema document comes out", document=given,
                       expected=expected, actual=data)
            ctx.seen("fine")
        else:
            ctx.seen("refused")
        if any(len(loc) > 3 for loc, _ in wanted):
            ctx.seen("deep")
        ctx.sample((kind, given))
        ctx.sig("document", kind, tuple(sorted({(tuple(p for p in loc if not p.isdigit()), code) for loc, code in wanted})))


def endpoints(ctx, index):
    rng = ctx.rng
    config = make_config()
    if rng.random() < 0.6:
        spec, validator = DOCUMENT, rv.SchemasGET(config)
        items = [a_document(rng) for _ in range(rng.choice([0, 1, 2, 3]))]
    else:
        spec, validator = model.BUILTIN["ResourceType"], rv.ResourceTypesGET(config)
        items = [a_body(rng, spec) for _ in range(rng.choice([0, 1, 2, 3]))]
    kind = "none"
    if items and rng.random() < 0.6:
        i = rng.randrange(len(items))
        if spec is DOCUMENT:
            kind, items[i] = damage(rng, items[i])
        else:
            kind, items[i] = "anywhere", gen.corrupt(rng, items[i])
    if any(duplicated(i) if spec is not DOCUMENT else unclear(i) for i in items):
        raise Skip()
    n = len(items)
    body = {"schemas": [LIST_URN], "totalResults": n, "Resources": items}
    status = 200
    if rng.random() < 0.3:
        key, value = rng.choice([("totalResults", n + 1), ("totalResults", None), ("itemsPerPage", n), ("itemsPerPage", n + 1),
                                 ("startIndex", 1), ("startIndex", 2), ("schemas", ["urn:x"]), ("status", 201), ("status", 404)])
        if key == "status":
            status = value
        else:
            body[key] = value
        kind += "+" + key
    given = copy.deepcopy(body)
    expected, groups = truth([spec], copy.deepcopy(body), status, 1, None, None, None, [], None)
    response, issues = ctx.call(type(validator).__name__, validator.dump_response, status_code=status, body=body)
    found = issue_set(issues)
    everything = set().union(*groups.values()) if groups else set()
    if len(groups) <= 1:
        ctx.same(found, everything, "issues of a discovery response differ", body=given, status=status)
    else:
        ctx.expect(found and found <= everything, "issues of a discovery response differ", found=found,
                   expected=everything, body=given, status=status)
    if groups:
        ctx.expect(response.body is None, "inconsistent discovery response is released", body=given, status=status)
        ctx.seen("held_back")
    else:
        ctx.expect(response.body is not None and same_data(plain(response.body), expected),
                   "another discovery response is released", body=given, released=response.body)
        ctx.seen("released")
    ctx.sig("endpoint", spec["name"], kind, tuple(sorted(groups)), tuple(sorted({c for _, c in everything})))


def queries(ctx, index):
    rng = ctx.rng
    config = make_config(rng.choice([None, 5]))
    validator = rng.choice([rv.SchemasGET, rv.ResourceTypesGET])(config)
    query = {}
    for key, values in {
        "filter": ["id pr", "", None, "(", 5, [], 'name eq "x"'], "count": ["1", 5, "x"], "sortBy": ["id", "x y"],
        "attributes": ["id", "x y"], "FILTER": ["id pr"], "startIndex": [1, "x"], "filters": ["id pr"],
    }.items():
        if rng.random() < 0.3:
            query[key] = rng.choice(values)
    if rng.random() < 0.1:
        query = rng.choice([None, [], "filter", ["filter"], 5])
    given = copy.deepcopy(query)
    request, issues = ctx.call("parse_request", validator.parse_request, query_string=query,
                               body=rng.choice([None, {}, {"filter": "x"}, "x"]), headers={"a": "b"})
    refused = isinstance(given, dict) and "filter" in given
    ctx.same(issue_set(issues), {(("query_string", "filter"), 39)} if refused else set(),
             "filter of a discovery request is judged wrongly", query=given)
    ctx.same((request.query_string, request.body), (None, None), "discovery request delivers parameters", query=given)
    ctx.same(request.headers, {"a": "b"}, "headers are changed")
    ctx.same(query, given, "query is changed")
    ctx.seen("filter_refused" if refused else "query_fine")
    ctx.sig("query", tuple(sorted(given)) if isinstance(given, dict) else type(given).__name__)


STREAMS = {
    "documents": (documents, 2500, 40000),
    "endpoints": (endpoints, 3000, 40000),
    "queries": (queries, 600, 5000),
}
FLOORS = {"fine": 1500, "refused": 1500, "deep": 300, "held_back": 600, "released": 700, "filter_refused": 100, "query_fine": 200}
