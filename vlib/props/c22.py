import copy

from vlib import gen, model, single
from vlib.lib import (
    AttributePresenceChecker,
    Filter,
    INVALID,
    SCIMDataContainer,
    build_extension,
    build_schema,
    get_schema_rep,
    issue_set,
    make_config,
    plain,
    rv,
    same_data,
    schema_doc,
)
from vlib.props.c10 import duplicated
from vlib.props.c15 import body_for
from vlib.props.c18 import LIST_URN

RULE = (
    "representations of generated and built-in schemas and extensions compared attribute by attribute with their "
    "definition, put through the schema-document schema and the schemas endpoint, and compared with what parsing, "
    "replacing, presence checks and filters enforce on probe values; counted by schema shape and kind of probe"
)
ASSUMPTIONS = [
    "canonical values of attributes that ignore letter case are compared ignoring it",
    "a schema document says about letter case only where the attribute is a text",
]
SCHEMA_URN = "urn:ietf:params:scim:schemas:core:2.0:Schema"
SCIM_TYPE = {
    "boolean": "boolean", "integer": "integer", "decimal": "decimal", "string": "string", "binary": "binary",
    "extref": "reference", "uriref": "reference", "scimref": "reference", "datetime": "dateTime", "complex": "complex",
}
REFERENCE = {"extref": ["external"], "uriref": ["uri"]}


def fold(values):
    return sorted(v.lower() if isinstance(v, str) else v for v in values)


def described(attr, descriptions=True):
    """What a definition says about an attribute, comparable with a published one."""
    out = {
        "name": attr["name"],
        "type": SCIM_TYPE[attr["type"]],
        "multiValued": bool(attr.get("multi")),
        "required": bool(attr.get("required")),
        "mutability": attr.get("mutability", "readWrite"),
        "returned": attr.get("returned", "default"),
        "uniqueness": attr.get("uniqueness", "none"),
        "caseExact": bool(attr.get("caseExact")),
        "canonicalValues": fold(attr.get("canonical") or []),
        "referenceTypes": sorted(REFERENCE.get(attr["type"]) or attr.get("refTypes") or []),
        "subAttributes": [described(s, descriptions) for s in attr.get("sub", [])],
    }
    if descriptions:
        out["description"] = attr.get("description", "")
    return out


def published(rep, descriptions=True):
    out = {
        "name": rep["name"],
        "type": rep["type"],
        "multiValued": rep["multiValued"],
        "required": rep["required"],
        "mutability": rep["mutability"],
        "returned": rep["returned"],
        "uniqueness": rep["uniqueness"],
        "caseExact": rep.get("caseExact", False),
        "canonicalValues": fold(rep.get("canonicalValues") or []),
        "referenceTypes": sorted(rep.get("referenceTypes") or []),
        "subAttributes": [published(s, descriptions) for s in rep.get("subAttributes") or []],
    }
    if descriptions:
        out["description"] = rep.get("description", "")
    return out


def by_name(attrs):
    return sorted(attrs, key=lambda a: a["name"])


def sorted_all(attr):
    return dict(attr, subAttributes=by_name([sorted_all(s) for s in attr["subAttributes"]]))


def same_attrs(ctx, reps, attrs, descriptions, what):
    actual = by_name([sorted_all(published(r, descriptions)) for r in reps])
    wanted = by_name([sorted_all(described(a, descriptions)) for a in attrs])
    ctx.same([a["name"] for a in actual], [a["name"] for a in wanted], "other attributes are published", of=what)
    for a, w in zip(actual, wanted):
        for key in w:
            ctx.same(a[key], w[key], "attribute is published with another characteristic", of=what,
                     attribute=w["name"], characteristic=key)
    ctx.seen("attributes", len(wanted))
    ctx.seen("sub_attributes", sum(len(w["subAttributes"]) for w in wanted))


def texts_only(attr):
    """Without the letter-case rule of what is not a text."""
    out = dict(attr, subAttributes=[texts_only(s) for s in attr["subAttributes"]])
    if attr["type"] != "string":
        del out["caseExact"]
    return out


def document(ctx, rep):
    """A representation is a valid schema document, and goes out as it is."""
    for attempt in (rep, SCIMDataContainer(rep)):
        data, issues = ctx.call("document", schema_doc.Schema().dump, copy.deepcopy(attempt))
        ctx.same(issue_set(issues), set(), "representation is not a valid schema document", rep=rep)
        out = plain(data)
        for key in ("id", "name", "description"):
            ctx.same(out.get(key), rep[key], "document changes on the way out", key=key)
        ctx.same(by_name([texts_only(sorted_all(published(a))) for a in out["attributes"]]),
                 by_name([texts_only(sorted_all(published(a))) for a in rep["attributes"]]), "document changes on the way out")
    ctx.seen("documents")


def endpoint(ctx, reps):
    body = {"schemas": [LIST_URN], "totalResults": len(reps), "Resources": copy.deepcopy(reps)}
    if ctx.rng.random() < 0.5:
        body.update(itemsPerPage=len(reps), startIndex=1)
    validator = rv.SchemasGET(make_config())
    response, issues = ctx.call("endpoint", validator.dump_response, status_code=200, body=body)
    ctx.same(issue_set(issues), set(), "schemas endpoint refuses representations", reps=reps)
    ctx.expect(response.body is not None, "schemas endpoint holds representations back")
    ctx.same([r["id"] for r in response.body["Resources"]], [r["id"] for r in reps], "schemas are lost or mixed up")
    ctx.seen("endpoint")


def enforced_spec(spec, rep):
    """The definition as its representation tells it (what is not published taken from the definition)."""
    def attr_of(published_attr, original):
        type_ = published_attr["type"]
        kinds = {"dateTime": "datetime"}
        if type_ == "reference":
            types = published_attr.get("referenceTypes")
            type_ = {"external": "extref", "uri": "uriref"}.get(types[0] if types else None, "scimref")
        out = {
            "name": published_attr["name"],
            "type": kinds.get(type_, type_),
            "multi": published_attr["multiValued"],
            "required": published_attr["required"],
            "mutability": published_attr["mutability"],
            "returned": published_attr["returned"],
            "uniqueness": published_attr["uniqueness"],
            "issuer": original.get("issuer"),
            "enforce": original.get("enforce"),
            "canonical": published_attr.get("canonicalValues"),
            "caseExact": published_attr.get("caseExact"),
        }
        if type_ == "complex":
            out["sub"] = [attr_of(s, find(original["sub"], s["name"])) for s in published_attr["subAttributes"]]
        return out

    def find(attrs, name):
        return next(a for a in attrs if a["name"] == name)

    all_originals = spec.get("common", model.COMMON) + spec["attrs"]
    return {
        "builtin": spec.get("builtin"), "schema": rep["id"], "name": rep["name"], "common": [], "extensions": [],
        "attrs": [attr_of(a, find(all_originals, a["name"])) for a in rep["attributes"]],
    }


def probes(ctx, spec, schema, rep):
    """What is published is what is enforced."""
    rng = ctx.rng
    seen = enforced_spec(spec, rep)
    _, body = body_for(rng, dict(spec, extensions=[]))
    if isinstance(body, dict) and not duplicated(body):
        data, issues = ctx.call("parse", schema.parse, copy.deepcopy(body))
        wanted, expected = model.process(seen, body, "parse")
        ctx.same({x for x in issue_set(issues) if x[0] != ("schemas",)}, {x for x in expected if x[0] != ("schemas",)},
                 "published characteristics are not enforced", body=body)
        ctx.expect(same_data(plain(data), wanted), "published characteristics are not enforced", body=body,
                   parsed=plain(data))
        ctx.seen("probe_parse")
        if data is not None and wanted is not INVALID and not issue_set(issues):
            direction = rng.choice(["REQUEST", "RESPONSE"])
            found = ctx.call("presence", AttributePresenceChecker(), data, schema.attrs, direction)
            ctx.same({x for x in issue_set(found) if ":" not in x[0][0]},
                     model.presence(seen, wanted, direction), "published requiredness or return is not enforced",
                     body=body, direction=direction)
            ctx.seen("probe_presence")
            validator = rv.ResourceObjectPUT(make_config(), resource_schema=schema)
            request, found = ctx.call("put", validator.parse_request, body=copy.deepcopy(body))
            if not issue_set(found):
                ctx.expect(same_data(single.pruned(plain(request.body)), single.pruned(single.writable(seen, wanted))),
                           "published mutability is not enforced", body=body, delivered=plain(request.body))
                ctx.seen("probe_put")
    # letter case of texts
    texts = [a for a in seen["attrs"] if a["type"] == "string" and not a["multi"] and a["name"] != "id"]
    if texts:
        attr = rng.choice(texts)
        filter_, issues = ctx.call("filter", Filter.parse, f'{spec["schema"]}:{attr["name"]} eq "aBc"')
        ctx.expect(not issue_set(issues), "filter is refused", attribute=attr["name"])
        match = bool(ctx.call("match", filter_, SCIMDataContainer({attr["name"]: "AbC"}), schema, True))
        ctx.same(match, not attr["caseExact"], "published letter-case rule is not enforced", attribute=attr["name"])
        ctx.seen("probe_case")


def generated(ctx, index):
    rng = ctx.rng
    spec = gen.random_spec(rng)
    extensions = [build_extension(e) for e in spec["extensions"]]
    schema = build_schema(dict(spec, extensions=[]))
    if rng.random() < 0.5:
        same_attrs(ctx, get_schema_rep(schema)["attributes"], model.COMMON + spec["attrs"], False, "schema alone")
    for extension, e in zip(extensions, spec["extensions"]):
        schema.with_extension(extension, e.get("required", False))
    rep = ctx.call("representation", get_schema_rep, schema)
    ctx.sample((spec["schema"], rep))
    for key, value in (("id", spec["schema"]), ("name", spec["name"]), ("description", spec["description"]),
                       ("schemas", [SCHEMA_URN])):
        ctx.same(rep[key], value, "schema is published with another characteristic", characteristic=key)
    ctx.same(rep["meta"]["resourceType"], "Schema", "schema is published as something else")
    own = [a for a in rep["attributes"] if a["name"] in {x["name"] for x in spec["attrs"]}]
    same_attrs(ctx, own, spec["attrs"], True, spec["schema"])
    same_attrs(ctx, rep["attributes"], model.COMMON + spec["attrs"], False, spec["schema"])
    again = ctx.call("representation", get_schema_rep, schema)
    ctx.same(again, rep, "representation changes")
    document(ctx, rep)
    reps = [rep]
    for extension, e in zip(extensions, spec["extensions"]):
        out = ctx.call("extension", extension.to_dict)
        ctx.same((out["id"], out["name"], out["description"]), (e["schema"], e.get("name", ""), ""),
                 "extension is published with another characteristic")
        same_attrs(ctx, out["attributes"], e["attrs"], True, e["schema"])
        ctx.seen("extensions")
    if index % 4 == 0:
        endpoint(ctx, reps)
    for _ in range(2):
        probes(ctx, spec, schema, rep)
    ctx.sig("generated", len(spec["attrs"]), tuple(sorted(a["type"] for a in spec["attrs"])), len(extensions))


def builtin(ctx, index):
    rng = ctx.rng
    name = rng.choice(["User", "Group", "ResourceType", "ServiceProviderConfig"])
    spec = model.BUILTIN[name]
    schema = build_schema(spec)
    rep = ctx.call("representation", get_schema_rep, schema)
    ctx.same(rep["id"], spec["schema"], "schema is published with another characteristic")
    ctx.same(rep["name"], spec["name"], "schema is published with another characteristic")
    same_attrs(ctx, rep["attributes"], spec["common"] + spec["attrs"], False, name)
    for attr in schema.attrs.top_level:
        if attr.rep.extension:
            continue
        entry = next(a for a in rep["attributes"] if a["name"] == attr.rep.attr)
        ctx.same(entry["description"], attr.description, "another description is published", attribute=attr.rep.attr)
    if name == "User":
        # the enterprise extension keeps its standard characteristics as well
        attached = [a for a in schema.attrs.top_level if a.rep.extension]
        same_attrs(ctx, [a.to_dict() for a in attached], spec["extensions"][0]["attrs"], False, "enterprise")
        ctx.same({a.rep.schema for a in attached}, {spec["extensions"][0]["schema"]}, "extension has another schema")
    document(ctx, rep)
    if index % 4 == 0:
        endpoint(ctx, [ctx.call("representation", get_schema_rep, build_schema(model.BUILTIN[n]))
                       for n in rng.sample(["User", "Group", "ResourceType", "ServiceProviderConfig"], 3)])
    for _ in range(2):
        probes(ctx, spec, schema, rep)
    ctx.seen("builtin")
    ctx.sig("builtin", name, index % 50)


STREAMS = {
    "generated": (generated, 1200, 15000),
    "builtin": (builtin, 200, 2000),
}
FLOORS = {"attributes": 10000, "documents": 1000, "endpoint": 200, "extensions": 500, "probe_parse": 1000,
          "probe_presence": 500, "probe_put": 300, "probe_case": 1000, "builtin": 150}
