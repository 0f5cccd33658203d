"""Workloads over every public entry point, shared by the monitors that judge calls as such."""
import copy

from vlib import bulk, filters, gen, model, single
from vlib.lib import (
    AttrRep,
    AttributePresenceChecker,
    Filter,
    PatchPath,
    bulk_ops,
    error,
    list_response,
    patch_op,
    search_request,
    SCIMDataContainer,
    Sorter,
    build_schema,
    make_config,
    rv,
    schema_doc,
    resource_type,
    service_provider_config,
    get_schema_rep,
)
from vlib.props import c13, c15, c16, c17, c18, c19, c20, c21

KEYS = ["", "a", ".", "a.b", "a.b.c", ":", "a:b", "$ref", "$", "id", "ID", "schemas", "Schemas", "meta", "Meta", "é", "\x00",
        "userName", "USERNAME", "name", "emails", "primary", "Primary", "value", "Operations", "operations", "Resources",
        "urn:ietf:params:scim:schemas:core:2.0:User", "urn:ietf:params:scim:schemas:core:2.0:User:userName",
        "urn:ietf:params:scim:schemas:extension:enterprise:2.0:User", "__class__", "name.familyName", "emails[0]", "x y",
        "\ud800", "a" * 300, "status", "detail", "op", "path", "method", "data", "response", "location", "filter"]


def hostile(rng, depth=4):
    r = rng.random()
    if depth > 0 and r < 0.2:
        return [hostile(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    if depth > 0 and r < 0.45:
        return {rng.choice(KEYS): hostile(rng, depth - 1) for _ in range(rng.randint(0, 4))}
    return rng.choice([
        None, True, False, 0, -0.0, 1, -1, 2**63, 10**400, -(10**400), 1.0, 1.5, 1e308, float("inf"), float("-inf"),
        float("nan"), "", " ", "\x00", "\ud800", "\n", "é", "İ", "ß", "a" * 2000, "1" * 5000, "true", "null", "0",
        "2020-01-01T00:00:00Z", "2020-13-45T99:99:99", "9999-99-99", "0001-01-01T00:00:00+23:59", "YQ==", "YQ", "====",
        "https://example.com", "http://[", "http://[::1", "//", "://", "https://x/Users/1", "/Users", "/Users/1", "Users",
        "add", "remove", "POST", "200", "404", "20\u00b2", "\u0664\u0660\u0664", "\uff12\uff10\uff10", "1_0", "+10", " 200", "2e2", "urn:x:y", "bulkId", "bulkId:1", 'emails[type eq "work"].value', "[", "(",
        "%", "{}", "{0}", "%s", "{a}", [], {}, [None], [[]], [{}], {"": None}, gen.text(rng), gen.json_value(rng, 1),
    ])


def kin(rng, value):
    """A value that is like the given one, but not quite."""
    if isinstance(value, bool):
        return rng.choice([int(value), str(value), [value], not value])
    if isinstance(value, (int, float)):
        return rng.choice([str(value), -value, value + 0.5 if abs(value) < 1e300 else 0.5, float("nan"), [value], True, 10**400, {"value": value}])
    if isinstance(value, str):
        if any(c.isdigit() for c in value) and rng.random() < 0.5:
            return value.translate(rng.choice(gen.DIGITS))
        return rng.choice([gen.near(rng, value), gen.near(rng, value), value.encode("utf-8", "replace").hex(), [value], "", value * 40,
                           {"value": value}, value.upper(), value.lower(), "\ud800" + value])
    if isinstance(value, list):
        return rng.choice([{str(i): v for i, v in enumerate(value)}, value + [None], value + value, [value], value[:1],
                           value[0] if value else None, [[]] + value])
    if isinstance(value, dict):
        return rng.choice([[value], list(value.items()), list(value), [value, value], {**value, "": None}, None, str(value)[:50]])
    return rng.choice([[], {}, "", 0, False])


def spoil(rng, data, times=None):
    """Data with hostile values and keys at random positions."""
    for _ in range(rng.choice([1, 1, 2, 4]) if times is None else times):
        places = gen.positions(data)
        place = rng.choice(places)
        r = rng.random()
        if r < 0.25:
            data = gen.replace_at(data, place, kin(rng, gen.get_at(data, place)))
        elif r < 0.6:
            data = gen.replace_at(data, place, hostile(rng, 2))
        elif r < 0.8:
            target = gen.get_at(data, place)
            if isinstance(target, dict):
                data = gen.replace_at(data, place, {**target, rng.choice(KEYS): hostile(rng, 2)})
            elif isinstance(target, list):
                target = list(target)
                target.insert(rng.randint(0, len(target)), hostile(rng, 2))
                data = gen.replace_at(data, place, target)
        elif place:
            data = gen.delete_at(data, place)
    return data


def at_level(rng, data, level):
    """level 0: as it is, 1: odd spelling and wrong values, 2: hostile."""
    if level == 1:
        if rng.random() < 0.5:
            data = gen.corrupt(rng, data, rng.choice([1, 1, 2]))
        if rng.random() < 0.5:
            data = gen.recase(rng, data)
    elif level == 2:
        data = spoil(rng, data) if rng.random() < 0.8 else hostile(rng)
    if isinstance(data, dict) and rng.random() < 0.1:
        try:
            return SCIMDataContainer(data)
        except Exception as e:  # an object with such keys can not be built beforehand
            del e
    return data


def headers_for(rng, level):
    if level == 2 and rng.random() < 0.5:
        return rng.choice([hostile(rng, 2), {"Location": hostile(rng, 1)}, {"location": "x"}])
    return rng.choice([None, {}, {"X": "1"}, {"Location": "https://example.com/Users/1"}])


def query_for(rng, spec, level):
    query = c21.as_query(rng, c21.a_request(rng, spec))
    if level == 1 and rng.random() < 0.5:
        query[rng.choice(["attributes", "excludeAttributes"])] = rng.choice(c21.BAD_NAMES + ["a b", "a,,b", ["a", "b c"], 5])
    if level == 2:
        if rng.random() < 0.3:
            return hostile(rng, 2)
        for _ in range(rng.randint(1, 3)):
            query[rng.choice(["filter", "sortBy", "sortOrder", "attributes", "excludeAttributes", "count", "startIndex",
                              "presence_checker", "sorter", "x"])] = hostile(rng, 2)
    return query


def status_for(rng, right):
    return right if rng.random() < 0.8 else rng.choice([200, 201, 204, 300, 400, 404, 500, 0, 999])


def some_filter(rng, spec):
    for _ in range(5):
        try:
            text = filters.Writer(rng, wild=False).write(c18.whole(rng, spec, gen.resource(rng, spec, "dump"), 2))
        except filters.Unspecified:
            continue
        return Filter.parse(text)[0]
    return None


def some_sorter(rng, spec):
    rep = rng.choice(c13.all_reps(spec))
    return Sorter(AttrRep(schema=rep[0] if rng.random() < 0.4 else "", attr=rep[1], sub_attr=rep[2]), rng.random() < 0.6)


def some_checker(rng, spec):
    texts, _ = c13.selection(rng, spec)
    return AttributePresenceChecker.parse(texts, rng.random() < 0.5)[0]


class Target:
    """One entry point: `make` gives the arguments of a call."""

    def __init__(self, label, kind, call, make):
        self.label = label
        self.kind = kind  # request, response, data, message, text or use
        self.call = call
        self.make = make


def single_targets(spec, schema, config):
    name = spec["name"]
    for method, cls in (("GET", rv.ResourceObjectGET), ("PUT", rv.ResourceObjectPUT), ("POST", rv.ResourcesPOST),
                        ("PATCH", rv.ResourceObjectPATCH)):
        validator = cls(config, resource_schema=schema)

        def request(rng, level, method=method):
            if method == "PATCH":
                body = {"schemas": [single.PATCH_URN], "Operations": [
                    c16.an_operation(rng, spec, hostile=level > 0) for _ in range(rng.choice([1, 1, 2, 4]))]}
                if level == 0:
                    body = c19.good_patch(rng, spec)
            elif method == "GET":
                body = None
            else:
                body = c19.good_body(rng, spec, method) if level == 0 else c15.body_for(rng, spec)[1]
            return dict(body=at_level(rng, body, level), headers=headers_for(rng, level),
                        query_string=query_for(rng, spec, rng.choice([level, 0, 1, 2])) if rng.random() < 0.3 else None)

        def response(rng, level, method=method):
            body = c20.fine_body(rng, spec) if level == 0 else c17.a_body(rng, spec)
            headers = headers_for(rng, level)
            if method == "POST" and level == 0 or rng.random() < 0.2:
                headers = {"Location": "https://example.com/Users/1"}
            if isinstance(headers, dict) and "Location" in headers and rng.random() < 0.9:
                body["meta"] = dict(body.get("meta") or {}, location=headers["Location"])
            return dict(status_code=status_for(rng, 201 if method == "POST" else 200), body=at_level(rng, body, level),
                        headers=headers, presence_checker=some_checker(rng, spec) if rng.random() < 0.2 else None)

        yield Target(f"{method} request", "request", validator.parse_request, request)
        yield Target(f"{method} response", "response", validator.dump_response, response)
    yield Target(f"parse {name}", "data", schema.parse,
                 lambda rng, level: dict(data=at_level(rng, c15.body_for(rng, spec)[1], level)))
    yield Target(f"dump {name}", "data", schema.dump,
                 lambda rng, level: dict(data=at_level(rng, c17.a_body(rng, spec), level)))


def list_targets(specs, schemas, config):
    validators = [rv.ServerRootResourceGET(config, resource_schemas=schemas),
                  rv.SearchRequestPOST(config, resource_schemas=schemas)]
    if len(schemas) == 1:
        validators.append(rv.ResourcesGET(config, resource_schema=schemas[0]))
    for validator in validators:
        searching = isinstance(validator, rv.SearchRequestPOST)
        name = "search" if searching else "list"

        def request(rng, level, searching=searching):
            spec = rng.choice(specs)
            if searching:
                body = dict(c21.a_request(rng, spec), schemas=[c21.URN])
                return dict(body=at_level(rng, body, level), headers=headers_for(rng, level),
                            query_string=query_for(rng, spec, level) if level else None)
            return dict(query_string=query_for(rng, spec, level), headers=headers_for(rng, level),
                        body=hostile(rng, 1) if level == 2 else None)

        def response(rng, level):
            resources = [(c20.fine_body if level == 0 else c17.a_body)(rng, rng.choice(specs))
                         for _ in range(rng.choice([0, 1, 2, 3]))]
            n = len(resources)
            body = {"schemas": [c18.LIST_URN], "totalResults": n, "Resources": resources}
            if rng.random() < 0.3:
                body.update(startIndex=1, itemsPerPage=n)
            if level:
                body["totalResults"] += rng.choice([0, 0, 1, -1])
            spec = rng.choice(specs)
            kwargs = {}
            if rng.random() < 0.3:
                kwargs["filter_"] = some_filter(rng, spec)
            if rng.random() < 0.3:
                kwargs["sorter"] = some_sorter(rng, spec)
            if rng.random() < 0.2:
                kwargs["presence_checker"] = some_checker(rng, spec)
            if rng.random() < 0.3:
                kwargs["count"] = rng.choice([None, 0, n, n + 1, 1])
            if rng.random() < 0.3:
                kwargs["start_index"] = rng.choice([1, 2, 0])
            return dict(status_code=status_for(rng, 200), body=at_level(rng, body, level),
                        headers=headers_for(rng, level), **kwargs)

        yield Target(f"{name} request", "request", validator.parse_request, request)
        yield Target(f"{name} response", "response", validator.dump_response, response)


def bulk_targets(specs, schemas, config):
    validator = rv.BulkOperations(config, resource_schemas=schemas)

    def request(rng, level):
        body = {"schemas": [bulk.REQUEST_URN],
                "Operations": [c19.operation_for(rng, specs, level == 0) for _ in range(rng.choice([1, 2, 3]))]}
        return dict(body=at_level(rng, body, level), headers=headers_for(rng, level),
                    query_string=query_for(rng, specs[0], level) if rng.random() < 0.1 else None)

    def response(rng, level):
        body = {"schemas": [bulk.RESPONSE_URN],
                "Operations": [c20.operation_for(rng, specs, level == 0) for _ in range(rng.choice([1, 2, 3]))]}
        return dict(status_code=status_for(rng, 200), body=at_level(rng, body, level), headers=headers_for(rng, level),
                    fail_on_errors=rng.choice([None, None, 0, 1, 3]))

    yield Target("bulk request", "request", validator.parse_request, request)
    yield Target("bulk response", "response", validator.dump_response, response)


def service_targets(schemas, config):
    error_ = rv.Error()

    def error_response(rng, level):
        status = rng.choice([400, 404, 500, 300, 200, 599])
        return dict(status_code=status, body=at_level(rng, c20.an_error(rng, rng.choice([status, status, 400])), level),
                    headers=headers_for(rng, level))

    yield Target("error response", "response", error_.dump_response, error_response)
    delete = rv.ResourceObjectDELETE(config)
    yield Target("DELETE response", "response", delete.dump_response,
                 lambda rng, level: dict(status_code=status_for(rng, 204), headers=headers_for(rng, level)))
    schemas_get = rv.SchemasGET(config)
    types_get = rv.ResourceTypesGET(config)

    def query(rng, level):
        return dict(query_string=query_for(rng, model.BUILTIN["User"], level) if rng.random() < 0.7 else None,
                    headers=headers_for(rng, level), body=hostile(rng, 2) if level == 2 else None)

    def schemas_response(rng, level):
        reps = [copy.deepcopy(get_schema_rep(s)) for s in schemas]
        body = {"schemas": [c18.LIST_URN], "totalResults": len(reps), "Resources": reps}
        return dict(status_code=status_for(rng, 200), body=at_level(rng, body, level), headers=headers_for(rng, level))

    def types_response(rng, level):
        resources = [c20.fine_body(rng, model.BUILTIN["ResourceType"]) for _ in range(rng.choice([0, 1, 2]))]
        body = {"schemas": [c18.LIST_URN], "totalResults": len(resources), "Resources": resources}
        return dict(status_code=status_for(rng, 200), body=at_level(rng, body, level), headers=headers_for(rng, level))

    yield Target("schemas request", "request", schemas_get.parse_request, query)
    yield Target("schemas response", "response", schemas_get.dump_response, schemas_response)
    yield Target("types request", "request", types_get.parse_request, query)
    yield Target("types response", "response", types_get.dump_response, types_response)
    document = schema_doc.Schema()
    yield Target("dump Schema", "data", document.dump,
                 lambda rng, level: dict(data=at_level(rng, copy.deepcopy(get_schema_rep(rng.choice(schemas))), level)))
    yield Target("parse Schema", "data", document.parse,
                 lambda rng, level: dict(data=at_level(rng, copy.deepcopy(get_schema_rep(rng.choice(schemas))), level)))
    for cls, name in ((resource_type.ResourceType, "ResourceType"),
                      (service_provider_config.ServiceProviderConfig, "ServiceProviderConfig")):
        schema = cls()
        yield Target(f"dump {name}", "data", schema.dump,
                     lambda rng, level, name=name: dict(data=at_level(rng, c17.a_body(rng, model.BUILTIN[name]), level)))


def message_targets(specs, schemas, targets):
    """The schemas of protocol messages, used without a validator."""
    patch = patch_op.PatchOp(schemas[0])
    label = {t.label: t for t in reversed(targets)}
    for name, schema, source in (
        ("Error", error.Error(), label["error response"]),
        ("PatchOp", patch, label["PATCH request"]),
        ("BulkRequest", bulk_ops.BulkRequest(), label["bulk request"]),
        ("BulkResponse", bulk_ops.BulkResponse(), label["bulk response"]),
        ("ListResponse", list_response.ListResponse(schemas), label["list response"]),
        ("SearchRequest", search_request.SearchRequest(), label["search request"]),
    ):
        for method in ("parse", "dump"):
            yield Target(f"{method} {name}", "message", getattr(schema, method),
                         lambda rng, level, source=source: dict(data=source.make(rng, level)["body"]))


SOUP = ["(", ")", "[", "]", " and ", " or ", " not ", "not(", " eq ", " co ", " pr", "pr", " gt ", "a", "b.c", "emails",
        "emails[", "1", '"x"', "'y z'", '"', "'", "null", "true", "1.5", "1e999", "nan", "urn:x:y:z", "urn:", ".", ":", "$ref",
        "|&PLACE_HOLDER_0&|", "|&PLACE_HOLDER_", "&|", "\\", '\\"', " ", "\n", "\t", "é", "\ud800", "\x00", "].value", "İ", "-",
        "_", "0" * 30, "userName", "%", "{", "}", ",", "id", "schemas", "name.familyName"]


def soup(rng):
    if rng.random() < 0.3:
        return hostile_text(rng)
    return "".join(rng.choice(SOUP) for _ in range(rng.randint(0, 12)))


def hostile_text(rng):
    value = hostile(rng, 0)
    return value if isinstance(value, str) else gen.text(rng)


def a_filter_text(rng, level):
    if level == 2 and rng.random() < 0.6:
        return soup(rng)
    text = c21.whole_filter(rng)[0]
    return filters.mutate(rng, text) if level else text


def text_targets():
    yield Target("Filter.parse", "text", Filter.parse, lambda rng, level: dict(filter_exp=a_filter_text(rng, level)))

    def path(rng, level):
        if level == 2 and rng.random() < 0.5:
            return dict(path=soup(rng))
        return dict(path=c16.a_path(rng, model.BUILTIN["User"])[0])

    yield Target("PatchPath.parse", "text", PatchPath.parse, path)

    def name(rng, level):
        return soup(rng) if level == 2 else c13.selection(rng, model.BUILTIN["User"], 1)[0][0]

    yield Target("Sorter.parse", "text", Sorter.parse,
                 lambda rng, level: dict(by=name(rng, level), asc=rng.random() < 0.5))
    yield Target("Presence.parse", "text", AttributePresenceChecker.parse,
                 lambda rng, level: dict(attr_reps=[name(rng, level) for _ in range(rng.randint(0, 4))],
                                         include=rng.choice([None, True, False])))


def world(rng, specs=None):
    """Entry points over shared schemas and validators."""
    specs = specs or c19.some_specs(rng)
    schemas = [build_schema(s) for s in specs]
    limit = rng.choice([None, 2, 10])
    config = make_config(limit)
    targets = []
    for spec, schema in zip(specs, schemas):
        targets += single_targets(spec, schema, config)
    targets += list_targets(specs, schemas, config)
    targets += bulk_targets(specs, schemas, config)
    targets += service_targets(schemas, config)
    targets += message_targets(specs, schemas, targets)
    targets += text_targets()
    for target in targets:
        target.limit = limit
    return specs, schemas, targets
