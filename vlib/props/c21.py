import copy

from vlib import filters, gen, model
from vlib.core import Skip
from vlib.filters import split_name
from vlib.lib import (
    Filter,
    Invalid,
    MISSING,
    Missing,
    SCIMDataContainer,
    Sorter,
    ast_of,
    build_schema,
    issue_set,
    make_config,
    plain,
    rep_of,
    rv,
    same_data,
)
from vlib.props.c13 import selection

RULE = (
    "query strings and search bodies with every combination of filter, sort, selection and paging parameters: well "
    "formed, malformed and absent ones, in both forms of the same request; counted by endpoint, parameters given and "
    "parameters reported"
)
ASSUMPTIONS = [
    "a sort order of a query string is a text; texts other than 'descending' (in any letter case) mean ascending",
    "integers in a query string are JSON numbers or plain decimal texts",
]
URN = "urn:ietf:params:scim:api:messages:2.0:SearchRequest"
BAD_NAMES = ["a,b", "", "a b", "a..b", "1.2.3", "x-y", ":a", "$x", "a.", ".a", " id", "a\n", "urn::x", "a/b"]


def whole_filter(rng):
    """(text, tree or None)"""
    for _ in range(10):
        tree = filters.tree(rng, rng.choice([0, 0, 1, 2, 3]))
        try:
            text = filters.Writer(rng, wild=rng.random() < 0.4).write(tree)
        except filters.Unspecified:
            continue
        if rng.random() < 0.3:
            text = filters.mutate(rng, text)
        try:
            return text, filters.read(text)
        except filters.Unspecified:
            continue
    return "id pr", filters.read("id pr")


def names(rng, spec):
    texts, _ = selection(rng, spec, 4)
    texts = [t for t in texts if "," not in t]
    if rng.random() < 0.15:
        texts.insert(rng.randint(0, len(texts)), rng.choice(BAD_NAMES))
    elif rng.random() < 0.05:
        texts = [rng.choice(BAD_NAMES)]
    return texts


def a_request(rng, spec):
    """Parameters in the JSON form; texts of names in lists."""
    out = {}
    if rng.random() < 0.5:
        out["filter"] = whole_filter(rng)[0] if rng.random() < 0.9 else rng.choice(["", "(", None])
    if rng.random() < 0.5:
        out["sortBy"] = selection(rng, spec, 1)[0][0] if rng.random() < 0.85 else rng.choice([*BAD_NAMES, None])
    if rng.random() < 0.5:
        order = rng.choice(["ascending", "descending", "descending"])
        out["sortOrder"] = rng.choice([order, order, gen.recase_text(rng, order), "", "down", "descend"])
    r = rng.random()
    if r < 0.3:
        out["attributes"] = names(rng, spec)
    elif r < 0.6:
        out["excludeAttributes"] = names(rng, spec)
    elif r < 0.7:
        out["attributes"] = names(rng, spec)
        out["excludeAttributes"] = rng.choice([names(rng, spec), [], None])
    elif r < 0.75:
        out[rng.choice(["attributes", "excludeAttributes"])] = rng.choice([[], None])
    for name in ("count", "startIndex"):
        if rng.random() < 0.4:
            out[name] = rng.choice([0, 1, 5, 100, -1, 10**12, 7.0, None])
    return out


def meaning(params, form):
    """(expected meaning, parameters that must be reported, parameters that may be)"""
    want = {"filter": None, "sorter": None, "selection": None, "count": None, "startIndex": None}
    must, may = set(), set()
    value = params.get("filter")
    if value is not None:
        tree = filters.read(value) if isinstance(value, str) else None
        if tree is None:
            must.add("filter")
        want["filter"] = tree
    order = params.get("sortOrder")
    if form == "search" and order is not None and not isinstance(order, str):
        must.add("sortOrder")
    by = params.get("sortBy")
    if by is not None:
        rep = split_name(by) if isinstance(by, str) else None
        if rep is None:
            must.add("sortBy")
        else:
            want["sorter"] = (rep, not (isinstance(order, str) and order.lower() == "descending"))
    lists = {}
    for name in ("attributes", "excludeAttributes"):
        value = params.get(name)
        if value is None:
            lists[name] = []
        elif isinstance(value, list):
            lists[name] = value
        elif form == "query" and isinstance(value, str):
            lists[name] = value.split(",") if value else []
        else:
            must.add(name)
    if not must & {"attributes", "excludeAttributes"}:
        both = {name for name, value in lists.items() if value}
        if len(both) == 2:
            must |= both
        for name in both:
            reps = [split_name(t) if isinstance(t, str) else None for t in lists[name]]
            if None in reps:
                must.add(name)
            want["selection"] = (frozenset(r for r in reps if r), name == "attributes")
    else:
        may |= {name for name, value in lists.items() if value}
    for name in ("count", "startIndex"):
        value = params.get(name)
        if value is None:
            continue
        if form == "query" and isinstance(value, str):
            digits = value[1:] if value[:1] == "-" else value
            if digits.isascii() and digits.isdigit():
                want[name] = int(value)
            else:
                must.add(name)
            continue
        fits, value, _ = model.check_type("integer", value, "parse")
        if fits:
            want[name] = value
        else:
            must.add(name)
    return want, must, may


def observed(ctx, get, reported, witness):
    """What a request means, read off the delivered data."""
    out = {}
    filter_ = get("filter")
    if "filter" not in reported:
        ctx.expect(filter_ in (None, Missing) or isinstance(filter_, Filter), "no filter comes out", got=filter_, **witness)
        out["filter"] = ast_of(filter_.operator) if isinstance(filter_, Filter) else None
    else:
        ctx.expect(not isinstance(filter_, Filter), "malformed filter comes out", **witness)
    sorter = get("sorter")
    if "sortBy" not in reported:
        ctx.expect(sorter in (None, Missing) or isinstance(sorter, Sorter), "no sorter comes out", got=sorter, **witness)
        out["sorter"] = (rep_of(sorter.attr_rep), sorter.asc) if isinstance(sorter, Sorter) else None
    else:
        ctx.expect(not isinstance(sorter, Sorter), "malformed sorter comes out", **witness)
    if not reported & {"attributes", "excludeAttributes"}:
        checker = get("presence_checker")
        out["selection"] = None
        if checker not in (None, Missing):
            out["selection"] = (frozenset(rep_of(r) for r in checker.attr_reps), checker.include)
            if not checker.attr_reps:
                out["selection"] = None
    for name in ("count", "startIndex"):
        if name not in reported:
            value = get(name)
            out[name] = None if value in (None, Missing) else value
            ctx.expect(out[name] is None or type(out[name]) is int, "no number comes out", parameter=name,
                       got=out[name], **witness)
    return out


def compare(ctx, get, issues, where, params, form, tag, kinds=None):
    given = copy.deepcopy(params)
    want, must, may = meaning(given, form)
    if kinds is not None:
        must, may = must & kinds, may & kinds
        want = {k: v for k, v in want.items() if k in kinds or (k == "selection" and "attributes" in kinds)}
    witness = dict(form=form, parameters=given, issues=issues)
    outside = {loc for loc, _ in issues if loc[:1] != (where,) or len(loc) < 2}
    ctx.expect(not outside, "issue is not at a parameter", outside=outside, **witness)
    reported = {loc[1] for loc, _ in issues}
    ctx.expect(must <= reported, "malformed parameter is not reported", must=must, **witness)
    ctx.expect(reported <= must | may, "well-formed parameter is reported", must=must, **witness)
    ctx.sample((form, given))
    ctx.sig(tag, form, tuple(sorted(k for k, v in given.items() if v is not None)), tuple(sorted(reported)))
    for name in reported:
        ctx.seen("reported_" + name)
    if get is None:
        return None
    got = observed(ctx, get, reported, witness)
    for name, value in got.items():
        if name in want:
            ctx.same(value, want[name], "parameter got another meaning", parameter=name, **witness)
            if value is not None:
                ctx.seen("meaning_" + name)
    return got


def as_query(rng, params):
    """The same request in a query string."""
    out = {}
    for name, value in params.items():
        if isinstance(value, list) and all(isinstance(v, str) and "," not in v for v in value):
            if value != [""] and rng.random() < 0.8:
                value = ",".join(value)
        elif isinstance(value, int) and not isinstance(value, bool) and rng.random() < 0.7:
            value = str(value)
        out[name] = value
    return out


def list_query(ctx, validator, query, tag, extra=None):
    full = dict(query, **(extra or {}))
    headers, body = ctx.rng.choice([None, {"X": "1"}]), ctx.rng.choice([None, {"a": 1}])
    request, issues = ctx.call(tag, validator.parse_request, query_string=copy.deepcopy(full), headers=headers, body=body)
    found = issue_set(issues)
    out = request.query_string
    ctx.expect(isinstance(out, dict), "query is lost", query=full)
    got = compare(ctx, out.get, found, "query_string", query, "query", tag)
    for name, value in (extra or {}).items():
        ctx.expect(same_data(plain(out.get(name, MISSING)), value), "other parameter is changed", parameter=name)
    ctx.expect(request.headers == headers, "headers are changed", headers=headers, got=request.headers)
    return found, got


def search(ctx, validator, params, tag):
    rng = ctx.rng
    body = dict(params)
    if rng.random() < 0.9:
        body["schemas"] = [URN]
    if rng.random() < 0.3:
        body = gen.recase(rng, body)
    if rng.random() < 0.2:
        body = gen.add_unknown(rng, body, known=["schemas"])
    if rng.random() < 0.1:
        body = SCIMDataContainer(body)
    request, issues = ctx.call(tag, validator.parse_request, body=body)
    found = issue_set(issues)
    ctx.expect((request.body is None) == bool(found), "search is delivered exactly when it is well formed", body=body)
    get = None if request.body is None else lambda name: request.body[name]
    got = compare(ctx, get, found, "body", params, "search", tag)
    return found, got


def lists(ctx, index):
    rng = ctx.rng
    spec = gen.some_spec(rng)
    schemas = [build_schema(spec)]
    config = make_config()
    validator = rng.choice([
        lambda: rv.ResourcesGET(config, resource_schema=schemas[0]),
        lambda: rv.ServerRootResourceGET(config, resource_schemas=schemas),
    ])()
    searching = rv.SearchRequestPOST(config, resource_schemas=schemas)
    for _ in range(3):
        params = a_request(rng, spec)
        try:
            query = as_query(rng, params)
            extra = rng.choice([None, {"x": "1"}, {"Filter": "a eq"}, {"sortby": "a b", "COUNT": "z"}])
            found, got = list_query(ctx, validator, query, "query", extra)
            found_too, got_too = search(ctx, searching, params, "search")
        except filters.Unspecified:
            ctx.seen("unspecified")
            continue
        ctx.same({loc[1] for loc, _ in found}, {loc[1] for loc, _ in found_too}, "forms of a request disagree on issues",
                 parameters=params)
        if got_too is not None:
            ctx.same(got, got_too, "forms of a request disagree", parameters=params)
            ctx.seen("both_forms")


def odd(ctx, index):
    """Parameters of wrong types."""
    rng = ctx.rng
    spec = model.BUILTIN["User"]
    config = make_config()
    params = a_request(rng, spec)
    for _ in range(rng.choice([1, 1, 2])):
        name = rng.choice(["filter", "sortBy", "attributes", "excludeAttributes", "count", "startIndex"])
        params[name] = rng.choice([5, 0, 1.5, True, False, {}, {"a": 1}, [5], [None], ["id", 5], [[]], "", "x y", "1a",
                                   "1.5", 10**400, float("inf"), float("nan"), ["a b"], [""], "id", "id,,x", "id,x y"])
        if name in ("count", "startIndex") and rng.random() < 0.4:
            params[name] = rng.choice(["1,000", "1 000", "0x10", "1e3", "5-", "--5", "1.", "5.0", "ten", "5;", "1/2"])
    if rng.random() < 0.2:
        params["sortOrder"] = rng.choice([5, True, [], {}])
    try:
        if rng.random() < 0.5:
            if not isinstance(params.get("sortOrder", ""), str):
                del params["sortOrder"]
            validator = rv.ResourcesGET(config, resource_schema=build_schema(spec))
            list_query(ctx, validator, params, "odd_query")
        else:
            search(ctx, rv.SearchRequestPOST(config, resource_schemas=[build_schema(spec)]), params, "odd_search")
    except filters.Unspecified:
        raise Skip()
    ctx.seen("odd")


def single(ctx, index):
    """Attribute selection of requests on single resources."""
    rng = ctx.rng
    spec = gen.some_spec(rng)
    schema = build_schema(spec)
    method = rng.choice(["GET", "PUT", "POST", "PATCH"])
    cls = {"GET": rv.ResourceObjectGET, "PUT": rv.ResourceObjectPUT, "POST": rv.ResourcesPOST,
           "PATCH": rv.ResourceObjectPATCH}[method]
    validator = cls(make_config(), resource_schema=schema)
    for _ in range(3):
        params = {k: v for k, v in a_request(rng, spec).items() if k in ("attributes", "excludeAttributes")}
        if rng.random() < 0.1:
            params[rng.choice(["attributes", "excludeAttributes"])] = rng.choice([5, 0, {}, [5], [None], True])
        query = as_query(rng, params)
        extra = rng.choice([{}, {"x": "1"}, {"filter": "((", "count": "x"}])
        headers = rng.choice([None, {"X": "1"}])
        request, issues = ctx.call(method, validator.parse_request, query_string=dict(copy.deepcopy(query), **extra),
                                   headers=headers, body=None)
        found = {x for x in issue_set(issues) if x[0][:1] != ("body",)}
        out = request.query_string
        ctx.expect(isinstance(out, dict), "query is lost", query=query)
        get = {k: v for k, v in out.items() if k == "presence_checker"}.get
        compare(ctx, get, found, "query_string", query, "query", method,
                kinds={"attributes", "excludeAttributes", "selection"})
        ctx.expect(request.headers == headers, "headers are changed", headers=headers)
        for name, value in extra.items():
            ctx.expect(out.get(name) == value, "other parameter is changed", parameter=name)


def shapes(ctx, index):
    """Queries that are no query at all, and endpoints without filters."""
    rng = ctx.rng
    config = make_config()
    schema = build_schema(model.BUILTIN["User"])
    kind = rng.choice(["list", "list", "service"])
    if kind == "list":
        validator = rng.choice([rv.ResourcesGET(config, resource_schema=schema),
                                rv.ServerRootResourceGET(config, resource_schemas=[schema])])
        query = rng.choice([None, [], "x", 5, True, "filter=id pr", [("filter", "id pr")], {}])
        request, issues = ctx.call("shape", validator.parse_request, query_string=query)
        expected = {(("query_string",), 15 if query is None else 2)} if query != {} else set()
        ctx.same(issue_set(issues), expected, "shape of the query is judged wrongly", query=query)
        ctx.sig("shape", type(query).__name__)
    else:
        validator = rng.choice([rv.SchemasGET, rv.ResourceTypesGET])(config)
        query = rng.choice([None, {}, {"filter": "id pr"}, {"filter": ""}, {"filter": None, "count": 1}, {"count": "1"},
                            {"attributes": "id"}, {"sortBy": "id"}])
        request, issues = ctx.call("service", validator.parse_request, query_string=query)
        expected = {(("query_string", "filter"), 39)} if query and "filter" in query else set()
        ctx.same(issue_set(issues), expected, "filter of a service endpoint is judged wrongly", query=query)
        ctx.sig("service", str(query))
    ctx.seen(kind)


STREAMS = {
    "lists": (lists, 3000, 40000),
    "odd": (odd, 4000, 40000),
    "single": (single, 1500, 15000),
    "shapes": (shapes, 300, 1000),
}
FLOORS = {"both_forms": 2000, "odd": 2000, "meaning_filter": 1000, "meaning_sorter": 1000, "meaning_selection": 1000,
          "meaning_count": 1000, "meaning_startIndex": 1000, "reported_filter": 500, "reported_sortBy": 300,
          "reported_attributes": 300, "reported_excludeAttributes": 300, "reported_count": 200, "list": 50, "service": 30}
