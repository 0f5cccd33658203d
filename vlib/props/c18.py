import copy

from vlib import evaluate, filters, gen, model, single
from vlib.core import Skip
from vlib.lib import (
    INVALID,
    MISSING,
    AttrRep,
    AttributePresenceChecker,
    Filter,
    SCIMDataContainer,
    Sorter,
    build_schema,
    issue_set,
    make_config,
    plain,
    rv,
    same_data,
    typed,
)
from vlib.props.c04 import whole
from vlib.props.c10 import duplicated
from vlib.props.c13 import selection
from vlib.props.c14 import key_of, reference
from vlib.props.c17 import a_body

RULE = (
    "list responses over one or several schemas that agree with a page, filter, sort key and attribute selection, and "
    "such responses with one thing (or several) changed: a count, an index, a status, a resource, the order, a "
    "declared schema; counted by kind of query, changed thing and set of reported issues"
)
ASSUMPTIONS = [
    "when several kinds of violations meet, some of them are reported, not all (later checks depend on earlier ones)",
    "resources sorted together hold comparable values",
]
LIST_URN = "urn:ietf:params:scim:api:messages:2.0:ListResponse"
LIST = {
    "schema": LIST_URN,
    "name": "ListResponse",
    "common": single.SCHEMAS_ATTR,
    "attrs": [
        {"name": "totalResults", "type": "integer", "required": True},
        {"name": "startIndex", "type": "integer"},
        {"name": "itemsPerPage", "type": "integer"},
        {"name": "Resources", "type": "unknown"},
    ],
}


def schema_of(specs, resource):
    if len(specs) == 1:
        return specs[0]
    declared = model.find(resource, "schemas")
    if not isinstance(declared, list) or not declared or not all(isinstance(s, str) for s in declared):
        return None
    for spec in specs:
        known = {spec["schema"].lower()} | {e["schema"].lower() for e in spec.get("extensions", [])}
        if {s.lower() for s in declared} <= known:
            return spec
    return None


def truth(specs, body, status, start_index, count, tree, sorting, parts, include):
    """(released data or None, {kind of violation: issues})"""
    groups = {}

    def add(kind, location, code):
        groups.setdefault(kind, set()).add((location, code))

    data, issues = model.process(LIST, body, "dump")
    if data is INVALID:
        return None, {"envelope": model.under(issues, "body")}
    issues = issues | model.presence(LIST, data, "RESPONSE")
    if status != 200:
        add("status", ("status",), 16)
    resources = data.get("Resources", MISSING)
    if resources is not MISSING and not isinstance(resources, list):
        issues.add((("Resources",), 2))
    if issues:
        groups["envelope"] = model.under(issues, "body")

    def number(name):
        value = data.get(name)
        return value if isinstance(value, int) and not isinstance(value, bool) else None

    start, page, total = number("startIndex"), number("itemsPerPage"), number("totalResults")
    if start and start > start_index:
        add("start", ("body", "startIndex"), 24)
    if resources is not MISSING and not isinstance(resources, list):
        return None, groups
    items = [] if resources is MISSING else resources
    n = len(items)
    if page is not None and page != n:
        add("page", ("body", "itemsPerPage"), 11)
        add("page", ("body", "Resources"), 11)
    if total is not None:
        if total < n:
            add("counts", ("body", "Resources"), 22)
        if count is None and total > n:
            add("counts", ("body", "Resources"), 23)
        if count is not None and count < n:
            add("counts", ("body", "Resources"), 21)
        if count and count > 0 and total > n:
            for name in ("startIndex", "itemsPerPage"):
                if data.get(name) is None:
                    add("paging", ("body", name), 15)

    out = []
    schemas = [schema_of(specs, item) for item in items]
    for i, (item, spec) in enumerate(zip(items, schemas)):
        location = ("body", "Resources", str(i))
        if spec is None:
            add("resources", location, 27)
            out.append(INVALID)
            continue
        dumped, found = model.process(spec, item, "dump")
        if found:
            groups.setdefault("resources", set()).update(model.under(found, *location))
        out.append(dumped)
    if resources is not MISSING:
        data["Resources"] = out
    if "resources" not in groups:
        # single resources are typed again by what was dumped
        for i, (item, spec) in enumerate(zip(out, schemas)):
            location = ("body", "Resources", str(i))
            if tree is not None and evaluate.evaluate(tree, item, evaluate.of_schema(spec), False) != "P":
                add("filter", location, 25)
            found = model.presence(spec, item, "RESPONSE", parts, include)
            if found:
                groups.setdefault("presence", set()).update(model.under(found, *location))
        if sorting is not None:
            rep, ascending = sorting
            keys = [key_of(spec, item, rep) for item, spec in zip(out, schemas)]
            check_keys(keys)
            order = reference(keys, ascending)
            if [typed(out[i]) for i in order] != [typed(item) for item in out]:
                add("order", ("body", "Resources"), 26)
    return (None if groups else data), groups


def check_keys(keys):
    """Only comparable keys are judged."""
    if any(k is None for k in keys):
        raise Skip()
    held = [k for k in keys if k[0]]
    if len({isinstance(k[1], str) for k in held}) > 1 or (len({k[2] for k in held}) > 1 and len(keys) > 2):
        raise Skip()


def sort_keys(rng, spec):
    found = []
    for urn, attr in model.all_attrs(spec):
        rep = ("" if rng.random() < 0.6 else (urn or spec["schema"]), gen.recase_text(rng, attr["name"]), "")
        same = [a for _, a in model.all_attrs(spec) if a["name"].lower() == attr["name"].lower()]
        if len(same) > 1:
            rep = (urn or spec["schema"], rep[1], "")
        if attr["type"] in ("string", "integer", "decimal", "boolean"):
            found.append(rep)
        elif attr["type"] == "complex":
            found.append(rep)
            found.extend((rep[0], rep[1], s["name"]) for s in attr["sub"]
                         if not (attr.get("multi") and s.get("multi")) and s["type"] in ("string", "integer", "decimal", "boolean"))
    return found


def query(rng, specs, resources):
    """A filter, sort key and selection; mostly ones the resources could satisfy."""
    spec = rng.choice(specs)
    tree = text = None
    if rng.random() < 0.5:
        sample = rng.choice(resources) if resources else {}
        tree = whole(rng, spec, sample, rng.choice([0, 0, 1, 2]))
        text = filters.Writer(rng, False).write(tree)
    sorting = None
    if rng.random() < 0.5:
        keys = sort_keys(rng, spec)
        if keys:
            sorting = (rng.choice(keys), rng.random() < 0.6)
    texts, parts, include = [], [], None
    if rng.random() < 0.3:
        texts, parts = selection(rng, spec, maximum=4)
        include = rng.random() < 0.4
    return tree, text, sorting, texts, parts, include


def project(rng, spec, resource, parts, include):
    """The resource with only what the selection admits."""
    out, _ = model.process(spec, resource, "dump")
    bad = {loc for loc, code in model.presence(spec, out, "RESPONSE", parts, include) if code == 19}
    resource = copy.deepcopy(resource)
    for loc in sorted(bad, key=len, reverse=True):
        path = tuple(int(p) if p.isdigit() else p for p in loc)
        try:
            resource = gen.delete_at(resource, path)
        except (KeyError, IndexError, TypeError):
            pass
    return resource


def response(rng, specs, tree, sorting, parts, include, resources):
    chosen = []
    for resource in resources:
        spec = schema_of(specs, resource)
        if include is not None:
            resource = project(rng, spec, resource, parts, include)
        if tree is not None:
            dumped, _ = model.process(spec, resource, "dump")
            if evaluate.evaluate(tree, dumped, evaluate.of_schema(spec), False) != "P":
                continue
        chosen.append((spec, resource))
    if sorting is not None:
        keys = [key_of(spec, model.process(spec, r, "dump")[0], sorting[0]) for spec, r in chosen]
        check_keys(keys)
        chosen = [chosen[i] for i in reference(keys, sorting[1])]
    resources = [r for _, r in chosen]
    n = len(resources)
    body = {"schemas": [LIST_URN], "totalResults": n, "Resources": resources}
    count, start = None, 1
    r = rng.random()
    if r < 0.3:
        count = n + rng.choice([0, 0, 1, 5])
        start = rng.choice([1, 1, 3, 10])
        body["startIndex"] = rng.choice([1, start, start])
        body["itemsPerPage"] = n
        body["totalResults"] = n + rng.choice([0, 1, 100])
    elif r < 0.5:
        body["itemsPerPage"] = n
        if rng.random() < 0.5:
            body["startIndex"] = 1
    elif r < 0.6:
        count = n + rng.choice([0, 1])
    if n == 0 and rng.random() < 0.5:
        del body["Resources"]
    return body, count, start


CHANGES = ["none", "none", "status", "total", "total_missing", "page", "start", "count", "paging", "resource", "swap",
           "filter", "never", "schemas", "resource_schemas", "drop", "duplicate", "shape", "rename"]


def change(rng, kind, specs, body, count, start, status):
    body = copy.deepcopy(body)
    items = body.get("Resources") or []
    n = len(items)
    if kind == "status":
        status = rng.choice([201, 204, 400, 0, 404])
    elif kind == "total":
        body["totalResults"] = rng.choice([n - 1, n + 1, n + 5, 0, -1, float(n), float(n) + 0.5, str(n), True, [n]])
    elif kind == "total_missing":
        body["totalResults"] = None
        if rng.random() < 0.5:
            del body["totalResults"]
    elif kind == "page":
        body["itemsPerPage"] = rng.choice([n + 1, n - 1, 0, n + 10, str(n), float(n)])
    elif kind == "start":
        body["startIndex"] = start + rng.choice([1, 1, 5, -1, 0])
    elif kind == "count":
        count = rng.choice([None, 0, max(0, n - 1), n, n + 1])
    elif kind == "paging":
        count = max(n, 1)
        body["totalResults"] = n + rng.choice([0, 1, 3])
        for name in ("startIndex", "itemsPerPage"):
            if rng.random() < 0.4:
                body.pop(name, None)
    elif kind == "resource" and items:
        i = rng.randrange(n)
        items[i] = gen.corrupt(rng, items[i], rng.choice([1, 1, 2]))
    elif kind == "swap" and n > 1:
        i, j = rng.sample(range(n), 2)
        items[i], items[j] = items[j], items[i]
    elif kind == "never" and items:
        i = rng.randrange(n)
        spec = schema_of(specs, items[i])
        if spec is not None:
            items[i] = gen.resource(rng, spec, "dump", density=0.9)
    elif kind == "schemas":
        body["schemas"] = rng.choice([None, [], ["urn:x"], [LIST_URN.upper()], [LIST_URN, "urn:x"]])
    elif kind == "resource_schemas" and items:
        i = rng.randrange(n)
        items[i] = dict(items[i], schemas=rng.choice([
            None, [], ["urn:no:such"], [rng.choice(specs)["schema"].upper()], [rng.choice(specs)["schema"]],
            items[i].get("schemas", []) + ["urn:no:such"], "x", [None]]))
    elif kind == "drop" and items:
        items.pop(rng.randrange(n))
    elif kind == "duplicate" and items:
        items.append(copy.deepcopy(rng.choice(items)))
    elif kind == "shape":
        body["Resources"] = rng.choice([None, {}, "x", 5, [None], [5], [[]], True])
    elif kind == "rename":
        body = gen.recase(rng, gen.add_unknown(rng, body), 0.5)
    return body, count, start, status


def some_specs(rng):
    if rng.random() < 0.5:
        return [gen.some_spec(rng)]
    if rng.random() < 0.4:
        return [model.BUILTIN["User"], model.BUILTIN["Group"]]
    first = gen.random_spec(rng)
    for _ in range(20):
        second = gen.random_spec(rng)
        if second["schema"] != first["schema"]:
            return [first, second] if rng.random() < 0.7 else [first, model.BUILTIN["User"], second]
    return [first]


# violations which do not keep each other from being found
INDEPENDENT = {"filter", "order", "presence", "status", "start", "paging"}


def judge(ctx, specs, body, count, start, status, tree, text, sorting, texts, parts, include, tag):
    rng = ctx.rng
    given = copy.deepcopy(body)
    expected, groups = truth(specs, given, status, start, count, tree, sorting, parts, include)
    schemas = [build_schema(spec) for spec in specs]
    config = make_config()
    if len(specs) == 1 and rng.random() < 0.5:
        validator = rv.ResourcesGET(config, resource_schema=schemas[0])
    elif rng.random() < 0.5:
        validator = rv.ServerRootResourceGET(config, resource_schemas=schemas)
    else:
        validator = rv.SearchRequestPOST(config, resource_schemas=schemas)
    kwargs = {}
    if text is not None:
        filter_, issues = ctx.call("Filter.parse", Filter.parse, text)
        ctx.expect(not issues.has_issues(), "filter is refused", filter=text)
        kwargs["filter_"] = filter_
    if sorting is not None:
        rep, ascending = sorting
        kwargs["sorter"] = Sorter(AttrRep(schema=rep[0], attr=rep[1], sub_attr=rep[2]), ascending)
    if include is not None:
        kwargs["presence_checker"] = AttributePresenceChecker.parse(texts, include)[0]
    if count is not None or rng.random() < 0.3:
        kwargs["count"] = count
    if start != 1 or rng.random() < 0.3:
        kwargs["start_index"] = start
    if isinstance(body, dict) and rng.random() < 0.15:
        body = SCIMDataContainer(body)
    result, issues = ctx.call(type(validator).__name__, validator.dump_response, status_code=status, body=body,
                              **kwargs)
    found = issue_set(issues)
    everything = set().union(*groups.values()) if groups else set()
    witness = dict(body=given, status=status, count=count, start=start, filter=text, sort=sorting, names=texts,
                   include=include)
    if len(groups) <= 1 or set(groups) <= INDEPENDENT:
        ctx.same(found, everything, "issues differ", **witness)
        ctx.seen("exact")
        if len(groups) > 1:
            ctx.seen("several_exact")
    else:
        ctx.expect(found, "inconsistent response raises no issue", expected=everything, **witness)
        ctx.expect(found <= everything, "consistent part raises an issue", expected=everything, found=found, **witness)
        ctx.seen("several")
    for kind in groups:
        ctx.seen("alone_" + kind if len(groups) == 1 else "met_" + kind)
    if groups:
        ctx.expect(result.body is None, "inconsistent response is released", **witness)
    else:
        ctx.expect(same_data(plain(result.body), expected), "another body is released", released=result.body,
                   expected=expected, **witness)
        ctx.seen("released")
        if sorting is not None and len(given.get("Resources") or []) > 1:
            ctx.seen("released_sorted")
        if tree is not None and given.get("Resources"):
            ctx.seen("released_filtered")
    ctx.sample((tag, witness))
    ctx.sig(tag, len(specs), text is not None, sorting and sorting[1], include, count is None,
            tuple(sorted(groups)), tuple(sorted({code for _, code in everything})))


def responses(ctx, index):
    rng = ctx.rng
    specs = some_specs(rng)
    for _ in range(3):
        density = rng.choice([0.2, 0.5, 0.8])
        resources = [a_body(rng, rng.choice(specs), clean=0.99, density=density)
                     for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 6]))]
        resources = [r for r in resources if schema_of(specs, r) is not None]
        try:
            tree, text, sorting, texts, parts, include = query(rng, specs, resources)
            body, count, start = response(rng, specs, tree, sorting, parts, include, resources)
        except (Skip, filters.Unspecified):
            ctx.seen("not_judged")
            continue
        for _ in range(3):
            kind = rng.choice(CHANGES)
            extra = None
            changed, count_, start_, status = change(rng, kind, specs, body, count, start, 200)
            if rng.random() < 0.1 and isinstance(changed, dict):
                extra = rng.choice(CHANGES)
                try:
                    changed, count_, start_, status = change(rng, extra, specs, changed, count_, start_, status)
                except (TypeError, KeyError, AttributeError):
                    pass
            if kind == "filter" and resources and isinstance(changed.get("Resources", []), list):
                # something the filter may not admit gets in
                changed["Resources"] = list(changed.get("Resources") or []) + [copy.deepcopy(rng.choice(resources))]
                changed["totalResults"] = len(changed["Resources"])
                changed.pop("itemsPerPage", None)
                count_ = None
            if duplicated(changed):
                continue
            try:
                judge(ctx, specs, changed, count_, start_, status, tree, text, sorting, texts, parts, include, kind)
            except Skip:
                ctx.seen("not_judged")


def order(ctx, index):
    """Order of resources alone, with ties, gaps and permutations."""
    rng = ctx.rng
    kind = rng.choice(["string", "string", "integer", "boolean", "decimal"])
    exact = rng.random() < 0.4
    multi = rng.random() < 0.3
    specs = [{"schema": f"urn:x:y{k}", "name": f"Thing{k}", "extensions": [],
              "attrs": [{"name": "key", "type": kind, "caseExact": exact, "multi": multi and k == 0},
                        {"name": "note", "type": "string"}]}
             for k in range(rng.choice([1, 1, 2]))]
    pool = {"string": ["a", "A", "b", "B", "aa", "", "Z", "\u00e9"], "integer": [0, 1, -1, 5], "boolean": [True, False],
            "decimal": [0.0, 0.5, -1.5]}[kind]
    resources = []
    for i in range(gen.few(rng, 0, 5)):
        spec = rng.choice(specs)
        resource = {"schemas": [spec["schema"]], "id": str(i), "note": rng.choice(["x", "y"])}
        if rng.random() < 0.8:
            value = rng.choice(pool)
            resource["key"] = [value, rng.choice(pool)] if spec["attrs"][0]["multi"] else value
        resources.append(resource)
    sorting = (("", gen.recase_text(rng, "key"), ""), rng.random() < 0.5)
    if rng.random() < 0.6:
        keys = [key_of(schema_of(specs, r), r, sorting[0]) for r in resources]
        resources = [resources[i] for i in reference(keys, sorting[1])]
        if len(resources) > 1 and rng.random() < 0.5:
            i = rng.randrange(len(resources) - 1)
            resources[i], resources[i + 1] = resources[i + 1], resources[i]
    body = {"schemas": [LIST_URN], "totalResults": len(resources), "Resources": resources}
    judge(ctx, specs, body, None, 1, 200, None, None, sorting, [], [], None, "order")


def counts(ctx, index):
    """Page information alone, over small numbers."""
    rng = ctx.rng
    spec = {"schema": "urn:x:y", "name": "Thing", "attrs": [{"name": "key", "type": "string"}], "extensions": []}
    for _ in range(6):
        n = gen.few(rng, 0, 3)
        body = {"schemas": [LIST_URN], "totalResults": n if rng.random() < 0.4 else rng.randint(0, 4),
                "Resources": [{"schemas": ["urn:x:y"], "id": str(i)} for i in range(n)]}
        for name in ("startIndex", "itemsPerPage"):
            r = rng.random()
            if r < 0.6:
                body[name] = n if name == "itemsPerPage" and r < 0.4 else rng.randint(0, 4)
            elif r < 0.65:
                body[name] = rng.choice([None, "1", 1.0, 1.5, -1])
        if n == 0 and rng.random() < 0.5:
            del body["Resources"]
        judge(ctx, [spec], body, rng.choice([None, 0, 1, 2, 3, 4]), rng.choice([1, 1, 2, 4]),
              200, None, None, None, [], [], None, "counts")


STREAMS = {
    "responses": (responses, 1500, 25000),
    "order": (order, 3000, 30000),
    "counts": (counts, 1500, 15000),
}
FLOORS = {"exact": 5000, "released": 2000, "released_sorted": 300, "released_filtered": 100, "alone_order": 300,
          "alone_filter": 20, "alone_presence": 20, "alone_counts": 300, "alone_page": 100, "alone_paging": 100,
          "alone_start": 100, "alone_status": 20, "alone_resources": 50}
