import functools
from datetime import datetime, timedelta, timezone

from vlib import gen, model
from vlib.lib import MISSING, AttrRep, SCIMDataContainer, Sorter, build_schema, plain, typed

RULE = (
    "lists of resources of one or several schemas, with values that tie, differ only in letter case, are zero, "
    "false, empty, null or absent, sorted by simple, multi-valued, complex and sub-attributes of main schemas and "
    "extensions; counted by kind of attribute, order, number of ties and of resources without a value"
)
ASSUMPTIONS = [
    "resources sorted together hold comparable values (text is never compared with numbers)",
    "three and more resources are sorted together only when they agree on case sensitivity, as the pairwise rule "
    "is not an order otherwise",
]
WORDS = ["a", "A", "b", "B", "aa", "Aa", "aA", "Z", "z", "é", "É", "10", "9", " ", "a b", "_", "", "ab", "AB", "aB", "primary", "work"]
NUMBERS = [0, 1, -1, 2, 10, 9, 0.5, -0.5, 10**20, 1.0, 3, 2.5]


def scalar(rng, kind):
    if kind == "string":
        return rng.choice(WORDS)
    if kind == "integer":
        return rng.choice([n for n in NUMBERS if isinstance(n, int)])
    if kind == "decimal":
        return float(rng.choice(NUMBERS))
    if kind == "boolean":
        return rng.random() < 0.5
    if kind in ("moment", "local", "either"):  # parsed dates: with a time zone, without one (UTC), or both
        moment = datetime(rng.choice([1999, 2020, 2020, 2024]), rng.choice([1, 2, 12]), rng.choice([1, 28]), rng.choice([0, 9, 10, 23]),
                          rng.choice([0, 30]), 0, rng.choice([0, 0, 1]))
        if kind == "local" or (kind == "either" and rng.random() < 0.5):
            return moment
        return moment.replace(tzinfo=timezone(timedelta(hours=rng.choice([0, 0, 2, -5, 14]))))
    return gen.valid_scalar(rng, {"type": kind}, "parse")


def value(rng, attr):
    r = rng.random()
    if r < 0.12:
        return MISSING
    if r < 0.17:
        return None
    if attr.get("multi"):
        if attr["type"] != "complex":
            return [scalar(rng, attr.get("flavour", attr["type"])) for _ in range(rng.randint(0, 3))]
        items = []
        marked = rng.choice([None, 0, 1, 2, 2, rng.randint(0, 11)])
        for i in range(gen.few(rng, 0, 4)):
            item = complex_value(rng, attr)
            if i == marked:
                item[rng.choice(["primary", "primary", "Primary"])] = True
            elif rng.random() < 0.5:
                item["primary"] = rng.choice([False, None])
            items.append(item)
        return items
    if attr["type"] == "complex":
        return complex_value(rng, attr)
    return scalar(rng, attr.get("flavour", attr["type"]))


def complex_value(rng, attr):
    out = {}
    for sub in attr["sub"]:
        if sub["name"] == "primary":
            continue
        v = value(rng, sub)
        if v is not MISSING:
            out[sub["name"]] = v
    return out


def attribute(rng, name, kind, form, case_exact):
    simple = {"name": name, "type": kind, "caseExact": case_exact}
    if kind == "datetime" and rng.random() < 0.8:
        simple["flavour"] = rng.choice(["moment", "moment", "local", "either"])
    if form == "simple":
        return simple, ""
    if form == "multi":
        return dict(simple, multi=True), ""
    sub_name = "value"
    if form in ("single_sub", "multi_sub"):
        sub_name = rng.choice(["value", "rank", "note"])
    subs = [dict(simple, name=sub_name), {"name": "primary", "type": "boolean"}, {"name": "zeta", "type": "string"},
            {"name": "type", "type": "string"}]
    if form == "single_sub_multi":
        subs[0]["multi"] = True
    if form == "no_value":
        subs[0]["name"] = "rank"
    rng.shuffle(subs)
    multi = form in ("primary", "multi_sub", "no_value")
    return ({"name": name, "type": "complex", "multi": multi, "sub": subs},
            sub_name if form in ("single_sub", "multi_sub", "single_sub_multi") else "")


FORMS = ["simple", "simple", "simple", "multi", "primary", "primary", "single_sub", "multi_sub", "single_sub_multi",
         "no_value", "complex_single"]


def key_of(spec, data, rep):
    """(has value, value, case-exact)"""
    for urn, attr in model.all_attrs(spec):
        if not model.rep_equal((urn or spec["schema"], attr["name"], ""), (rep[0], rep[1], "")):
            continue
        found = model.find(data if urn is None else model.find(data, urn), attr["name"])
        if rep[2]:
            subs = [s for s in attr.get("sub", []) if s["name"].lower() == rep[2].lower()]
            if not subs:
                continue
            sub = subs[0]
            if attr.get("multi"):
                found = model.find(found[0], sub["name"]) if isinstance(found, list) and found else MISSING
            else:
                found = model.find(found, sub["name"])
            attr = sub
            if attr.get("multi") and isinstance(found, list):
                found = found[0] if found else MISSING
        elif attr.get("multi"):
            if not isinstance(found, list) or not found:
                found = MISSING
            elif attr["type"] == "complex":
                primary = [item for item in found if model.find(item, "primary") is True]
                subs = [s for s in attr["sub"] if s["name"].lower() == "value"]
                found = model.find(primary[0], "value") if primary and subs else MISSING
                attr = subs[0] if subs else attr
            else:
                found = found[0]
        if found is MISSING or found is None or found == "" or isinstance(found, (dict, list)):
            return (False, None, False)
        if isinstance(found, str) and attr["type"] != "string":
            return None  # other text: order is not specified
        if isinstance(found, datetime) and found.tzinfo is None:
            found = found.replace(tzinfo=timezone.utc)
        return (True, found, bool(attr.get("caseExact")))
    return (False, None, False)


def less(a, b):
    if not a[0] or not b[0]:
        return a[0] and not b[0]
    if isinstance(a[1], str):
        if a[2] or b[2]:
            return a[1] < b[1]
        return a[1].lower() < b[1].lower()
    return a[1] < b[1]


def reference(keys, ascending):
    """Expected order of positions: stable, resources without a value last (ascending) or first."""
    def compare(i, j):
        a, b = keys[i], keys[j]
        if less(a, b):
            return -1 if ascending else 1
        if less(b, a):
            return 1 if ascending else -1
        return i - j

    return sorted(range(len(keys)), key=functools.cmp_to_key(compare))


def reuse(ctx, sorter, specs, schemas, given, data, keys, ascending, text):
    """The same sorter, on the same resources after they have changed."""
    if len(data) < 2 or ctx.rng.random() < 0.5 or any(not k.isalnum() or not k.isascii() for d in data for k in d):
        return
    schemas, keys, other = (list(x[1:]) + list(x[:1]) for x in (schemas, keys, data))
    for container, old, new in zip(given, data, other):
        for k in old:
            del container[k]
        for k, v in new.items():
            container[k] = SCIMDataContainer({k: v})[k]
    result = ctx.call("sort", sorter, given, schemas)
    position = {id(g): i for i, g in enumerate(given)}
    ctx.same([position.get(id(r)) for r in result], reference(keys, ascending),
             "order is wrong after the resources have changed", data=other, key=text, ascending=ascending, keys=keys)
    ctx.seen("reused")


def check(ctx, specs, data, rep, ascending, label):
    """specs: schema definition of each resource"""
    rng = ctx.rng
    built = {}
    for spec in specs:
        built.setdefault(id(spec), build_schema(spec))
    schemas = [built[id(spec)] for spec in specs]
    text = (rep[0] + ":" if rep[0] else "") + rep[1] + ("." + rep[2] if rep[2] else "")
    if rng.random() < 0.7:
        order = () if ascending and rng.random() < 0.3 else (ascending,)  # ascending unless asked otherwise
        sorter, issues = ctx.call("parse", Sorter.parse, text, *order)
        ctx.expect(not issues.has_issues(), "sort key is refused", key=text)
    else:
        sorter = Sorter(AttrRep(schema=rep[0], attr=rep[1], sub_attr=rep[2]), *(() if ascending and rng.random() < 0.3 else (ascending,)))
    given = [SCIMDataContainer(d) for d in data]
    snapshot = list(given)
    before = [typed(plain(g)) for g in given]
    if len(built) == 1 and rng.random() < 0.7:
        result = ctx.call("sort", sorter, given, schemas[0])
    else:
        result = ctx.call("sort", sorter, given, rng.choice([list, tuple])(schemas))
    ctx.expect(isinstance(result, list), "sorting does not give a list", result=result)
    position = {id(g): i for i, g in enumerate(snapshot)}
    order = [position.get(id(r)) for r in result]
    ctx.expect(sorted(o if o is not None else -1 for o in order) == list(range(len(data))),
               "result is not a permutation of the resources", order=order, data=data, key=text)
    ctx.expect(len(given) == len(snapshot) and all(a is b for a, b in zip(given, snapshot)),
               "given list is modified", data=data, key=text)
    ctx.expect([typed(plain(g)) for g in given] == before, "resources are modified", data=data, key=text)
    keys = [key_of(spec, d, rep) for spec, d in zip(specs, data)]
    if any(k is None for k in keys):
        ctx.seen("order_unspecified")
        return
    ctx.same(order, reference(keys, ascending), "order is wrong", data=data, key=text, ascending=ascending,
             keys=keys)
    reuse(ctx, sorter, specs, schemas, given, data, keys, ascending, text)
    present = sum(k[0] for k in keys)
    ties = sum(
        keys[i][0] and keys[j][0] and not less(keys[i], keys[j]) and not less(keys[j], keys[i])
        for i in range(len(keys)) for j in range(i)
    )
    if any(isinstance(k[1], datetime) for k in keys):
        ctx.seen("dates")
    if ties:
        ctx.seen("ties")
    if present < len(keys):
        ctx.seen("without_value")
    if order != list(range(len(data))):
        ctx.seen("reordered")
    ctx.seen("descending" if not ascending else "ascending")
    ctx.sig(label, ascending, len(data), present, min(ties, 5), len(built), tuple(order))
    ctx.sample((text, ascending, data))


def one_schema(ctx, index):
    rng = ctx.rng
    form = rng.choice(FORMS)
    kind = rng.choice(["string", "string", "string", "integer", "decimal", "boolean", "datetime", "uriref"])
    attr, sub = attribute(rng, "sortMe", kind, form, rng.random() < 0.4)
    urn = None
    spec = {"schema": "urn:x:y", "name": "Thing", "attrs": [{"name": "other", "type": "string"}], "extensions": []}
    if rng.random() < 0.3:
        urn = "urn:x:y:ext"
        spec["extensions"].append({"schema": urn, "attrs": [attr]})
    else:
        spec["attrs"].append(attr)
    for _ in range(3):
        data = []
        for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 5, 8, 12, gen.few(rng, 9, 15, 70)])):
            item = {"id": gen.word(rng), "other": rng.choice(WORDS)}
            v = value(rng, attr)
            if v is not MISSING:
                (item if urn is None else item.setdefault(urn, {}))[gen.recase_text(rng, "sortMe")] = v
            data.append(item)
        rep = (rng.choice(["", urn or "urn:x:y"]), gen.recase_text(rng, "sortMe"), sub)
        if rng.random() < 0.05:
            rep = rng.choice([("", "unknownOne", ""), ("urn:no:such", "sortMe", ""), ("", "sortMe", "nope"),
                              ("", "other", ""), ("", "ID", "")])
        check(ctx, [spec] * len(data), data, rep, rng.random() < 0.5, form)
        ctx.seen("form_" + form)


def mixed(ctx, index):
    """Resources of several schemas which define the sort key in different ways."""
    rng = ctx.rng
    kind = rng.choice(["string", "string", "integer", "boolean", "datetime"])
    exact = rng.random() < 0.5
    pair = rng.random() < 0.4
    namesakes = rng.random() < 0.2  # schemas are told apart by their URN only
    specs = []
    for k in range(rng.choice([2, 3])):
        form = rng.choice(["simple", "multi", "primary", "absent", "complex_single"])
        name = gen.recase_text(rng, "sortMe")
        attr, _ = attribute(rng, name if form != "absent" else "elsewhere", kind, form if form != "absent" else "simple",
                            rng.random() < 0.5 if pair else exact)
        specs.append({"schema": f"urn:x:y{k}", "name": "Thing" if namesakes else f"Thing{k}",
                      "attrs": [{"name": "other", "type": "string"}, attr], "extensions": []})
    for _ in range(3):
        chosen = [rng.choice(specs) for _ in range(2 if pair else rng.choice([2, 3, 4, 6, 9]))]
        data = []
        for spec in chosen:
            item = {"id": gen.word(rng)}
            v = value(rng, spec["attrs"][1])
            if v is not MISSING:
                item[spec["attrs"][1]["name"]] = v
            if spec["attrs"][1]["name"].lower() != "sortme" and rng.random() < 0.3:
                item["sortMe"] = scalar(rng, kind)  # not an attribute of that resource
            data.append(item)
        rep = (rng.choice(["", "", rng.choice(specs)["schema"]]), gen.recase_text(rng, "sortMe"), "")
        check(ctx, chosen, data, rep, rng.random() < 0.5, "mixed")
        ctx.seen("mixed")


BUILTIN_KEYS = [("", "userName", ""), ("", "name", "familyName"), ("", "emails", ""), ("", "displayName", ""),
                ("", "active", ""), ("", "title", ""), ("", "emails", "value"), ("", "id", ""), ("", "externalId", ""),
                ("", "phoneNumbers", ""), ("", "employeeNumber", ""), ("", "manager", "displayName"),
                ("urn:ietf:params:scim:schemas:extension:enterprise:2.0:User", "department", ""),
                ("urn:ietf:params:scim:schemas:core:2.0:User", "nickName", ""), ("", "members", ""),
                ("", "x509Certificates", ""), ("", "groups", "display"), ("", "meta", "version")]


def builtin(ctx, index):
    rng = ctx.rng
    names = rng.choice([["User"], ["User"], ["Group"], ["User", "Group"]])
    rep = rng.choice(BUILTIN_KEYS)
    specs, data = [], []
    for _ in range(gen.few(rng, 0, 7, 20)):
        spec = model.BUILTIN[rng.choice(names)]
        resource = gen.resource(rng, spec, "parse", density=0.5)
        for urn, attr in model.all_attrs(spec):
            if attr["name"] == rep[1] and rng.random() < 0.8:
                v = value(rng, attr)
                if v is not MISSING:
                    (resource if urn is None else resource.setdefault(urn, {}))[attr["name"]] = v
        specs.append(spec)
        data.append(resource)
    rep = (rep[0], gen.recase_text(rng, rep[1]), gen.recase_text(rng, rep[2]))
    keys = [key_of(spec, d, rep) for spec, d in zip(specs, data)]
    if len({k[2] for k in keys if k and k[0]}) > 1 and len(keys) > 2:
        specs, data = specs[:2], data[:2]
    check(ctx, specs, data, rep, rng.random() < 0.5, rep[1].lower())
    ctx.seen("builtin")


STREAMS = {
    "one_schema": (one_schema, 6000, 80000),
    "mixed": (mixed, 3000, 40000),
    "builtin": (builtin, 1500, 20000),
}
FLOORS = {"ties": 3000, "without_value": 3000, "reordered": 5000, "descending": 5000, "ascending": 5000,
          "dates": 1000, "mixed": 3000, "builtin": 500, "form_primary": 500, "form_multi_sub": 200, "reused": 1000}
