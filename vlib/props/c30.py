"""What an issue says about the data is true of the data."""
import copy
from datetime import datetime

from vlib import drive, gen, model
from vlib.lib import Filter, SCIMDataContainer, build_schema, plain

RULE = (
    "issues with their messages and contexts, from calls of every entry point with well-formed to hostile arguments and from "
    "attributes of every type given values of every kind; counted by code, entry point, depth and what the context names"
)
ASSUMPTIONS = [
    "an object that was not recognised as a SCIM object may be called 'unknown' or by its Python name",
    "an issue at a place which the given data spells in another way (full attribute name, dotted key) is not judged there",
]
NOTHING = object()


def notes(issues):
    """(location, code, message, context) of every issue."""
    found = []

    def walk(node, location):
        for key, value in node.items():
            if key == "_errors" and isinstance(value, list):
                found.extend((location, item["code"], item["error"], item["context"]) for item in value)
            else:
                walk(value, location + (key,))

    walk(issues.to_dict(msg=True, ctx=True), ())
    return found


def lookup(data, location):
    """Everything the data has at the location (names in any case)."""
    places = [data]
    for part in location:
        reached = []
        for place in places:
            if isinstance(place, SCIMDataContainer):
                place = plain(place)
            if isinstance(place, dict):
                reached += [v for k, v in place.items() if isinstance(k, str) and k.lower() == part.lower()]
            elif isinstance(place, list) and part.isdigit() and part.isascii() and int(part) < len(place):
                reached.append(place[int(part)])
        places = reached
    return places


def kinds(value):
    """The names under which the kind of a value may be reported."""
    if isinstance(value, bool):
        return {"boolean", "bool"}
    if isinstance(value, int):
        return {"integer", "int"}
    if isinstance(value, float):
        return {"decimal", "float"}
    if isinstance(value, str):
        return {"string", "str"}
    if isinstance(value, list):
        return {"list"}
    if isinstance(value, datetime):
        return {"datetime", "dateTime"}
    if isinstance(value, (dict, SCIMDataContainer)):
        return {"complex", "dict", "unknown"}
    return {"unknown", type(value).__name__}


def same(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a.lower() == b.lower()
    return type(a) is type(b) and a == b or isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b or a != a and b != b


def number(value):
    try:
        return int(value)
    except (TypeError, ValueError, OverflowError):
        return value


def some(values, test):
    return any(test(v) for v in values)


def texts_in(value):
    """All texts inside the given data."""
    if isinstance(value, str):
        yield value
    elif isinstance(value, SCIMDataContainer):
        yield from texts_in(plain(value))
    elif isinstance(value, dict):
        for k, v in value.items():
            yield from texts_in(k)
            yield from texts_in(v)
    elif isinstance(value, (list, tuple)):
        for v in value:
            yield from texts_in(v)


STATUS = {"POST response": 201, "DELETE response": 204}
NAMING = {104: ("operator", "expression"), 105: ("operator", "expression"), 106: ("expression",), 110: ("attribute",),
          111: ("attribute",), 112: ("value",), 113: ("value", "operator")}


def judge(ctx, target, given, issues, names):
    for location, code, message, context in notes(issues):
        witness = dict(call=target.label, arguments=given, location=location, code=code, said=message, context=context)
        ctx.seen(f"code:{code}")
        for name, value in context.items():
            ctx.expect(str(value) in message or repr(value) in message, "message leaves out what the context names",
                       name=name, **witness)
            ctx.expect(not isinstance(value, str) or "{" in value or "{" + name + "}" not in message,
                       "message is not filled in", **witness)
        data = given["data"] if target.kind == "data" else given
        values = lookup(data, location)
        if code == 2:
            judge_type(ctx, values, context, witness)
        elif code in (8, 14, 17):
            said = context["value" if code == 8 else "provided"]
            if not values:
                ctx.seen("unlocated")
                continue
            ctx.expect(some(values, lambda v: same(v, said) or isinstance(said, datetime)), "the issue names another value",
                       given=values, **witness)
            if code == 14:
                ctx.expect(context["expected_values"] and not some(context["expected_values"], lambda v: type(v) is type(said) and v == said),
                           "the value is among the expected ones", **witness)
            if code == 17:
                ctx.expect(context["resource_type"] in names, "expected resource type is unknown", **witness)
                ctx.expect(context["resource_type"] != said, "the type is the expected one", **witness)
            ctx.seen("values_named")
        elif code == 9:
            if values:
                ctx.expect(some(values, lambda v: right_entries(v, context["primary_entries"])),
                           "other items have the primary mark", given=values, **witness)
                ctx.seen("primary_named")
        elif code == 16:
            judge_status(ctx, target, given, values, location, context, witness)
        elif code == 12:
            judge_error_status(ctx, given, values, location, context, witness)
        elif code == 13:
            judge_mismatch(ctx, given, location, context, witness)
        elif code == 22:
            holders = lookup(data, location[:-1])
            ctx.expect(some(lookup(data, location[:-1] + ("totalResults",)), lambda v: v == context["total_results"])
                       and some(lookup(data, location[:-1] + ("Resources",)) or [[]],
                                lambda v: isinstance(v, list) and len(v) == context["n_resources"]),
                       "other numbers of results", holders=holders, **witness)
            ctx.seen("numbers_named")
        elif code == 24:
            wanted = given.get("start_index")
            ctx.expect(context["query_param_value"] == (1 if wanted is None else wanted), "other parameter value", **witness)
            ctx.expect(some(lookup(data, ("body", "startIndex")), lambda v: same(v, context["response_value"])),
                       "other response value", **witness)
            ctx.expect((context["response_key"], context["query_param_name"]) == ("startIndex", "startIndex"),
                       "other parameter", **witness)
            ctx.seen("pages_named")
        elif code == 29:
            holders = lookup(data, location[:-1])
            ctx.expect(some(holders, lambda v: uses(v, context["extension"])), "the extension is not used", **witness)
            ctx.expect(some(lookup(data, location), lambda v: not declares(v, context["extension"])),
                       "the extension is declared", **witness)
            ctx.seen("extensions_named")
        elif code == 30:
            pair = ["attributes", "excludeAttributes"]
            ctx.expect(sorted([context["other"], location[-1]]) == pair, "the other list is not named", **witness)
            ctx.expect(lookup(data, location[:-1] + (context["other"],)), "there is no such list", **witness)
            ctx.seen("others_named")
        elif code == 37:
            ctx.expect(context["max"] == target.limit, "other maximum", limit=target.limit, **witness)
            ctx.expect(some(lookup(data, location), lambda v: len(v) > context["max"]), "there are not so many", **witness)
            ctx.seen("maxima_named")
        elif code == 38:
            ctx.expect(context["max"] == given.get("fail_on_errors"), "other maximum of errors", **witness)
            ctx.seen("maxima_named")
        elif code == 10:
            ctx.expect(location == ("headers", context["header"]), "other header", **witness)
            ctx.seen("headers_named")
        elif code == 7:
            if values:
                ctx.expect(some(values, lambda v: isinstance(v, str) and context["keyword"].lower() in v.lower()),
                           "there is no such keyword", **witness)
                ctx.seen("keywords_named")
        elif code in NAMING:
            judge_texts(ctx, given, location, code, context, witness)
        ctx.sig(code, target.label, len(location), tuple(sorted(context)), context.get("expected"), context.get("provided")
                if code == 2 else None)


def judge_type(ctx, values, context, witness):
    expected, provided = context["expected"], context["provided"]
    ctx.expect(expected != provided, "the expected type is the provided one", **witness)
    if not values:
        ctx.seen("unlocated")
        return
    ctx.expect(some(values, lambda v: provided in kinds(v)), "the value is of another kind", given=values, **witness)
    if expected not in ("string", "complex", "dict"):  # a text or an object can be badly formed for another reason
        ctx.expect(some(values, lambda v: expected not in kinds(v) or provided in kinds(v)), "the value is of that kind",
                   given=values, **witness)
    ctx.seen("types_named")


def right_entries(value, said):
    items = value if isinstance(value, list) else []
    marked = [i for i, item in enumerate(items)
              if isinstance(item, (dict, SCIMDataContainer)) and some(lookup(item, ("primary",)), lambda v: v is True)]
    return sorted(said.split(", ")) == sorted(map(str, marked)) and len(marked) > 1


def judge_status(ctx, target, given, values, location, context, witness):
    if location == ("status",):
        wanted = STATUS.get(target.label, 200)
        ctx.expect(context["provided"] == given["status_code"], "other status", **witness)
        ctx.expect(context["expected"] == wanted, "other expected status", **witness)
    else:
        ctx.expect(some(values, lambda v: number(v) == number(context["provided"])), "other status", given=values, **witness)
        methods = lookup(given, location[:-1] + ("method",))
        ctx.expect(some(methods, lambda v: isinstance(v, str) and str(context["expected"]) in
                        {"POST": ("201",), "DELETE": ("204",), "PATCH": ("200", "204")}.get(v.upper(), ("200",))),
                   "other expected status", **witness)
    ctx.expect(number(context["provided"]) != number(context["expected"]), "the status is the expected one", **witness)
    ctx.seen("statuses_named")


def judge_error_status(ctx, given, values, location, context, witness):
    values = [given["status_code"]] if location == ("status",) else values
    ctx.expect(some(values, lambda v: number(v) == number(context["provided"])), "other error status", given=values, **witness)
    ctx.expect(not (isinstance(context["provided"], int) and 300 <= context["provided"] < 600), "an error status", **witness)
    ctx.seen("error_statuses_named")


def judge_mismatch(ctx, given, location, context, witness):
    if location[:-1] in ((), ("body",)):
        outer, inner = [given["status_code"]], lookup(given, ("body", "status"))
    else:
        place = location[:-1] if location[-2] != "response" else location[:-2]
        outer, inner = lookup(given, place + ("status",)), lookup(given, place + ("response", "status"))
    ctx.expect(some(outer, lambda v: str(v) == context["response_status"]), "other response status", given=outer, **witness)
    ctx.expect(some(inner, lambda v: str(v) == str(context["body_status"])) or not inner, "other status in the body",
               given=inner, **witness)
    ctx.expect(context["response_status"] != context["body_status"], "the statuses are the same", **witness)
    ctx.seen("mismatches_named")


def uses(holder, extension):
    if isinstance(holder, SCIMDataContainer):
        holder = plain(holder)
    return isinstance(holder, dict) and any(isinstance(k, str) and k.lower().startswith(extension.lower()) for k in holder)


def declares(value, extension):
    return isinstance(value, list) and some(value, lambda v: isinstance(v, str) and v.lower() == extension.lower())


def judge_texts(ctx, given, location, code, context, witness):
    sources = [t.lower() for t in texts_in(given)]
    for name in NAMING[code]:
        said = context[name]
        if not isinstance(said, str):
            if name == "value" and (said is None or isinstance(said, bool)):
                shown = {None: "null", True: "true", False: "false"}[said]
                ctx.expect(some(sources, lambda t: shown in t), "the text has no such part", name=name, **witness)
            continue
        if name == "expression":
            continue  # spaces may be written in another way
        ctx.expect(some(sources, lambda t: said.lower() in t) or not isinstance(witness["arguments"], dict),
                   "the text has no such part", name=name, **witness)
        ctx.seen("texts_named")
    if "expression" in context:
        ctx.expect("PLACE_HOLDER" not in context["expression"] or some(sources, lambda t: "place_holder" in t),
                   "the library's own marks are shown", **witness)
        words = set("".join(c if c.isalnum() else " " for c in context["expression"].lower()).split())
        ctx.expect(some(sources, lambda t: all(w in t for w in words)), "the text has no such expression", **witness)
        ctx.seen("expressions_named")


def calls(ctx, index):
    rng = ctx.rng
    specs, schemas, targets = drive.world(rng)
    targets = [t for t in targets if t.kind != "message"]
    names = {s["name"] for s in specs} | {"Schema", "ResourceType", "ServiceProviderConfig"}
    for _ in range(40):
        target = rng.choice(targets)
        level = rng.choice([0, 1, 1, 1, 2])
        kwargs = target.make(rng, level)
        given = copy.deepcopy(kwargs)
        try:
            _, issues = target.call(**kwargs)
        except Exception:  # that it raises is judged by C01
            ctx.seen("raised")
            continue
        ctx.seen("call:" + target.kind)
        if issues.has_issues():
            ctx.sample((target.label, given))
        judge(ctx, target, given, issues, names)


NAME_OF = {"boolean": {"boolean"}, "integer": {"integer"}, "decimal": {"decimal"}, "complex": {"complex"}}


def named(attr, whole, mode):
    if whole and attr.get("multi"):
        return {"list"}
    if attr["type"] == "datetime" and mode == "dump":
        return {"datetime", "dateTime"}
    return NAME_OF.get(attr["type"], {"string", attr["type"]})


def definition(spec, location):
    """The attribute at a location, and whether the location is that of its whole value."""
    found = None
    attrs = {}
    for urn, attr in model.all_attrs(spec):
        attrs[((urn,) if urn else ()) + (attr["name"],)] = attr
    for size in (1, 2):
        for path, attr in attrs.items():
            if len(path) == size and tuple(p.lower() for p in path) == tuple(p.lower() for p in location[:size]):
                found = attr, location[size:]
    if found is None:
        return None
    attr, rest = found
    if rest and attr.get("multi") and rest[0].isdigit():
        if len(rest) == 1:
            return attr, False
        rest = rest[1:]
    elif not rest:
        return attr, True
    for sub in attr.get("sub", ()):
        if sub["name"].lower() == rest[0].lower():
            return sub, len(rest) == 1
    return None


def lowered(values):
    return sorted(str(v).lower() for v in values)


def definitions(ctx, index):
    rng = ctx.rng
    spec = gen.some_spec(rng)
    schema = build_schema(spec)
    for _ in range(8):
        mode = rng.choice(["parse", "dump"])
        data = gen.corrupt(rng, gen.resource(rng, spec, mode), rng.choice([1, 2, 4]))
        if not isinstance(data, dict):
            continue
        for urn, attr in model.all_attrs(spec):
            holder = data if urn is None else data.get(urn)
            if not isinstance(holder, dict) or rng.random() < 0.6:
                continue
            if attr.get("enforce") and attr["type"] == "string":
                value = gen.near(rng, rng.choice(attr["canonical"]))
                holder[attr["name"]] = [value, "Work"] if attr.get("multi") else value
            if attr.get("multi") and any(s["name"] == "primary" and s["type"] == "boolean" for s in attr.get("sub", ())):
                holder[attr["name"]] = [{"primary": rng.random() < 0.5} for _ in range(rng.choice([2, 3, 12]))]
        if rng.random() < 0.1:
            data["id"] = rng.choice(["bulkId", "bulkId:1", "a-bulkId"])
        try:
            _, issues = getattr(schema, mode)(copy.deepcopy(data))
        except Exception:
            ctx.seen("raised")
            continue
        ctx.sample((spec["name"], mode, data))
        for location, code, message, context in notes(issues):
            found = definition(spec, location)
            if code == 9:
                ctx.expect(some(lookup(data, location), lambda v: right_entries(v, context["primary_entries"])),
                           "other items have the primary mark", data=data, location=location, said=message)
                ctx.seen("primary_named")
                ctx.sig("primary", context["primary_entries"])
            if code == 7:
                ctx.expect(some(lookup(data, location), lambda v: isinstance(v, str) and context["keyword"] in v),
                           "there is no such keyword", data=data, location=location, said=message)
                ctx.seen("keywords_named")
            if found is None or code not in (2, 3, 14):
                continue
            attr, whole = found
            witness = dict(schema=spec["name"], mode=mode, attribute=attr, data=data, location=location, said=message,
                           context=context)
            if code == 2:
                ctx.expect(context["expected"] in named(attr, whole, mode), "other type is expected", **witness)
                ctx.seen("expected_types")
                ctx.sig("type", attr["type"], whole, mode, context["provided"])
            elif code == 3:
                ctx.expect(attr["type"] == context["scim_type"] == "binary", "other type is expected", **witness)
                ctx.seen("expected_binary")
            else:
                ctx.expect(lowered(context["expected_values"]) == lowered(attr["canonical"]), "other values are expected",
                           **witness)
                ctx.seen("expected_values")
                ctx.sig("values", tuple(lowered(attr["canonical"])), whole)


GOOD = ['a eq 1', 'userName co "a or b"', "b.c sw 'x y'", 'd pr', 'emails[type eq "work"]', 'x[y gt 1 and z co "]"]',
        'e ne "|&PLACE_HOLDER_3&|"', "not f pr", '(g le 3)', '(h eq "(" or i pr)', "true eq false"]
VALUES = ['"v"', "'v w'", "5", '"and"', "1.5", "true", '"(x"', '"y]"', '""']


def faulty(rng):
    """A clause with one fault: its text, and the code and context it has to be reported with."""
    name = rng.choice(["a", "userName", "b.c", "urn:x:y:z", "urn:x:y:z.w", "orNot", "andy"])
    value = rng.choice(VALUES)
    operator = rng.choice(["zz", "is", "=", "eqq", "has", "HAS", "Zz"])
    kind = rng.choice(["binary", "unary", "operand", "value", "fit", "name", "names", "many", "one", "empty", "deep"])
    if kind == "binary":
        text = f"{name} {operator} {value}"
        return text, 105, dict(operator_type="binary", operator=operator, expression=text)
    if kind == "unary":
        text = f"{name} {operator}"
        return text, 105, dict(operator_type="unary", operator=operator, expression=text)
    if kind == "operand":
        operator = rng.choice(["eq", "ne", "co", "sw", "ew", "gt", "ge", "lt", "le"])
        text = f"{name} {operator}"
        return text, 104, dict(operator=operator, expression=text)
    if kind == "value":
        value = rng.choice(["v", "12x", "1.5.2", "urn:a", "True1", "-", '"a"b'])
        return f"{name} eq {value}", 112, dict(value=value)
    if kind == "fit":
        operator = rng.choice(["co", "sw", "ew", "gt", "ge", "lt", "le"])
        shown, value = rng.choice([("null", None), ("true", True), ("false", False)])
        return f"{name} {operator} {shown}", 113, dict(value=value, operator=operator)
    if kind in ("name", "names"):
        name = rng.choice(["a..b", "a.b.c", "a-b", "é.", "urn:x:", "$a", "a$", "ns:a.b.c"])
        return f"{name} " + ("pr" if kind == "name" else f"eq {value}"), 111, dict(attribute=name)
    if kind == "many":
        text = rng.choice([f"{name} eq 1 2", f"{name} eq {value} {value}", f"{name} zz 1 2 3"])
        return text, 106, dict(expression=text)
    if kind == "one":
        text = rng.choice([name, value])
        return text, 106, dict(expression=text)
    if kind == "empty":
        name = rng.choice(["a", "emails", "urn:x:y:z"])
        return f"{name}[{rng.choice(['', ' '])}]", 110, dict(attribute=name)
    text = f"{name.split('.')[0]}x {operator} {value}"
    if "]" in value:
        text = f"q {operator} 'v]'"
    return f"emails[{text}]", 105, dict(operator_type="binary", operator=operator, expression=text)


def clauses(ctx, index):
    rng = ctx.rng
    for _ in range(30):
        text, code, context = faulty(rng)
        whole = text
        for _ in range(rng.choice([0, 0, 1, 2])):
            r = rng.random()
            if r < 0.3 and "[" not in text or r < 0.15:
                whole = f"({whole})" if rng.random() < 0.6 else f"not ({whole})"
            else:
                parts = [whole, rng.choice(GOOD)]
                rng.shuffle(parts)
                whole = rng.choice([" and ", " or "]).join(parts)
        if rng.random() < 0.2:
            whole = f"emails[{text}]" if "[" not in text and "]" not in text else whole
        try:
            result, issues = Filter.parse(whole)
        except Exception:
            ctx.seen("raised")
            continue
        found = [(c, x) for _, c, _, x in notes(issues)]
        ctx.expect((code, context) in found, "the fault is described in another way", text=whole, fault=(code, context),
                   found=found)
        ctx.expect(len(found) == 1, "other faults are described", text=whole, fault=(code, context), found=found)
        ctx.seen(f"clause:{code}")
        ctx.sig("clause", code, whole)
        ctx.sample((whole, code, context))


STREAMS = {"calls": (calls, 700, 12000), "definitions": (definitions, 700, 10000), "clauses": (clauses, 300, 5000)}
FLOORS = {"types_named": 5000, "values_named": 200, "primary_named": 50, "keywords_named": 50, "statuses_named": 500,
          "error_statuses_named": 50, "mismatches_named": 100, "numbers_named": 100, "pages_named": 20, "extensions_named": 30,
          "others_named": 200, "maxima_named": 50, "headers_named": 200, "texts_named": 500, "expressions_named": 200,
          "expected_types": 3000, "expected_values": 50, "expected_binary": 10,
          **{f"clause:{code}": 200 for code in (104, 105, 106, 110, 111, 112, 113)}}
