import copy

from vlib import filters, gen, model, procs
from vlib.core import Skip
from vlib.lib import AttrRep, Filter, Invalid, PatchPath, build_attr, op
from vlib.props.c02 import shape, write
from vlib.props.c26 import operator_of

RULE = (
    "pairs of filters, paths, attribute definitions and match outcomes that are the same or differ in "
    "one respect; counted by kind of object, shape and difference"
)
ASSUMPTIONS = [
    "filters differing only in the letter case of names, attributes differing only in "
    "description, issuer or order of canonical values are not judged",
]


def compare(ctx, left, right, expected, what, **witness):
    for x, y in ((left, right), (right, left)):
        ctx.same(ctx.call("eq", lambda: x == y), expected, f"{what} compare wrongly (==)", **witness)
        ctx.same(ctx.call("ne", lambda: x != y), not expected, f"{what} compare wrongly (!=)", **witness)
    for x in (left, right):
        ctx.same(ctx.call("eq", lambda: x == x), True, f"{what}: one does not equal itself", **witness)
        for other in (None, 0, "x", [], {}, object()):
            ctx.same(ctx.call("eq", lambda: x == other), False, f"{what}: one equals another thing", **witness)
    ctx.seen("equal" if expected else "different")


# filters ---------------------------------------------------------------------------------------


def nodes(t, path=()):
    yield path, t
    if t[0] in ("and", "or"):
        for i, x in enumerate(t[1]):
            yield from nodes(x, path + (i,))
    elif t[0] == "not":
        yield from nodes(t[1], path + (0,))
    elif t[0] == "complex":
        yield from nodes(t[2], path + (0,))


def put(t, path, new):
    if not path:
        return new
    if t[0] in ("and", "or"):
        parts = list(t[1])
        parts[path[0]] = put(parts[path[0]], path[1:], new)
        return (t[0], tuple(parts))
    if t[0] == "not":
        return ("not", put(t[1], path[1:], new))
    return ("complex", t[1], put(t[2], path[1:], new))


def other_value(rng, op_, value):
    plain = filters.untyped(value)
    choices = []
    if isinstance(plain, str):
        choices = [gen.near(rng, plain), plain + " ", plain.upper(), ""]
        if op_ in ("eq", "ne"):
            choices += [None, ("bool", True)]
        if op_ not in filters.TEXT_OPS:
            choices += [1, 0]
    elif isinstance(plain, bool):
        choices = [("bool", not plain), int(plain), str(plain).lower(), None]
    elif plain is None:
        choices = ["null", ("bool", False), 0, ""]
    else:
        choices = [plain + 1, -plain, str(plain), plain + 0.5]
        if op_ in ("eq", "ne") and plain in (0, 1):
            choices += [("bool", bool(plain))] * 4
    return rng.choice(choices)


def changed(rng, t):
    """A tree differing from t in one respect."""
    path, node = rng.choice(list(nodes(t)))
    inner = any(get(t, path[:i])[0] == "complex" for i in range(len(path)))
    kind = node[0]
    if kind in ("and", "or"):
        how = rng.choice(["swap_kind", "order", "drop", "repeat", "not"])
        parts = list(node[1])
        if how == "swap_kind":
            node = ("or" if kind == "and" else "and", node[1])
        elif how == "order":
            rng.shuffle(parts)
            node = (kind, tuple(parts))
        elif how == "drop":
            parts.pop(rng.randrange(len(parts)))
            node = (kind, tuple(parts)) if len(parts) > 1 else parts[0]
        elif how == "repeat":
            node = (kind, tuple(parts + [parts[-1]]))
        else:
            node = ("not", node)
    elif kind == "not":
        how, node = rng.choice([("unwrap", node[1]), ("wrap", ("not", node))])
    elif kind == "complex":
        how = rng.choice(["name", "urn", "not"])
        if how == "not":
            node = ("not", node)
        else:
            node = ("complex", rename(rng, node[1], how), node[2])
    else:
        how = rng.choice(["name", "urn", "op", "value", "value", "not"])
        if how == "urn" and inner:
            how = "name"
        if how == "not":
            node = ("not", node)
        elif how in ("name", "urn"):
            node = (kind, rename(rng, node[1], how), *node[2:])
        elif how == "op" or kind == "pr":
            how = "op"
            if kind == "pr":
                node = ("eq", node[1], None)
            else:
                fitting = [o for o in filters.OPS if allowed(o, node[2])]
                node = rng.choice([("pr", node[1]), (rng.choice(fitting), *node[1:])])
        else:
            node = (kind, node[1], other_value(rng, kind, node[2]))
    return how, put(t, path, node)


def allowed(op_, value):
    plain = filters.untyped(value)
    if op_ in filters.TEXT_OPS:
        return isinstance(plain, str)
    if op_ in filters.ORDER_OPS:
        return plain is not None and not isinstance(plain, bool)
    return True


def rename(rng, rep, how):
    schema, attr, sub = rep
    if how == "urn":
        return (rng.choice(["urn:x:y", schema + "x" if schema else "urn:z", ""]), attr, sub)
    new = rng.choice([attr + "x", "x" + attr, gen.near(rng, attr)])
    return (schema, new if filters.name_ok(new) and new.lower() not in ("$ref", "and", "or", "not") else "x" + attr.strip("$"), sub)


def get(t, path):
    for i in path:
        t = t[1][i] if t[0] in ("and", "or") else t[1] if t[0] == "not" else t[2]
    return t


def loose(t):
    """Without the letter case of names."""
    if t[0] in ("and", "or"):
        return (t[0], tuple(loose(x) for x in t[1]))
    if t[0] == "not":
        return ("not", loose(t[1]))
    rep = tuple(x.lower() for x in t[1])
    return ("complex", rep, loose(t[2])) if t[0] == "complex" else (t[0], rep, *t[2:])


def strict_difference(a, b):
    """None when the pair is not judged."""
    if a == b:
        return False
    if loose(a) != loose(b):
        return True
    return None


def make(ctx, rng, t):
    if rng.random() < 0.3:
        return Filter(operator_of(t))
    text = write(rng, t)
    made, issues = ctx.call("Filter.parse", Filter.parse, text)
    ctx.expect(made is not Invalid, "well-formed filter gives no filter", text=text)
    return made


def filter_pairs(ctx, index):
    rng = ctx.rng
    a = filters.tree(rng, rng.choice([0, 0, 1, 1, 2, 3]))
    how, b = ("same", a) if rng.random() < 0.3 else changed(rng, a)
    if rng.random() < 0.1:
        how, b = "unrelated", filters.tree(rng, rng.choice([0, 1]))
    differ = strict_difference(a, b)
    if differ is None:
        ctx.seen("not_judged")
        raise Skip()
    left, right = make(ctx, rng, a), make(ctx, rng, b)
    compare(ctx, left, right, not differ, "filters", a=a, b=b)
    if not differ:
        ctx.same(left.to_dict(), right.to_dict(), "equal filters are exported differently", a=a)
    ctx.sample([repr(a), how])
    ctx.sig("filter", how, differ, shape(a))


# paths -----------------------------------------------------------------------------------------


def path_pairs(ctx, index):
    rng = ctx.rng

    def some():
        rep = filters.some_rep(rng, sub=0)
        if rng.random() < 0.35:
            return rep[:2] + (rng.choice(["", "value", "x"]),), None, None
        inner = filters.tree(rng, rng.choice([0, 0, 1]), inner=True)
        return rep, ("complex", rep, inner), rng.choice([None, None, "value", "display"])

    a = some()
    how = rng.choice(["same", "same", "recase", "target", "filter", "filter", "sub", "urn", "no_filter", "unrelated"])
    target, tree, sub = a
    if how == "recase" and tree is None:
        target = tuple(gen.recase_text(rng, x) for x in target)
    elif how == "target":
        target = rename(rng, target, "name")
    elif how == "urn":
        target = rename(rng, target, "urn")
    elif how == "filter" and tree is not None:
        for _ in range(10):
            new = changed(rng, tree[2])[1]
            if strict_difference(tree[2], new):
                tree = ("complex", tree[1], new)
                break
    elif how == "sub" and (tree is not None):
        sub = rng.choice([None, "value", "display", "valuE", "displays"])
    elif how == "sub":
        target = target[:2] + (rng.choice(["", "value", "x", "X", "values"]),)
    elif how == "no_filter" and tree is not None:
        if sub is not None:
            target, tree, sub = target[:2] + (sub,), None, None
        else:
            tree = None
    elif how == "unrelated":
        target, tree, sub = some()
    if tree is not None:
        tree = ("complex", target, tree[2])
    b = (target, tree, sub)

    def build(parts):
        target, tree, sub = parts
        if tree is None:
            text = filters.Writer(rng).name(target)
        else:
            text = filters.Writer(rng).name(target) + "[" + write(rng, tree[2]) + "]" + ("." + sub if sub else "")
        path, _ = ctx.call("PatchPath.parse", PatchPath.parse, text)
        if path is Invalid:
            raise Skip()
        return path

    def same():
        if not model.rep_equal(a[0], b[0]):
            return False
        if (a[2] or "").lower() != (b[2] or "").lower():
            return False
        if (a[1] is None) != (b[1] is None):
            return False
        if a[1] is None:
            return True
        differ = strict_difference(a[1], b[1])
        return None if differ is None else not differ

    expected = same()
    if expected is None:
        ctx.seen("not_judged")
        raise Skip()
    compare(ctx, build(a), build(b), expected, "paths", a=a, b=b)
    ctx.sig("path", how, expected, bool(a[1]), bool(a[2]), bool(a[0][0]), shape(a[1]) if a[1] else None)


# attribute definitions -------------------------------------------------------------------------


def flat_changes(rng, spec, simple):
    """(kind, changed description) of one attribute."""
    new = copy.deepcopy(spec)
    kinds = ["required", "mutability", "returned", "uniqueness", "multi", "name", "case_of_name"]
    if simple:
        kinds += ["caseExact", "canonical", "enforce", "type"]
    kind = rng.choice(kinds)
    if kind in ("required", "multi", "caseExact", "enforce"):
        new[kind] = not spec.get(kind, False)
    elif kind == "mutability":
        new[kind] = rng.choice([m for m in ("readWrite", "readOnly", "immutable", "writeOnly") if m != spec.get(kind, "readWrite")])
    elif kind == "returned":
        new[kind] = rng.choice([m for m in ("default", "always", "never", "request") if m != spec.get(kind, "default")])
    elif kind == "uniqueness":
        new[kind] = rng.choice([m for m in ("none", "server", "global") if m != spec.get(kind, "none")])
    elif kind == "name":
        new["name"] = "x" + spec["name"].strip("$")
    elif kind == "case_of_name":
        new["name"] = spec["name"].swapcase()
    elif kind == "canonical":
        if spec.get("canonical"):
            new["canonical"] = spec["canonical"] + ["zz"]
        else:
            new["canonical"] = ["zz"]
    elif kind == "type":
        new["type"] = rng.choice([t for t in ("string", "integer", "boolean", "datetime", "binary", "decimal") if t != spec["type"]])
        new.pop("refTypes", None)
    return kind, new


def attribute_pairs(ctx, index):
    rng = ctx.rng
    spec = gen.random_attr(rng, rng.choice(gen.NAMES), rich=True)
    if spec["type"] == "complex" and rng.random() < 0.4:
        place = rng.randrange(len(spec["sub"]))
        how = rng.choice(["sub", "sub", "sub_less", "sub_more", "sub_order"])
        new = copy.deepcopy(spec)
        if how == "sub":
            kind, new["sub"][place] = flat_changes(rng, spec["sub"][place], True)
            if kind == "multi" and spec["sub"][place]["name"] == "primary":
                raise Skip()
            how = "sub_" + kind
            expected = kind == "case_of_name"
        elif how == "sub_less":
            if len(new["sub"]) == 1:
                raise Skip()
            new["sub"].pop(place)
            expected = False
        elif how == "sub_more":
            new["sub"].append({"name": "zzmore", "type": "string"})
            expected = False
        else:
            raise Skip()
    elif rng.random() < 0.3:
        how, new, expected = "same", copy.deepcopy(spec), True
    else:
        how, new = flat_changes(rng, spec, spec["type"] != "complex")
        expected = how == "case_of_name"
        if how == "caseExact" and spec.get("canonical"):
            expected = False
    left, right = build_attr(spec), build_attr(new)
    compare(ctx, left, right, expected, "attributes", spec=spec, new=new)
    # processors
    if rng.random() < 0.3:
        tagged = copy.deepcopy(spec)
        tagged = procs.equip(rng, tagged)
        chains = [tagged.get("proc"), tagged.get("whole")] + [s.get("proc") for s in tagged.get("sub", [])]
        if any(c and (c["parse"] or c["dump"]) for c in chains):
            compare(ctx, left, build_attr(tagged), False, "attributes with other processors", spec=tagged)
            ctx.seen("processors")
    ctx.sig("attr", how, spec["type"], spec.get("multi"), expected)


# match outcomes --------------------------------------------------------------------------------


def outcomes(ctx, index):
    rng = ctx.rng
    made = {
        "PASSED": op.MatchResult.passed,
        "FAILED": op.MatchResult.failed,
        "FAILED_NO_ATTR": op.MatchResult.failed_no_attr,
        "MISSING_DATA": op.MatchResult.missing_data,
    }
    a, b = rng.choice(sorted(made)), rng.choice(sorted(made))
    left, right = made[a](), made[b]()
    compare(ctx, left, right, a == b, "match outcomes", a=a, b=b)
    ctx.same(left.status.name, a, "other status")
    ctx.same(ctx.call("eq", lambda: left == True), a == "PASSED", "outcome compares wrongly with True", a=a)  # noqa
    ctx.same(ctx.call("eq", lambda: left == False), a.startswith("FAILED"), "outcome compares wrongly with False", a=a)  # noqa
    if a == "MISSING_DATA":
        try:
            truth = bool(left)
        except ValueError:
            ctx.expect(True, "")
        else:
            ctx.expect(False, "an undecided outcome counts as decided", truth=truth)
    else:
        ctx.same(ctx.call("bool", bool, left), a == "PASSED", "outcome has the wrong truth", a=a)
    ctx.sig("match", a, b)


STREAMS = {
    "filters": (filter_pairs, 8000, 150000),
    "paths": (path_pairs, 5000, 80000),
    "attributes": (attribute_pairs, 3000, 50000),
    "outcomes": (outcomes, 200, 2000),
}
FLOORS = {"equal": 4000, "different": 5000, "processors": 200}
