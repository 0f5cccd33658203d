from vlib import filters, gen
from vlib.core import Skip
from vlib.lib import Invalid, PatchPath, ast_of, issue_list, rep_of
from vlib.props.c02 import shape

RULE = (
    "patch paths assembled from names and random filters, and damaged ones, decided by an independent "
    "reader; counted by form of the path, shape of its filter and verdict"
)
ASSUMPTIONS = [
    "white space in front of the attribute, a repeated attribute name after the filter and texts on "
    "which the filter grammar is not clear are not judged",
]


def read(text):
    """(target, filter tree or None, sub-attribute or None), or None when the text is no path."""
    filters.tokens(text)  # not judged when quotes are glued to other text
    opened = closed = None
    quote = None
    for i, c in enumerate(text):
        if quote:
            if c == quote:
                quote = None
        elif c in "\"'":
            quote = c
        elif c == "[":
            if opened is not None:
                return None
            opened = i
        elif c == "]":
            if closed is not None or opened is None:
                return None
            closed = i
    if opened is None:
        rep = filters.split_name(text)
        return None if rep is None else (rep, None, None)
    if closed is None:
        # the quote may also be the one of an unterminated string
        return None
    head, tail = text[:opened], text[closed + 1 :]
    if head != head.strip():
        raise filters.Unspecified()
    tree = filters.read(text[: closed + 1])
    if quote:
        return None
    if tree is None or tree[0] != "complex":
        return None
    rep = tree[1]
    if not tail:
        return rep, tree, None
    if not tail.startswith("."):
        return None
    sub = filters.split_name(tail[1:])
    if sub is None:
        return None
    if sub[2]:
        if sub[1].lower() == rep[1].lower():
            raise filters.Unspecified()
        return None
    if sub[0]:
        return None
    return rep, tree, (rep[0], rep[1], sub[1])


def judge(ctx, text, expected, kind):
    path, issues = ctx.call("PatchPath.parse", PatchPath.parse, text)
    found = issue_list(issues)
    ctx.expect((path is Invalid) == bool(found), "issues and path do not exclude each other", text=text,
               issues=found)
    if expected is filters.Unspecified:
        ctx.seen("not_judged")
        return None
    if expected is None:
        ctx.expect(path is Invalid, "text that is not a path was accepted", text=text)
        ctx.seen("rejected")
        ctx.sig(kind, tuple(code for _, code in found)[:3], min(len(text) // 6, 10))
        return None
    target, tree, sub = expected
    ctx.expect(path is not Invalid, "well-formed path was rejected", text=text, issues=found)
    ctx.same(rep_of(path.attr_rep), target, "path addresses another attribute", text=text)
    if tree is None:
        ctx.expect(path.complex_filter is None, "path without filter has one", text=text)
    else:
        ctx.expect(path.complex_filter is not None, "filter of the path is lost", text=text)
        ctx.same(ast_of(path.complex_filter.operator), tree, "path has another filter", text=text)
    actual = path.complex_filter_attr_rep
    ctx.same(None if actual is None else rep_of(actual), sub, "path addresses another sub-attribute", text=text)
    ctx.seen("accepted")
    ctx.sig(kind, bool(target[0]), bool(target[2]), bool(sub), shape(tree[2]) if tree else None)
    return path


def render(rng, wild=True):
    schema, attr, sub = filters.some_rep(rng, sub=0.4)
    r = rng.random()
    if r < 0.4:
        return filters.Writer(rng).name((schema, attr, sub)), ((schema, attr, sub), None, None)
    inner = filters.tree(rng, rng.choice([0, 0, 1, 2]), inner=True)
    writer = filters.Writer(rng, wild)
    try:
        text = writer.name((schema, attr, "")) + "[" + writer.space(0) + writer.write(inner) + writer.space(0) + "]"
    except filters.Unspecified:
        raise Skip()
    rep = (schema, attr, "")
    target = None
    if rng.random() < 0.6:
        target = rng.choice(filters.SUBS + ["Value", "x_y", "and", "not"])
        text += "." + target
        target = (schema, attr, target)
    return text, (rep, ("complex", rep, inner), target)


def valid(ctx, index):
    rng = ctx.rng
    text, expected = render(rng)
    ctx.sample(text)
    path = judge(ctx, text, expected, "valid")
    again = judge(ctx, text, expected, "valid")
    ctx.same(ctx.call("eq", lambda: path == again), True, "equal paths differ", text=text)
    alike = gen.twin(rng, text)
    if alike != text and judge(ctx, alike, expected_of(alike), "twin") is not None:
        judge(ctx, text, expected, "valid")
        ctx.seen("twins")
    other, other_expected = render(rng)
    second = judge(ctx, other, other_expected, "valid")
    if (expected[1] is None) != (other_expected[1] is None) or (expected[2] is None) != (other_expected[2] is None) \
            or expected[0][1].lower() != other_expected[0][1].lower():
        ctx.same(ctx.call("eq", lambda: path == second), False, "different paths are equal", a=text, b=other)
        ctx.seen("compared")


def expected_of(text):
    try:
        return read(text)
    except filters.Unspecified:
        return filters.Unspecified


def mutated(ctx, index):
    rng = ctx.rng
    text, _ = render(rng, wild=rng.random() < 0.3)
    text = filters.mutate(rng, text)
    ctx.sample(text)
    judge(ctx, text, expected_of(text), "mutated")


def targeted(ctx, index):
    rng = ctx.rng
    inner = rng.choice(['type eq "work"', "value pr", 'a eq 1 and b pr', 'not (x eq "]")', 'display co "[x]"'])
    name = rng.choice(["emails", "urn:x:y:emails", "a"])
    sub = rng.choice(["value", "$ref", "display"])
    kind, text = rng.choice([
        ("empty", rng.choice(["", " ", ".", "[]", "[", "]", '""', "''", ":"])),
        ("no_dot", f"{name}[{inner}]{sub}"),
        ("two_dots", f"{name}[{inner}]..{sub}"),
        ("trailing_dot", f"{name}[{inner}]."),
        ("space_before_dot", f"{name}[{inner}] .{sub}"),
        ("space_in_sub", f"{name}[{inner}]. {sub}"),
        ("trailing_space", f"{name}[{inner}] "),
        ("nested_sub", f"{name}[{inner}].{sub}.x"),
        ("urn_sub", f"{name}[{inner}].urn:x:{sub}"),
        ("sub_then_filter", f"{name}.{sub}[{inner}]"),
        ("two_filters", f"{name}[{inner}][{inner}]"),
        ("two_filters_sub", f"{name}[{inner}].{sub}[{inner}]"),
        ("empty_filter", f"{name}[{rng.choice(['', ' '])}].{sub}"),
        ("bad_filter", f"{name}[{rng.choice(['x', 'x eq', 'and', 'x eq y', 'x eq 1 and', '(x pr', 'x pr)', 'not', '1', 'x eq 1 2'])}]"),
        ("open", f"{name}[{inner}"),
        ("open_sub", f"{name}[{inner}.{sub}"),
        ("close", f"{name}{inner}]"),
        ("swap", f"{name}]{inner}["),
        ("no_name", f"[{inner}].{sub}"),
        ("bad_name", rng.choice(["a-b", "a b", "a.b.c", ".a", "a.", "a..b", "urn::a", ":a", "a/b", "$x", "a\n", "é é", "a,b"])),
        ("bad_name_filter", f"{rng.choice(['a-', 'a.b.c', 'urn::a', 'a/b', 'a ', 'x y'])}[{inner}]"),
        ("two_clauses", f"{name}[{inner}] and a pr"),
        ("logical", f"not {name}[{inner}]"),
        ("clause_before", f"a pr and {name}[{inner}]"),
        ("group", f"({name}[{inner}])"),
        ("comparison", f'{name} eq "x"'),
        ("present", f"{name} pr"),
        ("quoted", f'"{name}"'),
        ("garbage", f"{name}[{inner}].{sub}" + rng.choice([" ", "]", "[", "x y", " eq 1", '"x"', ","])),
        ("placeholder", rng.choice(["|&PLACE_HOLDER_%d&|", "emails[x eq 'a'].|&PLACE_HOLDER_%d&|", "|&PLACE_HOLDER_%d&|[x eq 'a']",
                                    "emails[x eq |&PLACE_HOLDER_%d&| and y eq 'a']"]) % rng.randint(0, 30)),
        ("control", f"{name}[{inner}].{sub}"),
        ("control", f"{name}[{inner}]"),
        ("control", f"{name}.{sub}"),
    ])
    ctx.sample((kind, text))
    judge(ctx, text, expected_of(text), kind)


STREAMS = {
    "valid": (valid, 12000, 150000),
    "mutated": (mutated, 20000, 250000),
    "targeted": (targeted, 12000, 100000),
}
FLOORS = {"accepted": 10000, "rejected": 10000, "compared": 1000, "twins": 2000}
