from vlib import filters, gen
from vlib.core import Skip
from vlib.lib import Filter, Invalid, ast_of, issue_list
from vlib.props.c02 import shape, write

RULE = (
    "well-formed filters damaged by random edits or by a targeted defect, decided by an independent "
    "reader of the filter grammar; counted by defect and by shape of the damaged text"
)
ASSUMPTIONS = [
    "texts on which the grammar is not clear (quotes glued to words, number forms outside of JSON, "
    "qualified names inside of attr[...]) are not judged",
]


def judge(ctx, text, kind):
    """Whatever the text is, a filter comes back exactly when there is no issue."""
    filter_, issues = ctx.call("Filter.parse", Filter.parse, text)
    found = issue_list(issues)
    ctx.expect((filter_ is Invalid) == bool(found), "issues and filter do not exclude each other",
               text=text, filter=filter_, issues=found)
    ctx.same(issues.can_proceed(), filter_ is not Invalid, "rejected filter may be used", text=text)
    try:
        expected = filters.read(text)
    except filters.Unspecified:
        ctx.seen("not_judged")
        return
    if expected is None:
        ctx.expect(filter_ is Invalid, "malformed filter was accepted", text=text,
                   read_as=None if filter_ is Invalid else filter_.to_dict())
        ctx.seen("rejected")
    else:
        ctx.expect(filter_ is not Invalid, "well-formed filter was rejected", text=text, issues=found)
        ctx.same(ast_of(filter_.operator), expected, "part of the filter is ignored", text=text)
        ctx.seen("accepted")
    ctx.sig(kind, expected is None, tuple(sorted(code for _, code in found))[:4], text[:1], text[-1:],
            text.count("["), text.count("("), min(len(text) // 8, 12))


def mutated(ctx, index):
    rng = ctx.rng
    t = filters.tree(rng, rng.choice([0, 0, 1, 1, 2]))
    text = filters.mutate(rng, write(rng, t, wild=rng.random() < 0.4))
    ctx.sample(text)
    judge(ctx, text, "mutated")


def targeted(ctx, index):
    rng = ctx.rng
    base = write(rng, filters.tree(rng, rng.choice([0, 1])), wild=False)
    other = write(rng, filters.leaf(rng, filters.some_rep(rng, sub=0.3)), wild=False)
    name = filters.Writer(rng, False).name(filters.some_rep(rng))
    top = rng.choice(["emails", "urn:x:y:emails"])
    kind, text = rng.choice([
        ("open", lambda: "(" + base),
        ("close", lambda: base + ")"),
        ("swap", lambda: ")" + base + "("),
        ("empty_group", lambda: rng.choice(["()", "( )", base + " and ()", "() or " + base, "not ()"])),
        ("empty_complex", lambda: rng.choice([f"{top}[]", f"{top}[ ]", f"{top}[] and " + base])),
        ("open_square", lambda: rng.choice([f"{top}[value eq 1", f"{top}[value eq 1 and " + base])),
        ("close_square", lambda: rng.choice([f"{top} value eq 1]", base + "]", "]" + base])),
        ("nested", lambda: f"{top}[value eq 1 and {rng.choice(['sub', 'type'])}[x pr]]"),
        ("complex_sub", lambda: f"{top}.value[type eq 1]"),
        ("no_left", lambda: rng.choice(["and ", "or ", " AND "]) + base),
        ("no_right", lambda: base + rng.choice([" and", " or ", " not", " and not", " Or"])),
        ("double_op", lambda: base + rng.choice([" and and ", " or or ", " and or ", " not and "]) + other),
        ("no_operator", lambda: base + " " + other),
        ("juxtaposed", lambda: f"({base}) ({other})"),
        ("no_value", lambda: name + " " + rng.choice(filters.OPS)),
        ("only_name", lambda: name),
        ("pr_value", lambda: name + " pr " + rng.choice(["1", '"x"', "pr"])),
        ("unknown_op", lambda: name + " " + rng.choice(["=", "==", "like", "in", "e", "neq", "ge1", "pr", gen.near(rng, rng.choice(filters.OPS)), gen.near(rng, rng.choice(filters.OPS))])
            + rng.choice([" 1", ' "x"', "null", " -0.5"])),
        ("unknown_unary", lambda: name + " " + rng.choice(["np", "present", "isnull", gen.near(rng, "pr"), gen.near(rng, "pr")])),
        ("near_literal", lambda: name + " eq " + gen.near(rng, rng.choice(["true", "false", "null", "1", "-2.5", "1e3", '"x"', "'y z'"]))),
        ("near_keyword", lambda: base + " " + gen.near(rng, rng.choice(["and", "or"])) + " " + other),
        ("near_not", lambda: gen.near(rng, "not") + " " + other),
        ("bad_value", lambda: name + " eq " + rng.choice(
            ["bob", "tru", "1a", "--1", "1,5", "nan", "inf", "-Infinity", "urn:x", "é", "(1)", "[1]", "()", "{}", "*"])),
        ("unterminated", lambda: name + " eq " + rng.choice(['"', '"x', "'x", "x\"", '"x\'', "'"])),
        ("op_value", lambda: rng.choice([
            name + f" {rng.choice(sorted(filters.TEXT_OPS))} " + rng.choice(["1", "1.5", "true", "false", "null"]),
            name + f" {rng.choice(sorted(filters.ORDER_OPS))} " + rng.choice(["true", "false", "null"])])),
        ("bad_name", lambda: rng.choice(
            ["user-name", "a.b.c", ".a", "a.", "a..b", ":a", "urn::a", "a b", "a/b", "$x", '"a"', "a,b", "@a", "a.b.$ref"]
        ) + rng.choice([" pr", " eq 1", ' co "x"'])),
        ("bad_complex_name", lambda: rng.choice(["", "a-", "a/", "urn::a", " ", "emails ", "1.2.3"]) + "[value eq 1]"),
        ("garbage_after", lambda: base + rng.choice([" x", " 1", ' "x"', " ,", ";", " null", " eq", " )("])),
        ("garbage_before", lambda: rng.choice(["x ", "1 ", '"x" ', ", ", "; ", "null "]) + base),
        ("sub_after_complex", lambda: f"{top}[value eq 1].type"),
        ("sub_expression", lambda: f"{top}[value eq 1].type eq 2"),
        ("empty", lambda: rng.choice(["", " ", "\n\t ", '""', "''", "not", "and", "()", "[]"])),
        ("placeholder", lambda: rng.choice(["|&PLACE_HOLDER_%d&|", "a eq |&PLACE_HOLDER_%d&|", "(a eq 'x') and |&PLACE_HOLDER_%d&|",
                                            "emails[a eq 'x'] and |&PLACE_HOLDER_%d&|", "a eq 'x' and b eq |&PLACE_HOLDER_%d&|"])
            % rng.randint(0, 60)),
        ("trailing_in_group", lambda: f"({base} and) or {other}"),
        ("inside_complex", lambda: f"{top}[" + rng.choice(
            ["value", "value eq", "value eq 1 and", "or value pr", "not", "value eq 1 type pr", "(value pr", "value pr)", "pr"]) + "]"),
        ("glued_complex", lambda: rng.choice([f"{top}[a pr]{top}[b pr]", f"{top}[a pr] {top}[b pr]", f"({base}){other}", f"x{top}[a pr]y"])),
    ])
    text = text()
    if rng.random() < 0.25:
        wrap = rng.choice(["not ({})", "({})", "a pr and {}", "{} or b pr", "(a pr or ({}))", "title[{}]"])
        text = wrap.format(text)
    ctx.sample((kind, text))
    try:
        expected = filters.read(text)
    except filters.Unspecified:
        expected = None
    if expected is not None:
        ctx.seen("targeted_well_formed")
    judge(ctx, text, kind)


def noise(ctx, index):
    """Text assembled from the tokens of the language in any order."""
    rng = ctx.rng
    pool = ["(", ")", "[", "]", "and", "or", "not", "eq", "pr", "a", "b.c", "emails", "emails[", "1", '"x"', "'y z'",
            "null", "true", "1.5", "co", "gt", "urn:x:y:z", "NOT", "And"]
    words = [rng.choice(pool) for _ in range(rng.randint(1, 9))]
    text = words[0]
    for word in words[1:]:
        text += rng.choice([" ", " ", " ", " ", ""]) + word
    judge(ctx, text, "noise")


STREAMS = {
    "mutated": (mutated, 20000, 250000),
    "targeted": (targeted, 12000, 120000),
    "noise": (noise, 20000, 250000),
}
FLOORS = {"rejected": 20000, "accepted": 1000}
