"""Filter language: generator, renderer and an independent reader (nothing here uses the library).

Expression trees:  (op, (schema, attr, sub), value) | ("pr", rep) | ("and"/"or", (tree, ...)) |
("not", tree) | ("complex", rep, tree); values are kept as `typed` plain data.
"""
import re

from vlib import gen
from vlib.gen import near
from vlib.lib import typed

OPS = ["eq", "ne", "co", "sw", "ew", "gt", "ge", "lt", "le"]
TEXT_OPS = {"co", "sw", "ew"}
ORDER_OPS = {"gt", "ge", "lt", "le"}
NUMBER = re.compile(r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?", re.ASCII)


class Unspecified(Exception):
    """Neither clearly a filter nor clearly not one."""


def name_ok(part):
    return part.lower() == "$ref" or (bool(part) and all(c == "_" or c.isalnum() for c in part))


def split_name(text):
    """Independent reading of an attribute name; None if it is not one."""
    schema, _, rest = text.rpartition(":")
    if ":" in text:
        segments = schema.split(":")
        if not all(s and all(c in "_.-" or c.isalnum() for c in s) for s in segments):
            return None
    attr, dot, sub = rest.partition(".")
    if not name_ok(attr) or (dot and not name_ok(sub)):
        return None
    return schema, attr, sub


# reading ---------------------------------------------------------------------------------------


def tokens(text):
    """[(kind, text, glued to the previous token)]; None when a string is not terminated."""
    found = []
    i, n = 0, len(text)
    glued = False
    while i < n:
        c = text[i]
        if c.isspace():
            glued = False
            i += 1
            continue
        if c in "\"'":
            if i and not text[i - 1].isspace() and text[i - 1] not in "()[]":
                raise Unspecified()
            end = text.find(c, i + 1)
            if end < 0:
                return None
            if end + 1 < n and not text[end + 1].isspace() and text[end + 1] not in "()[]":
                raise Unspecified()
            found.append(("string", text[i + 1 : end], glued))
            i = end + 1
        elif c in "()[]":
            found.append((c, c, glued))
            i += 1
        else:
            j = i
            while j < n and not text[j].isspace() and text[j] not in "\"'()[]":
                j += 1
            found.append(("word", text[i:j], glued))
            i = j
        glued = True
    return found


class _Bad(Exception):
    pass


class _Reader:
    def __init__(self, items):
        self.items = items
        self.at = 0
        self.inner = False

    def peek(self, ahead=0):
        i = self.at + ahead
        return self.items[i] if i < len(self.items) else ("end", "", False)

    def keyword(self, word):
        kind, text, _ = self.peek()
        return kind == "word" and text.lower() == word

    def many(self, word, part):
        found = [part()]
        while self.keyword(word):
            self.at += 1
            found.append(part())
        return found[0] if len(found) == 1 else (word, tuple(found))

    def disjunction(self):
        return self.many("or", self.conjunction)

    def conjunction(self):
        return self.many("and", self.negation)

    def negation(self):
        if self.keyword("not"):
            self.at += 1
            return ("not", self.primary())
        return self.primary()

    def primary(self):
        kind, text, _ = self.peek()
        if kind == "(":
            self.at += 1
            inner = self.disjunction()
            self.take(")")
            return inner
        if kind != "word" or text.lower() in ("and", "or", "not"):
            raise _Bad()
        self.at += 1
        next_kind, next_text, glued = self.peek()
        if next_kind == "[":
            if not glued or self.inner:
                raise _Bad()
            if "$" in text:
                raise Unspecified()
            rep = split_name(text)
            if rep is None or rep[2]:
                raise _Bad()
            self.at += 1
            self.inner = True
            inner = self.disjunction()
            self.inner = False
            self.take("]")
            return ("complex", rep, inner)
        rep = split_name(text)
        if rep is None:
            raise _Bad()
        if self.inner and (rep[0] or rep[2]):
            raise Unspecified()
        if next_kind != "word" or glued:
            raise _Bad()
        self.at += 1
        op = next_text.lower()
        if op == "pr":
            tree = ("pr", rep)
        elif op in OPS:
            tree = (op, rep, typed(self.literal(op)))
        else:
            raise _Bad()
        if rep[2]:
            tree = (tree[0], ("", rep[2], ""), *tree[2:])
            tree = ("complex", (rep[0], rep[1], ""), tree)
        return tree

    def literal(self, op):
        kind, text, glued = self.peek()
        if glued or kind not in ("word", "string"):
            raise _Bad()
        self.at += 1
        if kind == "string":
            return text
        if text in ("true", "false", "null"):
            value = {"true": True, "false": False, "null": None}[text]
        elif text.lower() in ("true", "false", "null"):
            raise Unspecified()
        elif NUMBER.fullmatch(text):
            value = number(text)
        else:
            try:
                odd = float(text)
            except ValueError:
                raise _Bad() from None
            if odd != odd or abs(odd) == float("inf"):
                if not any(c in "0123456789" for c in text):
                    raise _Bad()
            raise Unspecified()
        if op in TEXT_OPS or (op in ORDER_OPS and (value is None or isinstance(value, bool))):
            raise _Bad()
        return value

    def take(self, kind):
        if self.peek()[0] != kind:
            raise _Bad()
        self.at += 1


def number(text):
    if re.fullmatch(r"-?[0-9]+", text):
        return int(text)
    value = float(text)
    if abs(value) == float("inf"):
        raise _Bad()
    return int(value) if value == int(value) else value


def read(text):
    """The tree a text denotes, None when it is not a filter; raises Unspecified in between."""
    items = tokens(text)
    if items is None:
        return None
    for (kind, word, _), (next_kind, next_text, glued) in zip(items, items[1:]):
        if glued and next_kind == "[" and word.lower() in ("and", "or", "not"):
            raise Unspecified()
        if word.lower() == "not" and next_text.lower() == "not":
            raise Unspecified()  # an attribute of that name?
    reader = _Reader(items)
    try:
        tree = reader.disjunction()
        if reader.peek()[0] != "end":
            return None
        return tree
    except _Bad:
        return None


# writing ---------------------------------------------------------------------------------------

ATTRS = ["userName", "title", "a", "B", "emails", "android", "order", "notes", "x_1", "pr", "eq",
         "nothing", "Orange", "not1", "true", "null", "value"]
SUBS = ["value", "type", "primary", "$ref", "display", "or_1", "andy"]
URNS = ["urn:ietf:params:scim:schemas:core:2.0:User", "urn:x:y", "urn:or:and:not", "a", "or", "v-1.0",
        "urn:not:a-b.c", "urn:and-or-not:x-and.or-y"]
STRINGS = [
    "", "bob", "Bob and Alice", "a or b", "not x", "(x)", "[y]", "x eq 1", ")", "]", "[", "(", "|&PLACE_HOLDER_0&|",
    "|&PLACE_HOLDER_3&|", " lead trail ", "é", "1", "true", "null", "a\nb", "\\", "|", "&&", "it's", 'say "x"',
    "emails[type eq 1]", "and", " or ", "  ", "urn:x:y",
]


def some_rep(rng, attrs=ATTRS, subs=SUBS, urns=URNS, sub=0.25):
    schema = rng.choice(urns) if urns and rng.random() < 0.25 else ""
    if attrs is ATTRS and rng.random() < 0.1:
        name = "".join(rng.choice("aBx_1éornd") for _ in range(rng.randint(1, 9)))
        return schema, name if name.lower() not in ("and", "or", "not") else "x" + name, ""
    return schema, rng.choice(attrs), rng.choice(subs) if rng.random() < sub else ""


def some_literal(rng, op):
    kinds = ["string"] * 4
    if op not in TEXT_OPS:
        kinds += ["int", "int", "decimal"]
        if op not in ORDER_OPS:
            kinds += ["bool", "null"]
    kind = rng.choice(kinds)
    if kind == "string":
        if rng.random() < 0.25:
            alphabet = "aB1   \t\n()[].:;,-_|&é\\/'" if rng.random() < 0.5 else 'orandteqp   "'
            return "".join(rng.choice(alphabet) for _ in range(rng.randint(0, 12)))
        return rng.choice(STRINGS)
    if kind == "int":
        return rng.choice([0, 1, -1, 42, 2**53 + 1, 10**30, -(10**25) - 1, rng.randint(-9999, 9999)])
    if kind == "decimal":
        return rng.choice([0.5, -0.25, 3.14, 1e-7, 12345.678, 1e-300, 4.9999999999999, -7.0000000000001, 2**51 + 0.5, round(rng.uniform(-9, 9), 3) + 0.0005])
    return rng.choice([True, False]) if kind == "bool" else None


def leaf(rng, rep, op=None):
    op = op or rng.choice(OPS + ["pr", "pr", "eq", "eq"])
    if op == "pr":
        return ("pr", rep)
    return (op, rep, typed(some_literal(rng, op)))


def tree(rng, depth, inner=False):
    r = rng.random()
    if depth > 0 and r < 0.5:
        kind = rng.choice(["and", "or"])
        return (kind, tuple(tree(rng, depth - 1, inner) for _ in range(gen.few(rng, 2, 4, 14))))
    if depth > 0 and r < 0.65:
        return ("not", tree(rng, depth - 1, inner))
    if inner:
        return leaf(rng, ("", rng.choice(SUBS + ATTRS), ""))
    if r < 0.8:
        schema, attr, _ = some_rep(rng)
        return ("complex", (schema, attr, ""), tree(rng, min(depth, 2), inner=True))
    schema, attr, sub = some_rep(rng)
    if sub:
        return ("complex", (schema, attr, ""), leaf(rng, ("", sub, "")))
    return leaf(rng, (schema, attr, ""))


def untyped(value):
    if isinstance(value, tuple) and value and value[0] == "bool":
        return value[1]
    return value


def is_leaf(t):
    return t[0] == "pr" or t[0] in OPS


class Writer:
    """Renders a tree with random, legal spacing, letter case, quoting and redundant brackets."""

    def __init__(self, rng, wild=True):
        self.rng = rng
        self.wild = wild

    def space(self, minimum=1):
        if not self.wild:
            return " " * minimum
        return "".join(
            self.rng.choice([" ", " ", " ", "\t", "\n"])
            for _ in range(self.rng.choice([minimum, minimum, minimum, minimum + 1, minimum + 3]))
        )

    def case(self, word):
        if not self.wild:
            return word
        return self.rng.choice([word, word, word.upper(), word.capitalize(), word.swapcase()])

    def name(self, rep):
        schema, attr, sub = rep
        return (schema + ":" if schema else "") + attr + ("." + sub if sub else "")

    def literal(self, value):
        value = untyped(value)
        if value is True:
            return "true"
        if value is False:
            return "false"
        if value is None:
            return "null"
        if isinstance(value, str):
            quotes = [q for q in "\"'" if q not in value]
            if not quotes:
                raise Unspecified()
            quote = '"' if '"' in quotes and (not self.wild or self.rng.random() < 0.7) else quotes[-1]
            return quote + value + quote
        text = repr(value)
        if isinstance(value, int) and abs(value) < 10**6 and self.wild and self.rng.random() < 0.1:
            text += ".0"
        return text

    def expression(self, name, t):
        if t[0] == "pr":
            return name + self.space() + self.case("pr")
        return name + self.space() + self.case(t[0]) + self.space() + self.literal(t[2])

    def write(self, t):
        text = self._write(t)
        if self.wild and self.rng.random() < 0.12:
            return "(" + self.space(0) + text + self.space(0) + ")"
        return text

    def _write(self, t):
        kind = t[0]
        if kind in ("and", "or"):
            parts = []
            for sub in t[1]:
                text = self.write(sub)
                weaker = ("and", "or") if kind == "and" else ("or",)
                if sub[0] in weaker and not self.bracketed(text):
                    text = "(" + text + ")"
                parts.append(text)
            out = parts[0]
            for part in parts[1:]:
                before = self.space(0 if self.wild and out[-1] in ")]" else 1)
                after = self.space(0 if self.wild and part[0] == "(" else 1)
                out += before + self.case(kind) + after + part
            return out
        if kind == "not":
            text = self.write(t[1])
            if t[1][0] in ("and", "or", "not") and not self.bracketed(text):
                text = "(" + text + ")"
            return self.case("not") + self.space(0 if self.wild and text[0] == "(" else 1) + text
        if kind == "complex":
            rep, sub = t[1], t[2]
            if is_leaf(sub) and not sub[1][0] and not sub[1][2] and self.rng.random() < 0.6:
                return self.expression(self.name((rep[0], rep[1], sub[1][1])), sub)
            return self.name(rep) + "[" + self.space(0) + self.write(sub) + self.space(0) + "]"
        return self.expression(self.name(t[1]), t)

    @staticmethod
    def bracketed(text):
        """Whether one pair of brackets encloses the whole text."""
        if not (text.startswith("(") and text.endswith(")")):
            return False
        depth, quote = 0, None
        for i, c in enumerate(text):
            if quote:
                if c == quote:
                    quote = None
            elif c in "\"'":
                quote = c
            elif c == "(":
                depth += 1
            elif c == ")":
                depth -= 1
                if depth == 0:
                    return i == len(text) - 1
        return False


def as_dict(t):
    """The exported form of a tree."""
    kind = t[0]
    if kind in ("and", "or"):
        return {"op": kind, "sub_ops": [as_dict(x) for x in t[1]]}
    if kind == "not":
        return {"op": "not", "sub_op": as_dict(t[1])}
    name = t[1][0] + ":" + t[1][1] if t[1][0] else t[1][1]
    if kind == "complex":
        return {"op": "complex", "attr_rep": name, "sub_op": as_dict(t[2])}
    out = {"op": kind, "attr_rep": name}
    if kind != "pr":
        out["value"] = untyped(t[2])
    return out


def mutate(rng, text):
    """A text close to a filter."""
    pieces = ["(", ")", "[", "]", '"', "'", " ", " and ", " or ", "not ", "eq", " pr", " 1", ".", ":", "x", "-",
              "|&PLACE_HOLDER_0&|", "\n", ",", "=", "&&", "é", "$", "null", "emails[", "()", "[]", '""', " gt ", "1"]
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        at = rng.randint(0, len(text))
        if r < 0.1:
            words = text.split(" ")
            i = rng.randrange(len(words))
            words[i] = near(rng, words[i])
            text = " ".join(words)
        elif r < 0.35:
            text = text[:at] + rng.choice(pieces) + text[at:]
        elif r < 0.6:
            text = text[:at] + text[at + rng.choice([1, 1, 2, 5]) :]
        elif r < 0.75:
            words = text.split(" ")
            if len(words) > 1:
                del words[rng.randrange(len(words))]
                text = " ".join(words)
        elif r < 0.85:
            words = text.split(" ")
            i = rng.randrange(len(words))
            words[i] = rng.choice(pieces + ["and", "or", "not", "eq", "xx", "true", "1.5", '"s"']).strip()
            text = " ".join(words)
        elif r < 0.93:
            words = text.split(" ")
            i, j = rng.randrange(len(words)), rng.randrange(len(words))
            words[i], words[j] = words[j], words[i]
            text = " ".join(words)
        else:
            text = rng.choice(["", " ", text[::-1], text + text, text + " " + text, text[: len(text) // 2]])
    return text
