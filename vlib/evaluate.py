"""Reference evaluation of filter trees over plain data (nothing here uses the library).

Outcomes: "P" passed, "F" failed, "N" the schema does not define the attribute, "M" missing data.
"""
from datetime import datetime

from vlib import model
from vlib.core import Skip
from vlib.filters import is_leaf, untyped
from vlib.lib import MISSING

TEXT = {"string", "extref", "uriref", "scimref"}
SUPPORTED = {
    "eq": TEXT | {"decimal", "datetime", "boolean", "binary", "integer"},
    "co": TEXT,
    "gt": {"string", "datetime", "integer", "decimal"},
}
for _op, _as in {"ne": "eq", "sw": "co", "ew": "co", "ge": "gt", "lt": "gt", "le": "gt"}.items():
    SUPPORTED[_op] = SUPPORTED[_as]


class Scope:
    """Names of a schema, or of the sub-attributes of a complex attribute."""

    def __init__(self, attrs, main=""):
        self.attrs = attrs
        self.main = main

    def resolve(self, rep):
        for urn, attr in self.attrs:
            schema = urn or self.main
            if rep[0] and schema and rep[0].lower() != schema.lower():
                continue
            if attr["name"].lower() != rep[1].lower():
                continue
            return urn, attr
        return None

    def value(self, rep, data):
        found = self.resolve(rep)
        if found is None:
            return MISSING
        urn, attr = found
        return model.find(data if urn is None else model.find(data, urn), attr["name"])


def of_schema(spec):
    return Scope(model.all_attrs(spec), spec["schema"])


def evaluate(t, data, scope, strict):
    kind = t[0]
    if kind == "and":
        outcomes = [evaluate(x, data, scope, strict) for x in t[1]]
        if any(o in "FN" for o in outcomes):
            return "F"
        return "M" if "M" in outcomes else "P"
    if kind == "or":
        outcomes = [evaluate(x, data, scope, strict) for x in t[1]]
        if "P" in outcomes:
            return "P"
        return "M" if "M" in outcomes else "F"
    if kind == "not":
        outcome = evaluate(t[1], data, scope, True)
        if outcome == "F":
            return "P"
        if outcome == "M":
            return "F" if strict else "P"
        return "F"
    found = scope.resolve(t[1])
    if found is None:
        return "N"
    value = scope.value(t[1], data)
    if kind == "complex":
        return complex_(t[2], found[1], value, strict)
    return leaf(t, found[1], value, strict)


def complex_(sub, attr, value, strict):
    if attr["type"] != "complex":
        return "N"
    scope = Scope([(None, s) for s in attr["sub"]])
    missing = value is None or value is MISSING
    if attr.get("multi"):
        if missing:
            return "F" if strict else "P"
        if not isinstance(value, list):
            return "F"
        items = value
    else:
        if isinstance(value, list):
            return "F"
        items = [value]
    items = [item if isinstance(item, dict) else {} for item in items]
    if is_leaf(sub):
        present = False
        for item in items:
            found = scope.resolve(sub[1])
            sub_value = model.find(item, sub[1][1])
            if sub_value is not None and sub_value is not MISSING:
                present = True
            if found is not None and leaf(sub, found[1], sub_value, strict) == "P":
                return "P"
        return "P" if not present and not strict else "F"
    outcomes = [evaluate(sub, item, scope, strict) for item in items]
    if "P" in outcomes:
        return "P"
    return "P" if "M" in outcomes and not strict else "F"


def leaf(t, attr, value, strict):
    op = t[0]
    if op == "pr":
        if attr["type"] == "complex":
            return "P" if isinstance(value, list) and any(
                has_value(model.find(item, "value")) for item in value
            ) else "F"
        if isinstance(value, list):
            return "P" if any(has_value(item) for item in value) else "F"
        return "P" if has_value(value) else "F"
    if value is None or value is MISSING:
        return "M" if strict else "P"
    if attr["type"] == "complex":
        subs = [s for s in attr["sub"] if s["name"].lower() == "value"]
        if not subs or not attr.get("multi") or not isinstance(value, list):
            return "F"
        if subs[0].get("multi"):
            raise Skip()
        attr, value = subs[0], [model.find(item, "value") for item in value]
    if attr["type"] not in SUPPORTED[op]:
        return "F"
    items = value if isinstance(value, list) else [value]
    items = [i for i in items if i is not None and i is not MISSING]
    literal = untyped(t[2])
    return "P" if any(compare(op, attr, item, literal) for item in items) else "F"


def has_value(value):
    return value is not None and value is not MISSING and value != ""


def to_datetime(value):
    if isinstance(value, datetime):
        return value
    try:
        return datetime.fromisoformat(value)
    except (TypeError, ValueError):
        return None


def number(value):
    return isinstance(value, (int, float)) and not isinstance(value, bool)


def compare(op, attr, item, literal):
    if attr["type"] == "datetime":
        item, literal = to_datetime(item), to_datetime(literal)
        if item is None or literal is None:
            return False
        if (item.tzinfo is None) != (literal.tzinfo is None):
            return op == "ne"
    elif isinstance(item, str) and isinstance(literal, str):
        if not attr.get("caseExact"):
            item, literal = item.lower(), literal.lower()
    elif number(item) and number(literal):
        pass
    elif isinstance(item, bool) and isinstance(literal, bool):
        pass
    else:
        if literal is None:
            return op == "ne"
        if (isinstance(item, bool) and number(literal)) or (number(item) and isinstance(literal, bool)):
            raise Skip()
        if op == "ne" or isinstance(item, (dict, list)):
            raise Skip()
        return False
    if op == "eq":
        return item == literal
    if op == "ne":
        return item != literal
    if op == "co":
        return literal in item
    if op == "sw":
        return item.startswith(literal)
    if op == "ew":
        return item.endswith(literal)
    if op == "gt":
        return item > literal
    if op == "ge":
        return item >= literal
    if op == "lt":
        return item < literal
    return item <= literal
