"""Reference models, written from the properties over plain data; nothing here uses the library.

Issues are sets of (location, code) with locations as tuples of text.
"""
import json
import os
import re
from datetime import datetime

from vlib import procs
from vlib.lib import INVALID, MISSING, typed

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "builtin.json")) as _f:
    BUILTIN = json.load(_f)
COMMON = BUILTIN["User"]["common"]

_B64 = re.compile(r"(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?", re.ASCII)
_B64_ALPHABET = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
_ABSOLUTE_URL = re.compile(r"[A-Za-z][A-Za-z0-9+.-]*://[^/?#\s\[\]]+([/?#].*)?", re.DOTALL)


def is_base64(text):
    if not _B64.fullmatch(text) or text.endswith("\n"):
        return False
    if text.endswith("=="):
        return _B64_ALPHABET.index(text[-3]) & 0xF == 0
    if text.endswith("="):
        return _B64_ALPHABET.index(text[-2]) & 0x3 == 0
    return True


def check_type(type_, value, mode):
    """(fits, value, code of the issue)"""
    boolean = isinstance(value, bool)
    if type_ == "boolean":
        return boolean, value, 2
    if type_ == "integer":
        if isinstance(value, float) and value == value and abs(value) != float("inf"):
            if value == int(value):
                return True, int(value), None
        return isinstance(value, int) and not boolean, value, 2
    if type_ == "decimal":
        if isinstance(value, int) and not boolean:
            try:
                return True, float(value), None
            except OverflowError:
                return False, value, 1
        return isinstance(value, float), value, 2
    if type_ == "datetime" and mode == "dump":
        if isinstance(value, datetime):
            return True, value.isoformat(), None
        return False, value, 2
    if not isinstance(value, str):
        return False, value, 2
    if type_ == "binary":
        return is_base64(value), value, 3
    if type_ == "extref":
        return bool(_ABSOLUTE_URL.fullmatch(value)), value, 8
    if type_ == "datetime":
        try:
            return True, datetime.fromisoformat(value), None
        except ValueError:
            return False, value, 1
    return True, value, None  # string, URI and SCIM references


def is_canonical(attr, value):
    canonical = attr.get("canonical")
    if not canonical:
        return True
    if isinstance(value, str) and not attr.get("caseExact"):
        return value.lower() in [c.lower() if isinstance(c, str) else c for c in canonical]
    return any(typed(value) == typed(c) for c in canonical)


def find(data, name):
    """Case-insensitive lookup in plain data: the latest spelling wins."""
    value = MISSING
    if isinstance(data, dict):
        for k, v in data.items():
            if isinstance(k, str) and k.lower() == name.lower():
                value = v
    return value


def process_attr(attr, value, mode, identifier=False):
    """(value or INVALID, issues) of one attribute."""
    if value is None:
        return None, set()
    if attr.get("proc") or attr.get("whole"):
        return process_custom(attr, value, mode)
    if attr.get("multi"):
        if not isinstance(value, list):
            return INVALID, {((), 2)}
        out, issues = [], set()
        for i, item in enumerate(value):
            item_out, item_issues = process_single(attr, item, mode)
            out.append(item_out)
            issues |= {((str(i), *loc), code) for loc, code in item_issues}
        if not issues and attr.get("descriptions") and mode == "dump":
            issues |= process_descriptions(attr, out)
        if not issues and attr.get("single_primary", True):
            issues |= several_primaries(attr, out)
        return out, issues
    out, issues = process_single(attr, value, mode)
    if identifier and not issues and "bulkId" in out:
        return INVALID, {((), 7)}
    return out, issues


def process_descriptions(attr, items):
    """Attribute descriptions of a schema document."""
    issues = set()
    for i, item in enumerate(items):
        type_ = item.get("type")
        type_ = type_.lower() if isinstance(type_, str) else None
        if item.get("subAttributes") is not None:
            if type_ != "complex":
                del item["subAttributes"]
            else:
                item["subAttributes"], found = process_attr(attr, item["subAttributes"], "dump")
                issues |= {((str(i), "subAttributes", *loc), code) for loc, code in found}
        if type_ != "string":
            item.pop("caseExact", None)
        elif item.get("caseExact") is None:
            issues.add(((str(i), "caseExact"), 15))
    return issues


def process_custom(attr, value, mode):
    """The same for an attribute that has processors of its own."""
    own = attr.get("proc", {}).get(mode, [])
    whole = attr.get("whole", {}).get(mode, [])
    bare = {k: v for k, v in attr.items() if k not in ("proc", "whole")}
    if attr["type"] != "complex":
        out, issues = process_attr(bare, value, mode)
        if issues:
            return out, issues
        out, issues, _ = procs.run(own, out)
        return out, issues
    right = isinstance(value, list) and all(isinstance(v, dict) for v in value) if attr.get("multi") else isinstance(value, dict)
    if right:
        value, issues, stopped = procs.run(own, value)
        if stopped:
            return value, issues
    # sub-attributes, which may have processors as well
    primaries = {**bare, "single_primary": False}
    out, issues = process_attr(primaries, value, mode)
    if issues:
        return out, issues
    out, issues, stopped = procs.run(whole, out)
    if not stopped:
        issues |= several_primaries(attr, out)
    return out, issues


def several_primaries(attr, items):
    if not attr.get("multi") or attr["type"] != "complex":
        return set()
    return {((), 9)} if len([item for item in items if find(item, "primary") is True]) > 1 else set()


def process_single(attr, value, mode):
    if attr["type"] == "unknown":
        return value, set()
    if attr["type"] == "complex":
        if not isinstance(value, dict):
            return INVALID, {((), 2)}
        out, issues = {}, set()
        for sub in attr["sub"]:
            sub_value = find(value, sub["name"])
            if sub_value is MISSING:
                continue
            out[sub["name"]], sub_issues = process_attr(sub, sub_value, mode)
            issues |= {((sub["name"], *loc), code) for loc, code in sub_issues}
        return out, issues
    fits, out, code = check_type(attr["type"], value, mode)
    if not fits:
        return INVALID, {((), code)}
    if attr.get("enforce") and not is_canonical(attr, out):
        return INVALID, {((), 14)}
    return out, set()


def all_attrs(spec):
    """(extension urn or None, attribute) for every top-level attribute of a schema."""
    found = [(None, a) for a in spec.get("common", COMMON)]
    found += [(None, a) for a in spec["attrs"]]
    for extension in spec.get("extensions", []):
        found += [(extension["schema"], a) for a in extension["attrs"]]
    return found


def process(spec, data, mode):
    """What parsing or dumping a resource through a schema should give: (data or INVALID, issues)."""
    if data is None:
        return INVALID, {((), 15)}
    if not isinstance(data, dict):
        return INVALID, {((), 2)}
    out, issues = {}, set()
    for urn, attr in all_attrs(spec):
        namespace = data
        location = (attr["name"],)
        if urn is not None:
            namespace = find(data, urn)
            location = (urn, attr["name"])
        value = find(namespace, attr["name"])
        if value is MISSING:
            continue
        has_id_rule = attr["name"] == "id" and urn is None and spec.get("builtin") not in ("ResourceType", "Schema")
        value, attr_issues = process_attr(attr, value, mode, identifier=has_id_rule)
        issues |= {((*location, *loc), code) for loc, code in attr_issues}
        if urn is None:
            out[attr["name"]] = value
        else:
            out.setdefault(urn, {})[attr["name"]] = value

    schemas = out.get("schemas")
    if schemas and not any(loc[:1] == ("schemas",) for loc, _ in issues):
        issues |= schemas_issues(spec, out, schemas)

    if mode == "dump":
        meta = out.get("meta")
        if isinstance(meta, dict) and "resourceType" in meta:
            blocked = any(loc == ("meta",) or loc == ("meta", "resourceType") for loc, _ in issues)
            if not blocked and meta["resourceType"] != spec["name"]:
                issues.add((("meta", "resourceType"), 17))
    return out, issues


def schemas_issues(spec, out, schemas):
    issues = set()
    declared = [s.lower() for s in schemas]
    extensions = {e["schema"].lower(): e["schema"] for e in spec.get("extensions", [])}
    main = spec["schema"].lower()
    if main not in declared:
        issues.add((("schemas",), 28))
    if any(s != main and s not in extensions for s in declared):
        issues.add((("schemas",), 27))
    if any(urn in out and urn.lower() not in declared for urn in extensions.values()):
        issues.add((("schemas",), 29))
    return issues


# presence ------------------------------------------------------------------------------------


def rep_equal(a, b):
    return (
        a[1].lower() == b[1].lower()
        and a[2].lower() == b[2].lower()
        and (not a[0] or not b[0] or a[0].lower() == b[0].lower())
    )


def _top_equal(a, b):
    return a[1].lower() == b[1].lower() and (
        not a[0] or not b[0] or a[0].lower() == b[0].lower()
    )


def has_value(value):
    return not (value is None or value is MISSING or value == "" or value == [])


def presence(spec, data, direction, requested=(), include=None, exempt=(), attrs=None):
    """Issues of presence rules on processed data (plain, schema spelling)."""
    issues = set()

    def judge(attr, rep, value, location):
        if value is INVALID:
            return
        if has_value(value):
            if direction != "RESPONSE":
                return
            if attr.get("returned") == "never":
                issues.add((location, 19))
            elif attr.get("returned") != "always":
                if include is False and any(rep_equal(rep, r) for r in requested):
                    issues.add((location, 19))
                elif include is True:
                    admitted = any(
                        rep_equal(rep, r)
                        or (not rep[2] and _top_equal(rep, r))
                        or (rep[2] and not r[2] and _top_equal(rep, r))
                        for r in requested
                    )
                    if not admitted:
                        issues.add((location, 19))
            return
        if not attr.get("required") or any(rep_equal(rep, e) for e in exempt):
            return
        if direction == "RESPONSE" and attr.get("returned") == "never":
            return
        asked = any(rep_equal(rep, r) for r in requested)
        if (
            include is None
            or (include is True and asked)
            or (include is False and not asked)
            or (direction == "RESPONSE" and attr.get("returned") == "always")
        ):
            issues.add((location, 15))

    for urn, attr in attrs if attrs is not None else all_attrs(spec):
        schema = urn or spec["schema"]
        namespace = data if urn is None else find(data, urn)
        prefix = () if urn is None else (urn,)
        value = find(namespace, attr["name"])
        location = prefix + (attr["name"],)
        judge(attr, (schema, attr["name"], ""), value, location)
        for sub in attr.get("sub", []):
            rep = (schema, attr["name"], sub["name"])
            if attr.get("multi"):
                for i, item in enumerate(value if isinstance(value, list) else []):
                    if isinstance(item, dict):
                        judge(
                            sub, rep, find(item, sub["name"]), location + (str(i), sub["name"])
                        )
            elif isinstance(value, dict):
                judge(sub, rep, find(value, sub["name"]), location + (sub["name"],))
    return issues


def under(issues, *prefix):
    return {(prefix + loc, code) for loc, code in issues}
