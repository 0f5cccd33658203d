"""Generators of schema definitions, resources, and hostile data (plain data only)."""
import base64
import copy
import string
from datetime import datetime, timedelta, timezone

from vlib import model

NAMES = [
    "alpha", "Beta", "gammaRay", "DELTA", "x1", "y_2", "orderBy", "android", "notes", "andOr",
    "count", "title", "nick", "flag", "score", "ratio", "photo", "stamp", "link", "tags", "lines",
    "a", "B", "prOne", "value", "primary", "type",
]
SUB_NAMES = ["value", "type", "display", "primary", "$ref", "code", "Rank", "note", "at", "alpha"]
SIMPLE_TYPES = [
    "string", "string", "string", "integer", "decimal", "boolean", "binary", "extref", "uriref",
    "scimref", "datetime",
]
MAIN_URNS = [
    "urn:example:params:2.0:Thing", "urn:x:y", "schemas:core:2.0:Res-ource",
    "urn:ietf:params:scim:schemas:core:2.0:Device", "urn:or:and:not:Dev",
]
EXT_URNS = [
    "urn:example:extension:2.0:More", "urn:x:y:ext", "urn:ietf:params:scim:schemas:ext:1.1:Dev",
    "urn:and:Or", "myExt:v1",
]
TEXTS = [
    "", "a", "A", "bob", "Bob", "BOB", "x y", " lead", "trail ", "and", "a or b", "(x)", "[y]",
    "eq", "null", "true", "1", "é", "ß", "日本", "q\"q", "it's", "\\", "a.b", "urn:x:y", "\n", "\t",
    "|&PLACE_HOLDER_0&|", "bulkId", "work", "home", "Zed", "zed", "0", "-1",
    "STRASSE", "straße", "ΣΑΣ", "σας", "σασ", "İ", "i̇", "ı", "ﬁ", "fi", "K", "k", "e\u0301", "\u00a0", "\u2028", "\ufeffa", "😀",
    "None", "False", "%s", "{0}", "<b>", "a/b", "a;b", "*", "$ref", "--",
]


def text(rng, maximum=8):
    if rng.random() < 0.6:
        return rng.choice(TEXTS)
    if rng.random() < 0.2:
        return near(rng, rng.choice(TEXTS))
    if rng.random() < 0.02:
        return rng.choice(["x", "Ab ", "é", "q\"", "0"]) * rng.choice([60, 128, 400, 1100])
    alphabet = string.ascii_letters + string.digits + "  \t\n_-.:/é()[]{}'\"\\,&|%+=;#?"
    return "".join(rng.choice(alphabet) for _ in range(few(rng, 0, maximum, 40)))


def word(rng, maximum=8):
    return "".join(rng.choice(string.ascii_letters) for _ in range(rng.randint(1, maximum)))


def integer(rng):
    return rng.choice(
        [0, 1, -1, 2, 3, 7, 10, 100, -5, 2**31, 2**63, 10**20, rng.randint(-1000, 1000)]
    )


def decimal(rng):
    return rng.choice([0.0, 0.5, -0.5, 1.5, 3.25, 1e-9, 1e15 + 0.5, rng.uniform(-100, 100)])


ZONES = [timezone(timedelta(hours=h, minutes=m)) for h, m in ((-5, 0), (5, 30), (14, 0), (-12, 0), (0, 1), (-1, 30))]


def date_time(rng):
    value = datetime(2000, 1, 1) + timedelta(
        days=rng.randint(0, 9000), seconds=rng.randint(0, 86399), microseconds=rng.choice([0, 5, 123456])
    )
    if rng.random() < 0.6:
        value = value.replace(tzinfo=rng.choice([timezone.utc, timezone(timedelta(hours=2))] if rng.random() < 0.8 else ZONES))
    elif rng.random() < 0.05:
        value = value.replace(year=rng.choice([1, 1969, 9999]), month=1, day=1)
    return value


URLS = ["https://example.com/x", "http://h", "ftp://files.example.org/a?b=c#d", "https://a.b:80/"]
NOT_URLS = ["", "abc", "/path", "http:", "https:///x", "example.com/x", "://x", "http//x", "mailto:x"]


def json_value(rng, depth=3):
    """Any JSON value."""
    r = rng.random()
    if depth > 0 and r < 0.15:
        return [json_value(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    if depth > 0 and r < 0.35:
        return {
            rng.choice(
                ["a", "value", "primary", "type", "$ref", "", "id", "x y", "schemas", "a.b", "é", "display"]
            ): json_value(rng, depth - 1)
            for _ in range(rng.randint(0, 3))
        }
    return rng.choice(
        [
            None, True, False, 0, 1, -1, 5, 10**30, 2**1100, 1.0, 0.5, -2.5, 1e300, "", "abc", "é",
            text(rng), text(rng), "https://example.com", "2020-01-01T00:00:00Z", "YQ==", "YQ",
            [], {}, [None], [[]], [{}], ["a"], [1, "a", None], {"value": 1}, "\ud800",
        ]
    )


def valid_scalar(rng, attr, mode):
    if attr.get("canonical") and (attr.get("enforce") or rng.random() < 0.5):
        value = rng.choice(attr["canonical"])
        if isinstance(value, str) and not attr.get("caseExact"):
            value = rng.choice([value, value.upper(), value.lower(), value.swapcase()])
        return value
    type_ = attr["type"]
    if type_ == "boolean":
        return rng.random() < 0.5
    if type_ == "integer":
        return integer(rng) if rng.random() < 0.85 else float(rng.randint(-50, 50))
    if type_ == "decimal":
        return decimal(rng) if rng.random() < 0.8 else rng.randint(-50, 50)
    if type_ == "binary":
        return base64.b64encode(bytes(rng.randrange(256) for _ in range(rng.randint(0, 7) if rng.random() < 0.95 else rng.choice([30, 57, 58, 200])))).decode()
    if type_ == "extref":
        return rng.choice(URLS)
    if type_ == "uriref":
        return rng.choice(["urn:a:b", "../x", "https://example.com/Users/1", "/Users/2"])
    if type_ == "scimref":
        return rng.choice(["../Users/1", "User", "https://example.com/Users/1"])
    if type_ == "datetime":
        value = date_time(rng)
        if mode == "dump":
            return value
        return iso_variant(rng, value)
    return text(rng)


def iso_variant(rng, value):
    out = value.isoformat()
    if out.endswith("+00:00") and rng.random() < 0.5:
        out = out[:-6] + "Z"
    return out


def few(rng, low, high, many=12):
    """A small number, now and then a larger one."""
    r = rng.random()
    if r < 0.95:
        return rng.randint(low, high)
    return rng.randint(high + 1, many) if r < 0.998 else rng.randint(many, 5 * many)


def valid_value(rng, attr, mode, allow_empty=True):
    if attr.get("multi"):
        low = 0 if allow_empty else 1
        items = [valid_single(rng, attr, mode) for _ in range(few(rng, low, 3))]
        seen = False
        for item in items:
            if isinstance(item, dict) and item.get("primary") is True:
                if seen:
                    item["primary"] = False
                seen = True
        return items
    return valid_single(rng, attr, mode)


def valid_single(rng, attr, mode):
    if attr["type"] != "complex":
        return valid_scalar(rng, attr, mode)
    out = {}
    for sub in attr["sub"]:
        if sub.get("required") or rng.random() < 0.7:
            out[sub["name"]] = valid_value(rng, sub, mode)
            if sub.get("required"):
                out[sub["name"]] = nonempty(rng, sub, mode)
    return out


def nonempty(rng, attr, mode):
    for _ in range(50):
        value = valid_value(rng, attr, mode, allow_empty=False)
        if model.has_value(value):
            return value
    raise ValueError(f"no value for {attr}")


def random_attr(rng, name, allow_complex=True, rich=True):
    if allow_complex and rng.random() < 0.4:
        names = rng.sample(SUB_NAMES, rng.randint(1, 4))
        if "value" in names and rng.random() < 0.15:
            names[names.index("value")] = rng.choice(["Value", "VALUE"])
        attr = {
            "name": name,
            "type": "complex",
            "multi": rng.random() < 0.6,
            "sub": [random_attr(rng, n, allow_complex=False, rich=rich) for n in names],
        }
    else:
        type_ = rng.choice(SIMPLE_TYPES)
        if name == "primary":
            type_ = "boolean"
        attr = {"name": name, "type": type_, "multi": name != "primary" and rng.random() < 0.3}
        attr["caseExact"] = rng.random() < 0.4
        if type_ == "string" and rng.random() < 0.3:
            pool = ["Work", "home", "OTHER", "x y", "é"]
            attr["canonical"] = rng.sample(pool, rng.randint(1, 3))
            attr["enforce"] = rng.random() < 0.6
        elif type_ == "integer" and rng.random() < 0.15:
            attr["canonical"] = rng.sample([2, 3, 7, 50], 2)
            attr["enforce"] = rng.random() < 0.6
        if type_ == "scimref":
            attr["refTypes"] = rng.sample(["User", "Group", "Thing"], rng.randint(1, 2))
    if rich:
        attr["required"] = rng.random() < 0.25
        attr["mutability"] = rng.choice(
            ["readWrite", "readWrite", "readWrite", "readOnly", "immutable", "writeOnly"]
        )
        attr["returned"] = rng.choice(["default", "default", "default", "always", "never", "request"])
        attr["uniqueness"] = rng.choice(["none", "none", "server", "global"])
        attr["issuer"] = rng.choice(["none", "none", "server", "client"])
        attr["description"] = rng.choice(["", "Some text.", "é\"x"])
    return attr


def unique_names(rng, n, pool=NAMES):
    names, seen = [], set()
    for name in rng.sample(pool, len(pool)):
        if name.lower() not in seen:
            seen.add(name.lower())
            names.append(name)
        if len(names) == n:
            break
    return names


def random_spec(rng, extensions=None, rich=True, n_attrs=None):
    n_ext = rng.choice([0, 1, 1, 2]) if extensions is None else extensions
    name = rng.choice(["Thing", "Device", "ThinG", "Res"])
    spec = {
        "schema": rng.choice(MAIN_URNS),
        "name": name,
        "plural": rng.choice([name + "s"] * 4 + [name + "es", name + "s2", name + "_list", "v2" + name + "s", "Policies", name + "\u00e9s"]),
        "description": rng.choice(["", "A thing"]),
        "attrs": [
            random_attr(rng, n, rich=rich) for n in unique_names(rng, n_attrs or rng.randint(1, 5))
        ],
        "extensions": [
            {
                "schema": urn,
                "name": "Ext",
                "required": rng.random() < 0.3,
                "attrs": [
                    random_attr(rng, n, rich=rich) for n in unique_names(rng, rng.randint(1, 3))
                ],
            }
            for urn in rng.sample(EXT_URNS, n_ext)
        ],
    }
    for extension in spec["extensions"]:
        if rng.random() < 0.25:  # a name the main schema has as well
            name = recase_text(rng, rng.choice(spec["attrs"])["name"])
            if name.lower() not in {a["name"].lower() for a in extension["attrs"]}:
                extension["attrs"][0]["name"] = name
    return spec


def some_spec(rng, rich=True):
    """A generated schema, or a built-in one."""
    r = rng.random()
    if r < 0.2:
        return model.BUILTIN["User"]
    if r < 0.27:
        return model.BUILTIN["Group"]
    if r < 0.31:
        return model.BUILTIN["ServiceProviderConfig"]
    if r < 0.34:
        return model.BUILTIN["ResourceType"]
    return random_spec(rng, rich=rich)


def resource(rng, spec, mode, density=0.6, required_all=False):
    """Data that fits a schema: schema's spelling, consistent declared schemas and type."""
    data = {}
    for urn, attr in model.all_attrs(spec):
        name = attr["name"]
        if name == "schemas" and urn is None:
            continue
        need = required_all and attr.get("required")
        if not need and rng.random() > density:
            continue
        if urn is None and name == "meta":
            value = valid_single(rng, attr, mode)
            value.pop("resourceType", None)
            if rng.random() < 0.5:
                value["resourceType"] = spec["name"]
        elif urn is None and name == "id":
            value = word(rng)
        else:
            value = nonempty(rng, attr, mode) if need else valid_value(rng, attr, mode)
        (data if urn is None else data.setdefault(urn, {}))[name] = value
    data["schemas"] = [spec["schema"]] + [
        e["schema"] for e in spec.get("extensions", []) if e["schema"] in data or rng.random() < 0.2
    ]
    return data


DIGITS = [{ord("2"): "\u00b2", ord("1"): "\u00b9"}, {ord("0") + i: 0x660 + i for i in range(10)}, {ord("0") + i: 0xFF10 + i for i in range(10)}]


def near(rng, text):
    """A text that is almost the given one (sometimes the same but for letter case)."""
    at = rng.randint(0, len(text))
    rest = text[at + 1 :]
    last = text[-1:] or "x"
    return rng.choice([
        lambda: text + rng.choice(["/", " ", ".", ":", "\n", "?", "#", "s", "x", "0", "_", "-", ",", ";", "=", "\t", "\x00"]),
        lambda: rng.choice(["/", " ", ".", ":", "\n", "x", "0", "_", "-", "+", "\t"]) + text,
        lambda: text + last,
        lambda: text[:1] + text,
        lambda: text[:-1],
        lambda: text[1:],
        lambda: text[:at] + rest,
        lambda: text[:at] + rng.choice("x0_-./: é") + text[at:],
        lambda: text[:at] + rng.choice("x0_-./: é") + rest,
        lambda: text[:at] + text[at : at + 1].swapcase() + rest,
        lambda: text[:at] + rest[:1] + text[at : at + 1] + rest[1:],
        lambda: recase_text(rng, text),
        lambda: text + text,
        lambda: text[:at],
        lambda: text[at:],
        lambda: text.translate(rng.choice(DIGITS)),
        lambda: text.replace("/", "//", 1) + ("" if "/" in text else "/"),
        lambda: text.replace(" ", "") + ("" if " " in text else " "),
    ])()


def recase_text(rng, name):
    return rng.choice([name, name.lower(), name.upper(), name.swapcase(), name.title()])


def twin(rng, text):
    """A text that is easily taken for the given one."""
    return rng.choice([text.lower(), text.upper(), text.swapcase(), text.title(), " ".join(text.split()), text.strip(),
                       text.replace("  ", " "), text.replace('"', "'")])


def recase(rng, data, chance=0.5):
    """The same data with keys in other letter case."""
    if isinstance(data, dict):
        return {
            (recase_text(rng, k) if rng.random() < chance else k): recase(rng, v, chance)
            for k, v in data.items()
        }
    if isinstance(data, list):
        return [recase(rng, v, chance) for v in data]
    return data


def shuffled(rng, data):
    if isinstance(data, dict):
        items = list(data.items())
        rng.shuffle(items)
        return {k: shuffled(rng, v) for k, v in items}
    if isinstance(data, list):
        return [shuffled(rng, v) for v in data]
    return data


def positions(data, path=()):
    """All positions in JSON data."""
    found = [path]
    if isinstance(data, dict):
        for k, v in data.items():
            found += positions(v, path + (k,))
    elif isinstance(data, list):
        for i, v in enumerate(data):
            found += positions(v, path + (i,))
    return found


def replace_at(data, path, value):
    if not path:
        return value
    data = copy.copy(data)
    data[path[0]] = replace_at(data[path[0]], path[1:], value)
    return data


def get_at(data, path):
    for part in path:
        data = data[part]
    return data


def delete_at(data, path):
    data = copy.copy(data)
    if len(path) == 1:
        del data[path[0]]
    else:
        data[path[0]] = delete_at(data[path[0]], path[1:])
    return data


def corrupt(rng, data, times=1, value=json_value):
    """Replaces values at random positions (not the root) with arbitrary JSON values."""
    for _ in range(times):
        places = [p for p in positions(data) if p]
        if not places:
            break
        data = replace_at(data, rng.choice(places), value(rng))
    return data


def add_unknown(rng, data, known=()):
    """Adds keys the schema does not know."""
    data = dict(data)
    for _ in range(rng.randint(1, 3)):
        key = rng.choice(["unknownKey", "x-y", "zz.value", "", "urn:no:such:Ext", "schemas2", "é é"])
        if key.lower() not in {k.lower() for k in known}:
            data[key] = json_value(rng, 2)
    return data
