"""Development-time only: writes vlib/builtin.json, the reviewed snapshot of the built-in schemas.

Checks never run this; they compare the current tree against the committed file.
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import lib  # noqa

INV = {v: k for k, v in lib.TYPES.items()}


def spec(attr):
    out = {"name": attr.rep.sub_attr or attr.rep.attr}
    complex_ = isinstance(attr, lib.ComplexAttribute)
    out["type"] = "complex" if complex_ else INV[attr.type]
    out["multi"] = attr.multi_valued
    out["required"] = attr.required
    out["mutability"] = attr.mutability.value
    out["returned"] = attr.returned.value
    out["uniqueness"] = attr.uniqueness.value
    out["issuer"] = {"SERVER": "server", "CLIENT": "client", "NOT_SPECIFIED": "none"}[attr.issuer.value]
    if complex_:
        out["sub"] = [spec(s) for s in attr.attrs]
    else:
        out["caseExact"] = attr.case_exact
        if attr.canonical_values:
            out["canonical"] = attr.canonical_values
        if attr.validate_canonical_values:
            out["enforce"] = True
        if attr.reference_types:
            out["refTypes"] = attr.reference_types
    return out


specs = {}
for name in ["User", "Group", "ResourceType", "ServiceProviderConfig"]:
    schema = lib.build_schema({"builtin": name})
    d = {"builtin": name, "schema": schema.schema, "name": schema.name, "plural": schema.plural_name,
         "common": [], "attrs": [], "extensions": []}
    for attr in schema.attrs.top_level:
        if attr.rep.extension:
            for e in d["extensions"]:
                if e["schema"] == attr.rep.schema:
                    break
            else:
                e = {"schema": attr.rep.schema, "attrs": []}
                d["extensions"].append(e)
            e["attrs"].append(spec(attr))
        elif attr.rep.attr in ("schemas", "id", "externalId", "meta"):
            d["common"].append(spec(attr))
        else:
            d["attrs"].append(spec(attr))
    specs[name] = d
json.dump(specs, open(os.path.join(os.path.dirname(__file__), "..", "vlib", "builtin.json"), "w"), indent=1)
