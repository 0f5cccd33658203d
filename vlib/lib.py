"""The library under test, imported from /repo, and plain-data views of its results."""
from datetime import datetime

from vlib import core  # noqa: F401  (puts /repo on sys.path)

from src.assets.config import create_service_provider_config
from src.assets.schemas import (
    bulk_ops,
    error,
    group,
    list_response,
    patch_op,
    resource_type,
    schema as schema_doc,
    search_request,
    service_provider_config,
    user,
)
from src.attributes_presence import AttributePresenceChecker
from src.data import operator as op
from src.data import type as at
from src.data.attributes import (
    Attribute,
    AttributeIssuer,
    AttributeMutability,
    AttributeReturn,
    Attributes,
    AttributeUniqueness,
    ComplexAttribute,
)
from src.data.container import AttrRep, Invalid, Missing, SCIMDataContainer
from src.data.path import PatchPath
from src.data.schemas import ResourceSchema, SchemaExtension, get_schema_rep
from src.error import ValidationError, ValidationIssues
from src.filter import Filter
from src.sorter import Sorter
from src import request_validators as rv

TYPES = {
    "boolean": at.Boolean,
    "integer": at.Integer,
    "decimal": at.Decimal,
    "string": at.String,
    "binary": at.Binary,
    "extref": at.ExternalReference,
    "uriref": at.URIReference,
    "scimref": at.SCIMReference,
    "datetime": at.DateTime,
    "unknown": at.Unknown,
}
MUTABILITY = {
    "readOnly": AttributeMutability.READ_ONLY,
    "readWrite": AttributeMutability.READ_WRITE,
    "immutable": AttributeMutability.IMMUTABLE,
    "writeOnly": AttributeMutability.WRITE_ONLY,
}
RETURNED = {
    "always": AttributeReturn.ALWAYS,
    "never": AttributeReturn.NEVER,
    "default": AttributeReturn.DEFAULT,
    "request": AttributeReturn.REQUEST,
}
UNIQUENESS = {
    "none": AttributeUniqueness.NONE,
    "server": AttributeUniqueness.SERVER,
    "global": AttributeUniqueness.GLOBAL,
}
ISSUER = {
    "server": AttributeIssuer.SERVER,
    "client": AttributeIssuer.CLIENT,
    "none": AttributeIssuer.NOT_SPECIFIED,
}


class Mark:
    """Stands for the library's marker objects in plain data."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"

    def __eq__(self, other):
        return isinstance(other, Mark) and other.name == self.name

    def __hash__(self):
        return hash(self.name)


INVALID, MISSING = Mark("Invalid"), Mark("Missing")


def plain(value):
    """Deep, independent, plain-data view of a value held or returned by the library."""
    if value is Invalid:
        return INVALID
    if value is Missing:
        return MISSING
    if isinstance(value, SCIMDataContainer):
        return plain(value.to_dict())
    if isinstance(value, dict):
        return {k: plain(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if isinstance(value, AttrRep):
        return ("rep", value.schema, value.attr, value.sub_attr)
    if isinstance(value, Filter):
        return ("filter", ast_of(value.operator))
    if isinstance(value, PatchPath):
        return (
            "path",
            plain(value.attr_rep),
            plain(value.complex_filter),
            plain(value.complex_filter_attr_rep),
        )
    if isinstance(value, Sorter):
        return ("sorter", plain(value.attr_rep), value.asc)
    if isinstance(value, AttributePresenceChecker):
        return ("checker", [plain(r) for r in value.attr_reps], value.include)
    return value


def typed(value):
    """Plain data in which 1, 1.0 and True can be told apart and dict order is irrelevant."""
    if isinstance(value, bool):
        return ("bool", value)
    if isinstance(value, dict):
        return ("dict", frozenset((k, typed(v)) for k, v in value.items()))
    if isinstance(value, (list, tuple)):
        return ("list", tuple(typed(v) for v in value))
    if isinstance(value, float) and value != value:
        return ("nan",)
    return value


def same_data(a, b):
    return typed(a) == typed(b)


def rep_of(rep):
    return (rep.schema, rep.attr, rep.sub_attr)


def ast_of(operator):
    """Plain expression tree of a parsed filter, through the operators' public properties."""
    if isinstance(operator, op.And):
        return ("and", tuple(ast_of(o) for o in operator.sub_operators))
    if isinstance(operator, op.Or):
        return ("or", tuple(ast_of(o) for o in operator.sub_operators))
    if isinstance(operator, op.Not):
        return ("not", ast_of(operator.sub_operator))
    if isinstance(operator, op.ComplexAttributeOperator):
        return ("complex", rep_of(operator.attr_rep), ast_of(operator.sub_operator))
    if isinstance(operator, op.Present):
        return ("pr", rep_of(operator.attr_rep))
    if isinstance(operator, op.BinaryAttributeOperator):
        return (operator.SCIM_OP, rep_of(operator.attr_rep), typed(operator.value))
    raise ValueError(f"unknown operator {operator!r}")


def issue_list(issues):
    """Sorted list of (location, code); locations are tuples of text."""
    found = []

    def walk(node, location):
        for key, value in node.items():
            if key == "_errors" and isinstance(value, list):
                found.extend((location, item["code"]) for item in value)
            else:
                walk(value, location + (key,))

    walk(issues.to_dict(), ())
    return sorted(found)


def issue_set(issues):
    return set(issue_list(issues))


def processor(spec):
    """A real processor doing what the description says, which records what it is given."""
    from vlib import procs

    def process(value):
        issues = ValidationIssues()
        given = plain(value)
        if procs.REAL is not None:
            procs.REAL.append((spec["tag"], procs.normal(given)))
        out, reported, proceeds = procs.apply(spec, given)
        if reported:
            issues.add(ValidationError.must_be_equal_to("something else"), proceed=proceeds)
        if spec["kind"] in ("keep", "issue"):
            return value, issues
        if out is INVALID:
            return Invalid, issues
        if spec["kind"] in ("drop", "fewer", "stamp"):
            out = procs.items(out, SCIMDataContainer)
        return out, issues

    return process


def build_attr(spec):
    common = dict(
        name=spec["name"],
        description=spec.get("description", ""),
        required=spec.get("required", False),
        issuer=ISSUER[spec.get("issuer", "none")],
        multi_valued=spec.get("multi", False),
        mutability=MUTABILITY[spec.get("mutability", "readWrite")],
        returned=RETURNED[spec.get("returned", "default")],
        uniqueness=UNIQUENESS[spec.get("uniqueness", "none")],
    )
    for key, modes in (("parsers", "parse"), ("dumpers", "dump")):
        if spec.get("proc"):
            common[key] = [processor(p) for p in spec["proc"][modes]]
        if spec.get("whole"):
            common["complex_" + key] = [processor(p) for p in spec["whole"][modes]]
    if spec["type"] == "complex":
        return ComplexAttribute(sub_attributes=[build_attr(s) for s in spec["sub"]], **common)
    return Attribute(
        type_=TYPES[spec["type"]],
        case_exact=spec.get("caseExact", False),
        canonical_values=list(spec["canonical"]) if spec.get("canonical") else None,
        validate_canonical_values=spec.get("enforce", False),
        reference_types=list(spec["refTypes"]) if spec.get("refTypes") else None,
        **common,
    )


def build_extension(spec):
    return SchemaExtension(
        schema=spec["schema"],
        attrs=[build_attr(a) for a in spec["attrs"]],
        name=spec.get("name", ""),
        description=spec.get("description", ""),
    )


def build_schema(spec):
    builtin = spec.get("builtin")
    if builtin:
        return {
            "User": user.User,
            "Group": group.Group,
            "ResourceType": resource_type.ResourceType,
            "ServiceProviderConfig": service_provider_config.ServiceProviderConfig,
        }[builtin]()
    schema = ResourceSchema(
        schema=spec["schema"],
        attrs=[build_attr(a) for a in spec["attrs"]],
        name=spec["name"],
        description=spec.get("description", ""),
        plural_name=spec.get("plural"),
    )
    for extension in spec.get("extensions", []):
        schema.with_extension(build_extension(extension), extension.get("required", False))
    return schema


def make_config(max_operations=10):
    return create_service_provider_config(
        patch={"supported": True},
        bulk={"supported": False} if max_operations is None else
        {"supported": True, "max_operations": max_operations, "max_payload_size": 1000},
        filter_={"supported": True, "max_results": 100},
        change_password={"supported": True},
        sort={"supported": True},
        etag={"supported": True},
    )


def is_datetime(value):
    return isinstance(value, datetime)
