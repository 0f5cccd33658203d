"""Writes /verif/properties.jsonl (the catalogue of claimed properties)."""
import json, os

def P(id, title, statement, over, text, why, files, mech, observe, hook=None):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": [observe], "hook_needed": hook},
    }

RV = "src/request_validators.py"
props = [
P("C01", "No input makes the library raise",
  "For every JSON value given as a request or response body, query string or header set, and every text given as a filter, patch path, sort key or attribute name, each parsing, dumping and validating entry point returns its normal result together with an issue report and never raises. "
  "Hostile values (nulls, booleans, numbers of any size, infinities, non-ASCII or empty text, wrong containers, unknown or oddly-cased keys, at any position) are no exception.",
  ["inputs"], "all JSON-like values up to a nesting depth of about 6, in every argument position of every public entry point, for built-in and generated schemas; all texts with fewer than 30 nested groups",
  "Tests feed a few hand-picked bad values per entry point; a crash needs one particular value at one particular position.",
  [RV, "src/data/schemas.py", "src/data/type.py", "src/data/container.py", "src/filter.py", "src/data/path.py", "src/sorter.py", "src/attributes_presence.py", "src/assets/schemas/bulk_ops.py", "src/assets/schemas/patch_op.py", "src/assets/schemas/list_response.py", "src/assets/schemas/search_request.py"],
  [("schema processing pipeline", "src/data/schemas.py BaseSchema._process"), ("request/response validators", RV), ("value types", "src/data/type.py")],
  "every call into a public entry point: exception or return"),
P("C02", "Well-formed filters parse to exactly what they say",
  "A well-formed filter text parses without issues into exactly the expression it denotes: 'or' binds weaker than 'and', 'and' weaker than 'not', parentheses and attr[...] group, and every operand survives, in textual order. "
  "Attribute names, schema prefixes and comparison literals arrive unchanged and correctly typed (quoted strings verbatim, whatever keywords, brackets, spaces or placeholder-like text they contain; integers exactly; decimals, booleans and null), whatever the spacing and the letter case of the operators.",
  ["inputs"], "all filter expressions of the SCIM grammar (nesting depth up to 6, up to about 12 comparisons) rendered with arbitrary legal spacing, operator case, redundant grouping and string contents",
  "Tests parse some dozens of fixed texts; precedence, grouping and literal bugs need particular combinations of positions and contents.",
  ["src/filter.py", "src/utils.py", "src/data/container.py", "src/data/operator.py"],
  [("placeholder substitution of strings, groups and complex filters", "src/filter.py Filter.parse/_parse_operator/_encode_placeholders"), ("literal typing", "src/utils.py parse_comparison_value")],
  "return value of Filter.parse rendered by Filter.to_dict"),
P("C03", "Malformed filters are always rejected",
  "A text that is not a filter (unbalanced or empty brackets, missing operand, unknown operator, bad attribute name, bad or operator-incompatible literal, nested complex filters, trailing or leading garbage, empty text) never yields a filter: the result is the invalid marker together with at least one issue. "
  "Issues are reported if and only if no filter is returned, so no part of the text is ever silently ignored.",
  ["inputs"], "all single and double corruptions of well-formed filters (token deletion, insertion, duplication, replacement, swap) and arbitrary token soups, judged by an independent recogniser of the grammar",
  "Tests list fixed malformed texts; acceptance of a malformed text depends on where the corruption sits.",
  ["src/filter.py", "src/utils.py"],
  [("error reporting in the recursive parser", "src/filter.py Filter._parse_op_attr_exp and callers")],
  "return value and issues of Filter.parse"),
P("C04", "Filter evaluation follows the filter's logical meaning",
  "Evaluating a filter against a resource gives the outcome of its logical meaning: comparisons follow the attribute's type and case sensitivity, a multi-valued attribute matches when any of its values does, a complex filter matches when one single item satisfies the whole inner filter, and and/or/not combine as three-valued logic in which missing data is undetermined in strict mode and accepted in lenient mode. "
  "A clause over an attribute the schema does not define never matches where the resource carries data for its parent, and values that cannot be compared never match an ordering.",
  ["inputs"], "all filters over all attributes (every type, single/multi-valued, complex, extension, unknown) crossed with all resources of built-in and generated schemas, strict and lenient",
  "Tests evaluate fixed operator/value pairs; wrong outcomes need specific combinations of operator, type, missing data, negation and nesting.",
  ["src/data/operator.py", "src/filter.py", "src/data/container.py"],
  [("match methods", "src/data/operator.py"), ("filter call", "src/filter.py Filter.__call__")],
  "match status returned by evaluating a parsed filter on a resource"),
P("C05", "Patch paths parse to the addressed target or are rejected",
  "A well-formed patch path (attribute, attribute.sub-attribute, attribute[filter], attribute[filter].sub-attribute, each optionally qualified by a schema URN) parses without issues to exactly that attribute, that filter and that sub-attribute. "
  "Any other text gives the invalid marker with at least one issue.",
  ["inputs"], "all paths over valid names, URNs, filters (with brackets, dots and quotes inside strings), and their single-token corruptions",
  "Tests cover a few paths; wrong targets appear for particular bracket, quote or URN contents, and a wrong target silently modifies the wrong data.",
  ["src/data/path.py", "src/filter.py", "src/data/container.py"],
  [("path parser", "src/data/path.py PatchPath.parse")],
  "result of PatchPath.parse: target attribute, filter and sub-attribute"),
P("C06", "Attribute names resolve case-insensitively and schema-exactly",
  "An attribute name text (optional schema URN, attribute, optional sub-attribute including $ref) is split into exactly those parts or rejected, and two names are equal exactly when their attribute and sub-attribute agree ignoring letter case and their schemas agree ignoring case or at least one leaves it out. "
  "Looking a name or a patch path up in a schema finds the attribute it names, in any letter case, with or without the URN, and finds nothing for names the schema does not define or qualifies with another URN.",
  ["inputs", "configurations"], "all names over built-in and generated schemas with extensions, all letter-case variants, right, wrong and absent URNs",
  "Tests look up a handful of names in one schema.",
  ["src/data/container.py", "src/data/attributes.py"],
  [("attribute representation", "src/data/container.py AttrRep"), ("attribute registry", "src/data/attributes.py Attributes.get/get_by_path/__getattr__")],
  "AttrRep.parse / equality / Attributes lookups"),
P("C07", "Resource data behaves as one case-insensitive map",
  "After any history of constructing, reading, assigning and deleting attributes, sub-attributes and extension attributes in any letter case, reading a name returns exactly the value most recently stored under that name (or the missing marker), and exporting yields each attribute once, under its latest spelling, with no stale, duplicated or lost entries. "
  "Assigning or deleting one name never changes any other name, extension attributes live only in their own namespace, assigning sub-attributes to something that can not have them is refused with a KeyError and changes nothing, and comparing two containers is true exactly when they hold the same data.",
  ["histories", "inputs"], "all histories of up to 40 construct/get/set/delete/export/compare operations over names in varying case, sub-attributes of single and multi-valued attributes, and extension namespaces",
  "Tests perform one or two operations on fresh containers; aliasing and stale-key bugs need longer histories with case variation.",
  ["src/data/container.py"],
  [("case-insensitive container", "src/data/container.py SCIMDataContainer")],
  "results of item access and to_dict"),
P("C08", "The issue report never loses, invents or misplaces an issue",
  "After any history of adding, merging under a location, extracting and removing issues, the report holds exactly the issues recorded, each at its full location and with its multiplicity; removing affects only the named code at the named location and returns exactly what it removed. "
  "A location may proceed exactly when no blocking issue was recorded at it or at a parent of it, non-blocking issues never block, and extracting or merging never changes the report it was taken from.",
  ["histories"], "all histories of up to 40 operations over several reports, locations of depth 0-4, codes, and blocking/non-blocking issues",
  "Tests never exercise the report on its own; errors surface only for certain orders of merge/get/pop.",
  ["src/error.py"],
  [("issue ledger", "src/error.py ValidationIssues.add/merge/get/pop/can_proceed/has_issues/to_dict")],
  "report contents after each operation"),
P("C09", "Attribute values are accepted exactly when they fit their type",
  "Parsing or dumping a single value of a given SCIM type succeeds exactly when the value belongs to that type (boolean, integer or integral number, decimal number, string, canonical base64 binary, absolute-URL reference, URI/SCIM reference, ISO date-time) and then yields the same value unchanged in meaning; otherwise it yields the invalid marker and an issue. "
  "Parsing then dumping a value gives back an equal value, null is passed through, a multi-valued attribute accepts only lists and reports each bad item at its own position, and items keep their order and number.",
  ["inputs"], "all JSON values and date-times for every attribute type, single and multi-valued",
  "Tests check two or three values per type.",
  ["src/data/type.py", "src/data/attributes.py"],
  [("value types", "src/data/type.py"), ("attribute processing", "src/data/attributes.py Attribute._process")],
  "(value, issues) of attribute parse/dump"),
P("C10", "Processing a resource keeps exactly the attributes its schema knows",
  "Parsing or dumping a resource through a schema outputs each attribute and sub-attribute the schema defines that is present in the input, under the schema's spelling and in its own namespace, with the value its type gives it, and nothing else: unknown attributes never get through, known ones are never dropped, and letter case of input names is irrelevant. "
  "Every rejected value is reported at its exact location (extension URN, attribute, item position, sub-attribute), and valid parts of the resource raise no issue; parsing what was dumped restores the same resource.",
  ["inputs", "configurations"], "all resources (valid, partially invalid, with unknown attributes, oddly-cased names and extension data) for the built-in schemas and for generated schemas with extensions",
  "Tests use a few complete User/Group documents; loss or leak of data depends on the attribute, position, letter case and extension.",
  ["src/data/schemas.py", "src/data/attributes.py", "src/data/container.py"],
  [("schema processing", "src/data/schemas.py BaseSchema._process_data"), ("complex attributes", "src/data/attributes.py ComplexAttribute._process_complex")],
  "(data, issues) of schema parse/dump"),
P("C11", "A resource's declared schemas must match its content and type",
  "A non-empty list of declared schemas is accepted without issue exactly when it names the main schema, names only schemas the resource schema knows, and names every extension whose data the resource carries, all ignoring letter case; each kind of violation is reported on the schemas attribute. "
  "On output, a resource-type name that differs from the schema's own name is always reported, and an extension already attached to a schema cannot be attached again.",
  ["inputs", "configurations"], "all lists of declared schemas (known, unknown, duplicated, re-cased, missing) against resources with and without extension data, for schemas with 0-3 extensions",
  "Tests check single mismatches on the user schema only.",
  ["src/data/schemas.py"],
  [("declared-schema validation", "src/data/schemas.py validate_schemas_field"), ("extension registration", "src/data/schemas.py ResourceSchema.with_extension")],
  "issues at the schemas location; ValueError of extension registration"),
P("C12", "Canonical, single-primary and reserved-keyword rules are enforced",
  "Where an attribute is declared to enforce its canonical values, a value outside them is always rejected and a value inside them (ignoring letter case unless the attribute is case-exact) is always accepted, at the top level, in sub-attributes and in every item; attributes that do not enforce them accept any value. "
  "A multi-valued complex attribute with more than one item marked primary is always reported and one with at most one never is, and a resource identifier containing the reserved bulk keyword is always rejected.",
  ["inputs", "configurations"], "all placements of (non-)canonical values and primary flags over generated schemas (top-level, sub-attribute, extension; single and multi-valued; case-exact or not) and built-in schemas including error and message schemas",
  "Tests enforce canonical values on free-standing attributes only, not through every schema position.",
  ["src/data/attributes.py", "src/data/schemas.py", "src/assets/schemas/error.py"],
  [("canonical check", "src/data/attributes.py Attribute._is_canonical"), ("primary check", "src/data/attributes.py validate_single_primary_value"), ("attribute binding", "src/data/schemas.py _bound_attr_to_schema"), ("reserved keyword", "src/data/schemas.py bulk_id_validator")],
  "issues of schema parse/dump"),
P("C13", "Required, restricted and (un)requested attributes are policed",
  "In a response, an attribute that must never be returned, or that the client excluded or did not ask for, is reported whenever it carries a value, unless it is one that is always returned; asking for an attribute admits its sub-attributes, and asking for a sub-attribute admits its parent but not its siblings. "
  "A required attribute without a value is reported as missing in requests and responses, except where it was not asked for, was excluded, must never be returned, is exempted, or belongs to an absent parent; nothing else is reported, and each report sits at the attribute's exact location.",
  ["inputs", "configurations"], "all combinations of returnability, requiredness, requested/excluded sets (attributes, sub-attributes, any letter case, with or without URN), directions, and presence/absence of values including items of multi-valued attributes and extension attributes",
  "Tests check one attribute and one mode at a time on the user schema.",
  ["src/attributes_presence.py"],
  [("presence checker", "src/attributes_presence.py AttributePresenceChecker.__call__/_check_presence")],
  "issues returned by the presence checker"),
P("C14", "Sorting is a stable permutation in the requested order",
  "Sorting resources returns a permutation of exactly the given resources, ordered by the requested attribute (strings by letter case only when an involved attribute is case-exact, numbers, booleans and dates by value, zero and false included, multi-valued complex attributes by their primary value, other multi-valued ones by their first), ascending or descending as asked, with resources lacking a value last when ascending and first when descending. "
  "Resources with equal keys keep their relative order, each resource is interpreted by its own schema when several are mixed, and the input is not modified.",
  ["inputs"], "all lists of up to 12 resources with duplicated, missing, null, zero and re-cased keys, for all sortable attributes, one or several schemas, both directions",
  "Tests sort three or four resources per case.",
  ["src/sorter.py"],
  [("sorter", "src/sorter.py Sorter.__call__")],
  "the returned list, by identity"),
P("C15", "Create and replace requests deliver only clean, writable data",
  "A create or replace request body is delivered exactly when it satisfies the resource schema (types, required attributes except server-issued ones on create, declared schemas, canonical and primary rules); then it contains the submitted writable attributes with unchanged values. "
  "A delivered replace body contains no attribute or sub-attribute the client may not write, at top level, in items and in extensions, and every writable attribute submitted survives.",
  ["inputs", "configurations"], "all bodies for built-in and generated schemas with every mix of mutability at attribute, sub-attribute and extension level",
  "Tests use one body per validator.",
  [RV, "src/data/schemas.py", "src/attributes_presence.py"],
  [("PUT and POST validators", RV + " ResourceObjectPUT/ResourcesPOST.parse_request")],
  "(request data, issues) of parse_request"),
P("C16", "Patch requests deliver exactly the permitted operations",
  "A patch request is delivered exactly when every operation is valid: known operation name in any letter case, known target, value fitting the target's type, new items carrying their required sub-attributes; delivered operations keep the kind, target and value the client sent, in order. "
  "An operation that would set a read-only attribute or sub-attribute, or remove a read-only or required one, is always refused with an issue located at that operation, and never delivered or turned into another kind of operation.",
  ["inputs", "configurations"], "all lists of up to 4 operations over all targets (attributes, sub-attributes, filtered items, extensions, no path) of built-in and generated schemas, valid and invalid values",
  "Tests check about twenty fixed operations.",
  ["src/assets/schemas/patch_op.py", RV, "src/data/path.py"],
  [("patch schema", "src/assets/schemas/patch_op.py PatchOp.parse"), ("patch validator", RV + " ResourceObjectPATCH.parse_request")],
  "(request data, issues) of the patch request parser"),
P("C17", "Single-resource and error responses are released only when consistent",
  "A response to a read, create, replace, patch or delete is released exactly when its status is the one the operation requires, the body satisfies the schema and the presence rules for the requested attributes, a create carries its Location header, and a Location header, where given, equals the body's location; each violation is reported where it occurred. "
  "An error response is released exactly when its body satisfies the error schema, its status lies in the error range and equals the HTTP status; every error body the library predefines is, once it declares the error schema, released at its own status, and reading an error body yields its status as a number, with an issue when it is no number or lies outside the error range.",
  ["inputs", "configurations"], "all combinations of status code, Location header, body location, body validity and requested attributes for each operation, and of HTTP/body status for errors",
  "Tests toggle one condition at a time.",
  [RV, "src/assets/schemas/error.py", "src/assets/scim_error.py"],
  [("resource response checks", RV + " _dump_resource_output_body"), ("error response checks", RV + " Error.dump_response")],
  "(response data, issues) of dump_response"),
P("C18", "List responses are released only when consistent with the query",
  "A list response is released exactly when its counts agree (total at least the number of resources, equal to it unless a page size was requested, page size never exceeded, items-per-page equal to the number of resources, page information present on partial pages, start index not beyond the requested one), every resource is valid for its own schema and attribute selection, every resource satisfies the requested filter as far as its data tells, and the resources are in the requested order. "
  "Each violation is reported at the offending field or resource index, and consistent responses raise no issue.",
  ["inputs", "configurations"], "all combinations of counts, page parameters, filters, sorters, attribute selections and lists of up to 6 resources of one or several schemas",
  "Tests vary one count or one resource at a time.",
  [RV, "src/assets/schemas/list_response.py", "src/sorter.py", "src/data/operator.py"],
  [("list response checks", RV + " _dump_resources_get_response"), ("resource dispatch", "src/assets/schemas/list_response.py ListResponse.dump")],
  "(response data, issues) of the list and search validators"),
P("C19", "Bulk requests are delivered only when every operation is valid",
  "A bulk request is delivered exactly when it has operations, no more than the configured maximum, and each has a known method in any letter case, the path form its method needs naming a known resource type, a bulk id when creating, and, when it carries data, data that the corresponding single request would accept; delivered operations keep order, method, path and identifiers, and their data is what the single request would deliver. "
  "Any violation is reported at the index and field of the offending operation.",
  ["inputs", "configurations"], "all lists of up to 5 operations with every method, path form, identifier and data validity, and operation limits around the list length",
  "Tests use one valid and a few invalid bulk requests.",
  [RV, "src/assets/schemas/bulk_ops.py"],
  [("bulk request validator", RV + " BulkOperations.parse_request"), ("operation rules", "src/assets/schemas/bulk_ops.py validate_request_operations")],
  "(request data, issues) of the bulk request parser"),
P("C20", "Bulk responses are released only when every operation is consistent",
  "A bulk response is released exactly when the HTTP status is 200 and each operation has a method, a numeric status, a location naming a known resource type where one is needed, an identifier for creates, an error body agreeing with its status when it failed, and, when it succeeded with a body, a body the corresponding single response would release whose location and version agree with the operation's; and the number of failed operations does not exceed the client's limit. "
  "Any violation is reported at the index and field of the offending operation.",
  ["inputs", "configurations"], "all lists of up to 5 operation results mixing methods, statuses, locations, versions, bodies, and error limits around the number of failures",
  "Tests use one valid and a few invalid bulk responses.",
  [RV, "src/assets/schemas/bulk_ops.py"],
  [("bulk response validator", RV + " BulkOperations.dump_response"), ("operation rules", "src/assets/schemas/bulk_ops.py validate_response_operations")],
  "(response data, issues) of the bulk response dumper"),
P("C21", "Query and search parameters reach the server as the client meant them",
  "Query-string and search-request parameters are turned into a filter, sorter, attribute selection, start index and count that mean exactly what the client sent: the given filter text, the given sort attribute in the given order (ascending unless descending is asked), exactly the listed attributes included or excluded, and the given integers. "
  "A malformed parameter, or asking for inclusion and exclusion at once, is reported at that parameter, absent parameters yield nothing, and query and search forms of the same request give the same outcome.",
  ["inputs"], "all combinations of present, absent, valid and malformed parameters in query strings and search bodies",
  "Tests pass one or two parameter combinations.",
  [RV, "src/assets/schemas/search_request.py", "src/sorter.py", "src/attributes_presence.py"],
  [("query parsing", RV + " _parse_resources_get_request, parse_requested_attributes, parse_request_sorting, parse_request_filtering"), ("search schema", "src/assets/schemas/search_request.py SearchRequest.parse")],
  "parsed request data and issues"),
P("C22", "Published schemas describe what is actually enforced",
  "The representation of a schema lists exactly its own attributes and sub-attributes, each once, with the type, plurality, requiredness, case sensitivity, mutability, returnability, uniqueness, description, canonical values and reference types that its definition gives and that parsing and dumping enforce; representations of the built-in resource schemas and of any generated schema are themselves valid schema documents. "
  "The built-in user, enterprise, group and service documents keep the attribute characteristics of the SCIM core standard.",
  ["configurations", "inputs"], "all attributes of all built-in schemas and of generated schemas with every combination of characteristics and with extensions",
  "Tests dump two built-in schemas without inspecting the content.",
  ["src/data/schemas.py", "src/data/attributes.py", "src/assets/schemas/user.py", "src/assets/schemas/group.py", "src/assets/schemas/schema.py", "src/assets/schemas/resource_type.py", "src/assets/schemas/service_provider_config.py"],
  [("schema representation", "src/data/schemas.py get_schema_rep, Attribute.to_dict"), ("attribute binding", "src/data/schemas.py _bound_attr_to_schema")],
  "the representation, and behaviour of the schema on probe values"),
P("C23", "Calls are independent: no leak between calls, threads or instances",
  "The outcome of any call depends only on its arguments and on the schema, validator or filter it is made on: repeating it, making it after any other calls, or running it concurrently with other calls on shared objects from several threads gives the same result as running it alone. "
  "Calls never modify the body, headers, resources or earlier results handed to or returned by them, nor the schemas, and configuring one schema instance never affects another.",
  ["histories", "schedules", "inputs"], "all interleavings of calls over shared validators, schemas, filters, sorters and checkers: random histories, repeated calls, and 4-8 threads with a switch interval of microseconds",
  "Tests make one call per object in one thread and never re-inspect inputs or earlier results.",
  [RV, "src/data/schemas.py", "src/data/attributes.py", "src/data/container.py", "src/error.py"],
  [("shared module-level attribute objects", "src/data/schemas.py and src/assets/schemas/*"), ("container aliasing", "src/data/container.py SCIMDataContainer.__init__")],
  "deep snapshots of inputs, shared objects and earlier results around every call"),
P("C24", "Nothing is released together with an issue",
  "Whenever a request parser or response dumper reports an issue in a body, it delivers no body, and whenever it reports none the body is delivered; a value that fails parsing is always replaced by the invalid marker and an issue, and the invalid marker never appears in anything delivered. "
  "Delivered response bodies export to plain serialisable data holding no internal marker objects.",
  ["inputs", "configurations"], "all inputs of all request parsers, response dumpers, schema and text parsers, valid, invalid and arbitrarily corrupted",
  "Tests compare the body with None for a few failing inputs.",
  [RV, "src/data/schemas.py", "src/data/attributes.py", "src/data/type.py"],
  [("release decision of each validator", RV), ("invalid marker", "src/data/container.py Invalid")],
  "every (result, issues) pair"),
P("C25", "Custom value processors run exactly once, on accepted values only",
  "The parsers and dumpers a user attaches to an attribute run in the given order, each exactly once per value (once per list for a multi-valued attribute, once per item for sub-attributes) and only in their own direction, whenever the value was accepted so far and is not null; each receives what the one before it returned, and what the last returns is what gets delivered. "
  "Those of a complex attribute see it before its sub-attributes are processed, its complex parsers and dumpers after all of them were accepted; a processor that refuses a value ends its chain, and its issue is reported at the attribute. This holds for attributes alone, in schemas and extensions, and through every request and response.",
  ["inputs", "configurations", "histories"], "all schemas and extensions with any number of keeping, replacing, emptying, refusing and reporting processors at every attribute, all valid and damaged values, parsed and dumped directly and through create, replace, patch, bulk, read and list",
  "Tests attach one processor to one attribute; losing, repeating or reordering them needs a particular mix of attribute shape, entry point and failure.",
  ["src/data/attributes.py", "src/data/schemas.py", "src/assets/schemas/patch_op.py", RV],
  [("processing chain of an attribute", "src/data/attributes.py Attribute._process, ComplexAttribute._process_complex"), ("binding of attributes to a schema", "src/data/schemas.py BaseSchema._bound_attr_to_schema, ResourceSchema.with_extension")],
  "log of every run of every processor, and the value and issues that come out"),
P("C26", "Definitions are kept as given, contradictory ones are refused",
  "A schema, extension, attribute, patch path, filter operator or service configuration built by a user reads back exactly as it was given: every attribute and sub-attribute in order, in its namespace, with every characteristic and processor it was defined with, overridden common attributes included, and building one leaves the parts it was built from unchanged. "
  "A contradictory definition is refused when it is built and changes nothing: an extension under a URN the schema has already in any letter case, reference types other than those of an external or URI reference, a path whose filter or sub-attribute belongs to another attribute or is attached to a sub-attribute, a path filter that is not one attribute's, an operator with a value it can not compare, and supported bulk or filtering without its limits.",
  ["configurations", "inputs"], "all schemas with extensions, overrides and processors, all combinations of path parts, operators with values of every type, and configuration options",
  "Tests build a handful of definitions and rarely read them back; a characteristic lost on one way into a schema shows only for particular attributes.",
  ["src/data/schemas.py", "src/data/attributes.py", "src/data/path.py", "src/data/operator.py", "src/assets/config.py"],
  [("attribute binding and extensions", "src/data/schemas.py _bound_attr_to_schema, with_extension"), ("path consistency", "src/data/path.py PatchPath.__init__"), ("configuration limits", "src/assets/config.py")],
  "public properties of the built objects, and the exception of refused ones"),
P("C27", "Filters, paths and attributes are equal exactly when they say the same",
  "Two filters compare equal when they are the same expression, however spaced, bracketed, quoted or built, and never when they differ in an operator, an operand, its order, a name, or a comparison value or its type (true is not 1). Two patch paths compare equal exactly when target, filter and sub-attribute agree, names ignoring letter case; two attribute definitions exactly when name, type, plurality, requiredness, case sensitivity, canonical values and their enforcement, mutability, returnability, uniqueness, processors and sub-attributes agree. "
  "Match outcomes equal true only when passed and false only when failed, and an undecided outcome counts as neither. Equality is symmetric, reflexive, consistent with inequality and never holds with an object of another kind.",
  ["inputs", "configurations"], "all pairs of filters, paths and attribute definitions that are the same or differ in one respect at any depth",
  "Tests compare a few equal pairs and almost no unequal ones.",
  ["src/filter.py", "src/data/path.py", "src/data/attributes.py", "src/data/operator.py"],
  [("filter equality", "src/filter.py Filter.__eq__, Filter.to_dict"), ("path equality", "src/data/path.py PatchPath.__eq__"), ("attribute equality", "src/data/attributes.py Attribute.__eq__"), ("match outcomes", "src/data/operator.py MatchResult")],
  "results of == and != in both directions"),
P("C28", "Discovery documents are released only when they are valid and complete",
  "A schema document is released exactly when every attribute description in it, and in sub-attributes at any depth, has members of the right type, a known type, mutability, returnability and uniqueness in any letter case, and states case sensitivity if it describes a text; descriptions keep their sub-attributes only when they describe a complex attribute and case sensitivity only when they describe a text, and everything else goes out unchanged. "
  "The schemas and resource types endpoints release a list exactly when all its documents are valid, carry what is mandatory and agree with the counts; any violation is reported at the index and member of the offending document. They refuse requests with a filter and take no other parameters into account.",
  ["inputs"], "all schema documents with nested descriptions, valid or damaged at any depth, lists of them, and queries of the discovery endpoints",
  "Tests dump two built-in schema representations; nested damage and letter case are not sampled.",
  ["src/assets/schemas/schema.py", "src/assets/schemas/resource_type.py", RV],
  [("attribute descriptions", "src/assets/schemas/schema.py dump_attributes"), ("discovery endpoints", RV + " SchemasGET, ResourceTypesGET")],
  "dumped documents, released lists and issues"),
P("C29", "What a validator does not interpret is handed on as it was given",
  "Every request and response validator hands back the headers it was given, whether or not something is reported. Parameters of a query string that it does not interpret keep their names and values, those it interprets are replaced by what was read from them only when they are valid, and nothing else is added but the selection checker and, for listings, the filter and sorter, which are absent (none) when not asked for. "
  "Bodies of read requests come back as given; searches, bulk requests and responses leave the query string alone, and discovery requests take over neither query string nor body.",
  ["inputs"], "all calls of all request and response validators, with headers, query strings and bodies of every kind, valid or not",
  "Tests look at the body and the issues of fixed calls; headers and foreign parameters are rarely given and never on failing paths.",
  [RV],
  [("parse_request / dump_response of every validator", RV)],
  "headers, query string and body of the returned request and response data"),
P("C30", "Issues tell the truth about the data they describe",
  "What the message and the context of an issue name is so: the provided kind or value is that of the data at the issue's location and the expected one is what the definition, configuration or protocol asks for (type, canonical values, resource type, status, maximum, number of results, page), never the one provided; the items with a primary mark, the extension, the header and the other parameter named are those concerned. "
  "For filters, paths, sort keys and selections, the operator, value, attribute and expression named are those written in the given text, without traces of how the library reads it, and one fault is described once. Every value in the context appears in the message.",
  ["inputs"], "all issues of all entry points (with codes that have a context), for data and texts of any kind; definitions of any type",
  "Tests compare codes and locations; a message naming the wrong value, type or part of the text passes all of them.",
  ["src/error.py", "src/data/type.py", "src/data/attributes.py", "src/filter.py", RV],
  [("ValidationError, ValidationIssues.to_dict(msg, ctx)", "src/error.py"), ("Filter._encode_placeholders", "src/filter.py"),
   ("AttributeType.parse / dump", "src/data/type.py")],
  "issues.to_dict(msg=True, ctx=True) next to the arguments of the call"),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(props))
