# Writes properties.jsonl (run by hand when the list changes).
import json, os
F = 'scheme/fields/'
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    row = dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None))
    if state:
        row['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    rows.append(row)
rows = []

p('C01', 'Scalar fields accept exactly the values their declaration allows',
  'A scalar field (text, integer, float, decimal, boolean, date, time, datetime, token, uuid, email, enumeration, binary or opaque) accepts a value exactly when it has the declared type and meets every declared constraint: inclusive minimum and maximum (including zero bounds, and never satisfied by NaN), minimum and maximum length of the text after stripping or of the bytes, pattern from the start of the text, grammar, number of token segments, membership in the enumeration, equality with the constant, and null only when null is allowed. '
  'A rejected value raises one error whose token says which constraint failed, as a type error when the value is of the wrong type (or is not the constant, not in the enumeration, or its preprocessor failed) and as a plain validation error otherwise. '
  'An accepted value is returned unchanged except for the documented normalisation (stripped text, lower-cased and separator-normalised emails, datetimes moved to the field\'s time zone, ignored enumeration values becoming null, the result of a preprocessor).',
  ['inputs', 'configurations'], 'every scalar field configuration, every value valid, just outside a bound, of a wrong type or null; native and serialized form; inbound and outbound',
  'Acceptance is a statement about every combination of constraints and every value, with failures hiding at boundaries, falsy bounds and combinations; the tests try a few hand-picked values per field.',
  [F + f + '.py' for f in 'text integer float decimal boolean date time datetime token uuid email enumeration binary'.split()] + ['scheme/field.py'],
  [('null check, preprocessing, constant, validation', 'Field.process'), ('per-type constraints', '_validate_value of each scalar field')],
  ['Field.process / serialize / unserialize of a scalar field', 'tokens of the raised error'])

p('C02', 'Scalar values survive serialization and unserialization',
  'For every scalar field and every value valid for it, serializing the value and unserializing the result gives back an equal value of the same type (for datetimes, the same instant to the second). '
  'The serialized form is the canonical one: ISO text with four-digit years for dates, HH:MM:SS for times, YYYY-MM-DDTHH:MM:SSZ in UTC for datetimes, exact decimal text for decimals, url-safe base64 for binary values, and the value itself for natively serializable types. '
  'Unserializing accepts the native form too, and text that does not denote a value of the type is rejected with an invalid-type error instead of being guessed.',
  ['inputs'], 'every value of every scalar type over its full range (years 1-9999, large integers, subnormal floats, exponents, any bytes, any unicode text)',
  'An inverse law quantifies over the whole value space; the tests check one or two values per type.',
  [F + f + '.py' for f in 'binary date datetime decimal float integer time text'.split()],
  [('serialization', '_serialize_value'), ('unserialization', '_unserialize_value')],
  ['Field.serialize, Field.unserialize'])

p('C03', 'Structures keep, default, require and reject keys as declared',
  'Processing a mapping with a structure yields exactly the declared keys that were supplied, each processed by its own field, plus, for inbound processing only, the processed default of each missing key that has one; missing required keys without an applicable default are errors, other missing keys stay absent, keys with a null value are dropped when null is to be ignored, and partial processing neither requires nor defaults anything at that level. '
  'Undeclared keys are errors in strict structures and are silently dropped otherwise. '
  'A polymorphic structure requires a non-null recognised discriminator, applies exactly the variant it selects (with the common keys added to every variant), and a structure with a declared key order yields its keys in that order.',
  ['inputs', 'configurations'], 'every structure specification (nesting, strictness, defaults incl. falsy ones, required, ignore-null, partial, polymorphic, key order) and every mapping, both phases, native and serialized',
  'The rules interact (default x required x ignore-null x phase x partial x polymorphism x nesting); the tests sample single rules with fixed values.',
  [F + 'structure.py'], [('key loop', 'Structure.process'), ('variant selection', 'Structure.process polymorphic_on'), ('common keys', "Structure.__init__ '*'")],
  ['Structure.process / serialize / unserialize'])

p('C04', 'Maps validate every key and value and require the required keys',
  'A map accepts exactly the mappings whose keys are all valid (for the key field when one is declared, otherwise text) and whose values are all valid for the value field, and that contain every required key after key processing; the result contains every entry, with key and value processed. '
  'An invalid key rejects the whole map with one invalid-keys error, while invalid values and missing required keys are reported together, entry by entry. '
  'A map never drops, adds or renames an entry otherwise.',
  ['inputs', 'configurations'], 'every key and value field, required-key list and mapping, both phases, native and serialized, including nested maps',
  'Quantifies over all mappings and key/value field pairs; the tests use a few two-entry maps.',
  [F + 'map.py'], [('entry loop', 'Map.process')], ['Map.process / serialize / unserialize'])

p('C05', 'Sequences and tuples keep every item in place and check lengths',
  'A sequence accepts exactly the lists whose length lies within the declared inclusive limits, whose items are all valid, and, when items must be unique, contain no two equal processed items (hashable or not); the result is a list with each item processed, in the same order and of the same length. '
  'A tuple accepts exactly the lists or tuples with one value per declared position, each valid for the field at that position, and returns a tuple in that order. '
  'Length failures are reported as a single error, item failures together at their positions.',
  ['inputs', 'configurations'], 'every item field, length limit (including 0), uniqueness flag and list of values; every tuple specification and value; nested',
  'Boundary lengths, duplicates after processing, unhashable items and position-dependent fields span a space that fixed examples do not cover.',
  [F + 'sequence.py', F + 'tuple.py'], [('item loop', 'Sequence.process'), ('positional loop', 'Tuple.process')],
  ['Sequence.process, Tuple.process'])

p('C06', 'A union is decided by its first member whose type matches',
  'A union processes a value exactly as its first member that does not reject the value with an invalid-type error: the result, serialized form or validation error of that member is the outcome of the union, and later members are never consulted. '
  'When every member rejects the type the union raises one invalid-type error, and null is governed by the union itself. '
  'This holds for nested unions and structural members, in both phases, native and serialized.',
  ['inputs', 'configurations'], 'every ordered list of member fields and every value, including values several members would accept',
  'Depends on member order and on which of two error kinds each member raises for each value; the tests try one two-member union.',
  [F + 'union.py'], [('priority loop', 'Union.process'), ('type error vs validation error', 'InvalidTypeError / ValidationError')],
  ['Union.process / serialize / unserialize'])

p('C07', 'A validation error reports every failure, at the right place, once',
  'When processing fails, the raised error mirrors the value: every failing position carries exactly its own failures (the complete set, not just the first), identified by the full path from the root field, and every position that was valid carries its processed value. '
  'The printable form lists each failure exactly once with its path, message, number and, where there was one, the value refused, and the serialized form contains the same failures at the same positions and nothing for valid positions; it survives a trip through JSON through the error field and through the schema of errors. '
  'Every failure carries its field and the value refused. The failures inside a surrogate, and of definitions, objects and errors held in containers, are reported where they are. '
  'Whether the failing parts are few or many, shallow or deep, does not change what is reported.',
  ['inputs', 'configurations'], 'every nested specification and value with one or more simultaneous failures at any depth',
  'Completeness and placement of several simultaneous failures in arbitrary nestings cannot be enumerated by examples.',
  ['scheme/exceptions.py', F + 'structure.py', F + 'sequence.py', F + 'tuple.py', F + 'map.py', F + 'error.py'],
  [('error collection', 'process of structural fields'), ('rendering', 'StructuralError.format_errors / serialize / unserialize')],
  ['StructuralError tree, str(), serialize(), unserialize(); Error field'])

p('C08', 'Processing is total and never changes its input or the schema',
  'Processing any python value with any well-formed field either returns a value or raises a scheme validation error; no other exception escapes and the call terminates, whatever the type, nesting or size of the value. '
  'The value passed in, the field and its defaults are left exactly as they were, even when processing fails. '
  'Processing the same value again gives the same outcome.',
  ['inputs', 'configurations', 'histories'], 'every field specification against arbitrary, including hostile, values (wrong types at every level, NaN, infinities, huge numbers, lone surrogates, deep nesting, malformed base64 / dates), repeatedly and in any order',
  'Robustness against all inputs and absence of side effects on shared objects is a universal claim; the tests pass well-behaved values and never compare the input afterwards.',
  ['scheme/field.py'] + [F + f + '.py' for f in 'structure sequence map tuple union binary datetime integer decimal'.split()],
  [('conversion of failures to validation errors', 'process / _unserialize_value'), ('copy on processing', 'process of structural fields')],
  ['Field.process, Field.serialize, Field.unserialize'])

p('C09', 'Whole-value round trip and fixed point through any schema',
  'Any value accepted by a schema, once processed, is accepted again unchanged by the same schema: processing is idempotent in either phase. '
  'Serializing an accepted value and unserializing the result gives back the processed value, with every nested value of the same type and at the same place. '
  'Serializing that result again yields the identical serialized form.',
  ['inputs', 'configurations'], 'every composite specification (structures, maps, sequences, tuples, unions with disjoint members, all scalar types) and every accepted value',
  'An algebraic law over all schemas and values; tests compare fixed expected results for a few.',
  ['scheme/field.py', F + 'structure.py', F + 'sequence.py', F + 'map.py', F + 'tuple.py'],
  [('phase handling', 'process(phase, serialized)')], ['Field.process, serialize, unserialize'])

p('C10', 'A described schema can be rebuilt and behaves the same',
  'Describing a field gives a plain natively serializable value containing every natively serializable attribute (falsy ones and extension aspects included), and rebuilding a field from it, directly or after a trip through JSON, gives a field of the same type that describes itself identically and accepts, rejects and transforms every value exactly as the original does. '
  'Rebuilding does not alter the description it is given, so one description can be used any number of times. '
  'Verbose descriptions rebuild the same field, and the description of a field contains those its nested fields give of themselves, with the further parameters asked for.',
  ['configurations', 'inputs'], 'every field specification without callables, compared with its rebuilt counterpart on generated values',
  'Every attribute of every field type, at every nesting, must survive; the tests compare descriptions of a few hand-written fields and rarely process values with the rebuilt field.',
  ['scheme/field.py'] + [F + f + '.py' for f in 'structure sequence map tuple union enumeration token definition date datetime time decimal'.split()],
  [('description', 'Field.describe'), ('reconstruction', 'FieldMeta.reconstruct, Field.construct')],
  ['describe(), Field.reconstruct()'])

p('C11', 'A cloned field behaves the same and is independent',
  'A clone made without overrides has the same type and attributes as the original and treats every value identically; overrides change exactly the named attributes. '
  'Later changes to the clone (inserting, merging, removing or replacing keys at any depth, redefining an enumeration, renaming, changing aspects) never affect the original, and the other way round. '
  'Cloning works for every field, including nested, polymorphic and customised ones.',
  ['configurations', 'histories'], 'every field specification, every override, followed by any sequence of edits on either side',
  'Aliasing between two object graphs shows only after particular later edits; the tests clone a couple of fields.',
  ['scheme/field.py', F + 'structure.py', F + 'enumeration.py'],
  [('deep copy', 'Field.clone, Field.__deepcopy__')], ['Field.clone, extend, replace'])

p('C12', 'Schema edits act exactly on the named keys, in any order',
  'After any history of inserting, merging, removing, extending and replacing keys of a structure, the structure has exactly the keys that a plain mapping subjected to the same edits would have, each with the intended field: insert and merge keep an existing key unless told to overwrite or prefer, and remove ignores absent keys. '
  'Extending and replacing return an edited copy and leave the original alone, replacing only touches keys that are present and returns the field itself when there is none, and every subsequent validation follows the edited set of keys. '
  'Redefining an enumeration appends to or replaces its values accordingly.',
  ['histories'], 'every sequence of edit operations with overlapping, absent and duplicate names, interleaved with processing',
  'Order-dependent state; the tests apply single edits.',
  [F + 'structure.py', F + 'enumeration.py'],
  [('edits', 'Structure.insert/merge/remove/extend/replace'), ('redefinition', 'Enumeration.redefine')],
  ['keys of the structure and outcome of processing'], [('structure', 'mapping of key to field', F + 'structure.py')])

p('C13', 'Transforming a schema replaces exactly the chosen fields',
  'Transforming a field offers it and then its nested fields to the transformer, outermost first; wherever the transformer returns a field that field takes the place, wherever it returns false the field is kept without looking inside, and everything else stays as it is. '
  'When nothing is replaced the very same field object is returned; otherwise the original is left untouched and the result behaves as the same specification with those replacements. '
  'This covers structures (plain and polymorphic), sequences, maps\' values, tuples and unions at any depth.',
  ['configurations', 'inputs'], 'every nested specification and every transformer choosing fields by name, type or attribute',
  'Quantifies over nested schemas and transformers; the tests transform four small fields.',
  ['scheme/field.py'] + [F + f + '.py' for f in 'structure sequence map tuple union'.split()],
  [('recursive rebuild', 'transform of each structural field')], ['Field.transform'])

p('C14', 'Filtering a schema keeps exactly the matching fields',
  'Filtering keeps a field when one of the given attributes matches (every one, when all are demanded), with an absent attribute counting as false. '
  'In a structure the keys whose fields do not match disappear (possibly all of them), nested structures are filtered the same way, and a sequence, map or tuple whose content would vanish is refused with an error; a union is kept or dropped as a whole. '
  'Nothing to filter means the same field is returned, and the original is never changed.',
  ['configurations'], 'every nested specification with arbitrary attribute values and every filter',
  'Quantifies over schemas and filter conditions with any/all semantics at every level; the tests cover a handful.',
  ['scheme/field.py'] + [F + f + '.py' for f in 'structure sequence map tuple'.split()],
  [('attribute match', 'Field.filter'), ('recursive filter', 'filter of each structural field')], ['Field.filter'])

p('C15', 'Extraction takes exactly what the schema names from its subject',
  'Extracting with a schema from a mapping, or in the non-strict mode from an object with attributes, yields exactly the declared keys that are present and not null, each extracted by its own field, with items of sequences, maps and tuples extracted in place; nothing undeclared is taken and the subject is not changed. '
  'With screening attributes, fields that do not match are left out of structures and sequences, and a root that does not match is refused. '
  'A custom extractor replaces its field\'s subject, and a subject of the wrong shape, or one its extractor fails on, is refused with an extraction error.',
  ['inputs', 'configurations'], 'every nested specification and every subject (mappings, objects, nested mixes), with and without screening and extractors',
  'Quantifies over schemas and subjects; the tests extract from a few fixed ones.',
  ['scheme/field.py'] + [F + f + '.py' for f in 'structure sequence map tuple union'.split()],
  [('extraction', 'extract of each field'), ('screening', 'Field.screen')], ['Field.extract, Field.screen'])

p('C16', 'Instantiation and schema-based objects mirror the value exactly',
  'Instantiating a valid value calls the instantiator of each field that has one exactly once for each non-null value, children before parents, with that field, the already instantiated value and, inside structures and maps, its key; everything else is passed through unchanged and in place. '
  'What an instantiator raises reaches the caller as it is. '
  'A schema-based object built from a value has one attribute per declared key, taken from the value or else from the schema\'s defaults, and of the class registered for its polymorphic identity. '
  'Serializing such an object and unserializing the result, in any format, gives an object with equal attributes.',
  ['inputs', 'configurations'], 'every nested specification with instantiators at arbitrary positions and every valid value; plain, keyed and polymorphic object classes',
  'Order, multiplicity and keys of calls over arbitrary nestings; the tests use four small classes.',
  ['scheme/element.py', 'scheme/field.py', F + 'structure.py', F + 'map.py', F + 'sequence.py', F + 'tuple.py'],
  [('instantiation', 'instantiate of each field'), ('objects', 'Element, ElementMeta')], ['Field.instantiate, Element.serialize / unserialize'])

p('C17', 'Interpolation resolves variables at every depth and nothing else',
  'Interpolating a template shaped like a schema replaces each variable reference with the parameter it names, as text inside textual fields and as the native value elsewhere, and leaves every other value, literal text and null untouched; containers keep their shape. '
  'Entries of structures and maps that refer to an undefined variable are left out, while a non-textual field outside one reports it; a reference standing for a whole container is replaced by the referenced container, which is then interpolated itself. '
  'The template and the parameters are not changed.',
  ['inputs', 'configurations'], 'every nested specification, every template mixing literals and references (nested paths, missing names), every parameter set',
  'Quantifies over templates, schemas and parameters; the tests interpolate single values.',
  ['scheme/interpolation.py', 'scheme/field.py'] + [F + f + '.py' for f in 'structure sequence map tuple union text token uuid integer float decimal enumeration'.split()],
  [('evaluation', 'interpolate_parameters'), ('recursion', 'interpolate of each field')], ['Field.interpolate, interpolate_parameters'])

p('C18', 'JSON content round-trips through any JSON-representable schema',
  'Serializing an accepted value to JSON with its schema produces standard JSON text of the serialized value, and unserializing that text with the same schema gives back the processed value. '
  'The same holds without a schema for any natively serializable value with text keys. '
  'Text that is a valid JSON form of the value written by another program is read the same.',
  ['inputs', 'configurations'], 'every JSON-representable specification and accepted value; any unicode text, any finite number',
  'A codec inverse law; the tests check three fixed values.',
  ['scheme/formats/json.py', 'scheme/field.py', 'scheme/format.py'], [('codec', 'Json'), ('schema mediation', 'Field.serialize / unserialize')],
  ['Field.serialize(value, "json"), Field.unserialize(text, "json")'])

p('C19', 'YAML content reads back as exactly the value written',
  'Serializing any natively serializable value with text keys to YAML produces text that a standard YAML reader parses back to an equal value of the same types: text that looks like a number, date, boolean, null or YAML syntax, multi-line, long, padded or containing any unicode character stays that text, and floats and integers keep their value. '
  'With a schema, unserializing the YAML serialization of an accepted value gives back the processed value. '
  'Keys keep their declared order when one is declared and are sorted otherwise.',
  ['inputs', 'configurations'], 'every natively serializable value (all text, nesting of mappings and lists, empty containers) and every schema with an accepted value',
  'The writer decides quoting, folding and indentation per string and nesting; the failing strings are rare and unbounded in number, and the tests list about twenty.',
  ['scheme/formats/yaml.py'], [('quoting and layout', 'Yaml._serialize_*')], ['Yaml.serialize / unserialize; Field.serialize(value, "yaml")'])

p('C20', 'XML content round-trips through any XML-representable schema',
  'Serializing an accepted value to XML with its schema and unserializing the result with the same schema gives back the processed value: nulls, booleans, numbers, empty text, text containing markup, empty and nested structures, maps, sequences and tuples included. '
  'The document is well-formed, its root and elements are named after the fields and keys, and the preamble is optional. ',
  ['inputs', 'configurations'], 'every specification of nested structures (plain and polymorphic), maps, sequences, tuples and scalar fields with XML-name keys, and every accepted value whose text uses only characters XML can carry',
  'A codec inverse law over schemas and values; the tests check a few fixed documents.',
  ['scheme/formats/xml.py'], [('codec', 'Xml._serialize_content / _unserialize_element')], ['Field.serialize(value, "xml"), Field.unserialize(text, "xml")'])

p('C21', 'CSV content round-trips rows of scalar columns',
  'Serializing a list of records to CSV writes one header row and one row per record, in order, with the requested columns in the requested order (all scalar columns sorted by name when none are requested), and unserializing the text gives the records back, with empty and null cells absent and structural columns left out. '
  'Text with quotes, commas, line breaks and any unicode, zero, false and negative values survive. '
  'Asking for a path inside a larger value selects the records found there.',
  ['inputs', 'configurations'], 'every record specification, column selection and list of records',
  'Quoting and typed cells over all texts and column selections; the tests check one fixed table.',
  ['scheme/formats/csv.py'], [('codec', 'Csv.serialize / unserialize')], ['Field.serialize(value, "csv"), Field.unserialize(text, "csv")'])

p('C22', 'Structured text and urlencoded forms round-trip',
  'Serializing nested mappings, lists, booleans, nulls and text to structured text and reading it back gives the same value, with numbers coming back as numbers when number parsing is asked for and as their text otherwise; braces and brackets inside text survive. '
  'The urlencoded form of a mapping carries each entry as its structured text and reads back the same, including blank values and any unicode or reserved character. '
  'Through a schema both give back the processed value.',
  ['inputs', 'configurations'], 'every nested value whose text avoids the separators and reserved words the notation cannot express (comma and backslash inside containers, colon in keys, true/false/null)',
  'A hand-written notation with escaping; inverse law over all nestings and texts.',
  ['scheme/formats/structuredtext.py', 'scheme/formats/urlencoded.py'], [('writer', '_serialize_content'), ('reader', '_unserialize_structured_value')],
  ['StructuredText / UrlEncoded serialize / unserialize'])

p('C23', 'Files written through a schema read back, in the format asked for',
  'Writing a value to a file through a schema and reading the file through the same schema gives back the processed value, whichever way the format is chosen: by name, by mimetype, by class, or from the file\'s extension in any letter case. '
  'The file contains exactly what serializing to that format produces, replacing earlier content. '
  'A missing file or an unknown format or extension is reported as a value error (or quietly, when asked) and an invalid value is rejected before the file is touched.',
  ['inputs', 'configurations', 'histories'], 'every format, way of selecting it, value and sequence of writes and reads over a few paths',
  'Combines registry lookups, file state and codecs over histories; the tests write one file.',
  ['scheme/format.py', 'scheme/field.py'], [('registry', 'FormatMeta'), ('lookup', 'Format.read / write')], ['Field.read / write, Format.read / write'])

p('C24', 'Datetimes denote the same instant in every time zone',
  'Whatever the process time zone and whatever zone a datetime carries, a datetime field keeps the instant: the processed value equals the given one, naive values are taken in the field\'s own zone (UTC when so declared, local otherwise), and the serialized text is that instant in UTC. '
  'Bounds compare instants, inclusively, and describe themselves in UTC so that a rebuilt field has the same bounds. '
  'Local conversion follows the zone\'s daylight-saving rules on either side of each change.',
  ['inputs', 'configurations'], 'every instant from 1971 to 2037 to the second outside the ambiguous or skipped local hour, fixed-offset and local zones, process time zones with and without daylight saving on both hemispheres',
  'The tests run in one zone (UTC), where most mistakes are invisible.',
  [F + 'datetime.py', 'scheme/timezone.py'], [('normalisation', 'DateTime._normalize_value'), ('local zone', 'LocalTimezone')], ['DateTime.process / serialize / unserialize / describe; LOCAL, UTC'])

p('C25', 'Fields defined later make recursive schemas work as defined',
  'A placeholder used anywhere in a schema (structure key, plain or in a variant, sequence item, map value, tuple position, union member) behaves, once defined, exactly as if the defining field had been written there, in every place it was used, including recursively to any depth of value. '
  'Until it is defined, processing that reaches it raises the undefined-field error and processing that fails earlier or does not need it does not. '
  'Defining works before or after the schemas that use the placeholder are built or cloned.',
  ['configurations', 'inputs', 'histories'], 'every position and number of placeholders, order of building, cloning and defining, and recursive values of any depth',
  'Depends on the order of construction and definition and on nesting depth; the tests define one placeholder per field type.',
  ['scheme/field.py'] + [F + f + '.py' for f in 'structure sequence map tuple union'.split()],
  [('placeholder', 'Undefined.define / register'), ('substitution', '_define_undefined_field')], ['process of schemas using Undefined'])

p('C26', 'Surrogates keep their type, version and content across serialization',
  'Serializing a surrogate and unserializing the result gives a surrogate of the same class with equal content, the same schema version and, for a dynamic schema, an equivalent schema, so that serializing again yields the identical form. '
  'Content is processed by exactly the schema of its version, and constructing from a mapping or an object takes exactly what that schema names plus explicit additions. '
  'A surrogate field accepts only surrogates, and only of the listed types when a list is given.',
  ['inputs', 'configurations'], 'every surrogate class (plain, with one or several schema versions, dynamic schema), version and content',
  'Version and schema selection over all contents; the tests use a few fixed surrogates.',
  ['scheme/surrogate.py', F + 'surrogate.py'], [('registry by path', 'surrogate._get_implementation'), ('versioned schemas', 'serialize / unserialize')], ['surrogate.serialize / unserialize / construct, Surrogate field'])

p('C27', 'References to python objects and field definitions resolve exactly',
  'An importable module, class or function serialized by an object field becomes its dotted path, and unserializing the path gives that very object; a path that does not resolve is an import validation error. '
  'A definition field turns a field into its description and back into an equivalent field, any number of times, and admits only the listed field types when a list is given. '
  'Neither changes the description or object it is given.',
  ['inputs', 'configurations'], 'every importable object of a set of modules, every dotted or colon path, every describable field',
  'Quantifies over paths and field specifications; the tests use one module and two fields.',
  [F + 'object.py', F + 'definition.py', 'scheme/util.py'], [('identification', 'identify_object'), ('import', 'import_object')], ['Object and Definition fields'])

p('C28', 'Generated defaults and required-field queries follow the schema',
  'The defaults generated for a structure are exactly its keys that have a constant or else a default, with null for the others when a full set is asked for, per variant for polymorphic structures; a structure declared to generate its default uses them. '
  'A structure reports that it has required fields exactly when some key is required and has no default, or when it is polymorphic. '
  'Applying the generated defaults to inbound processing never introduces a key the schema does not declare.',
  ['configurations'], 'every structure specification with falsy and non-falsy defaults and constants, polymorphic or not',
  'Falsy defaults and constants in combination; the tests check two structures.',
  [F + 'structure.py'], [('defaults', 'Structure.generate_defaults'), ('query', 'Structure.has_required_fields')], ['generate_defaults, has_required_fields, default'])

p('C29', 'Visiting a description reaches every directly nested field once',
  'Visiting the description of a field calls the callback exactly once for each directly nested field description (structure keys in every variant, sequence item, map key and value, tuple values, union members), with that very description, and returns the results in the same shape. '
  'Recursing through the callback therefore reaches every nested field exactly once. '
  'The description is not changed, and scalar descriptions have nothing to visit.',
  ['configurations'], 'every nested field description and callback',
  'Quantifies over nested descriptions; the tests visit one of each kind.',
  ['scheme/field.py'] + [F + f + '.py' for f in 'structure sequence map tuple union'.split()],
  [('visitor', '_visit_field')], ['Field.visit'])

p('C30', 'Helpers for nested values read, write and merge exactly one place',
  'Setting a nested value by dotted path changes exactly the value at that path and reading the path returns it; a missing intermediate key is a key error and a non-mapping on the way a type error, without changing anything. '
  'Merging one mapping into another takes every key of the addition, merges mappings present on both sides recursively, keeps everything else, and returns the merged original without changing the addition. '
  'Formatting a structure shows every key and value and hides the values of masked keys at every depth.',
  ['inputs', 'histories'], 'every nested mapping, path and sequence of updates and merges',
  'Quantifies over nested mappings and sequences of operations; the tests use fixed ones.',
  ['scheme/util.py'], [('nested access', 'set_nested_value, traverse_to_key'), ('merge', 'recursive_merge'), ('formatting', 'format_structure')], ['the functions themselves'])

p('C31', 'Generated documentation states every field where it belongs',
  'Documenting a described field gives one block for the field and one for every field nested in it (structure keys except the discriminator of a variant, one block per variant, sequence item, tuple values, union members, map values which are structural or described), each nested under the block of the field containing it and named after its key. '
  'A block states the type of the field and exactly the flags (unless the role leaves them out), description, notes, title, constant, default, bounds, lengths, allowed values and required keys the description has. '
  'Rendering the blocks keeps that nesting in the indentation, and every argument, parameter and text, without changing the blocks or the description; the directives the blocks are read with present all of it (but notes, and a default beside a constant) and nothing else, each in the definition it belongs to.',
  ['configurations'], 'every description and role, every tree of directives',
  'Quantifies over nested descriptions and their parameters; no test covers the generator.',
  ['scheme/doc/generator.py', 'scheme/doc/domain.py'], [('generator', '_document_field'), ('rendering', 'directive.render'), ('directives', 'FieldDefinition.run, StructureDefinition.run')], ['DocumentationGenerator', 'directive.render', 'FieldDefinition', 'StructureDefinition'])

p('C32', 'Text helpers keep the text they arrange',
  'Indenting a text puts the given prefix in front of every line (the first only when asked for) and changes nothing else. '
  'Minimizing a text keeps its words in order, separated by single spaces. '
  'Abbreviating a text keeps texts which are short enough, and otherwise gives the beginning and the end of the text around three dots, cut back to letters or digits, within the length asked for (five at least); abbreviated formatting of a structure does so for every text in it and keeps everything else. '
  'The plural of a word is the word itself for a quantity of one and otherwise the word with the ending its own ending calls for.',
  ['inputs'], 'every text, length, word and quantity',
  'Quantifies over texts; the tests use a few words.',
  ['scheme/util.py'], [('text helpers', 'indent, minimize_string, abbreviate_string, pluralize'), ('formatting', 'StructureFormatter')], ['the functions themselves'])

p('C33', 'Custom field types and formats take the place they declare',
  'A type derived from field types is registered under its name in lower case, inherits their errors and parameters with its own taking precedence (and the nearer base before the farther), and leaves every other type as it was; errors given to one instance belong to that instance and its clones alone. '
  'Its validation, serialization and unserialization are used alone and inside any other field, in the phases and order of the built in ones, and an error it raises has the title, message and printed details it declared. '
  'Its descriptions state its type and parameters, and are rebuilt, like clones, as that type. '
  'A declared format is found by its name, mimetype, class and dotted extensions by fields and by Format, receives the value, schema and parameters given, and leaves other formats as they were.',
  ['configurations', 'histories'], 'every family of types and formats, instances and values',
  'Quantifies over families of types declared one after another; the tests only use built in ones.',
  ['scheme/field.py', 'scheme/format.py', 'scheme/exceptions.py'], [('field types', 'FieldMeta, FieldError, Field.__init__'), ('formats', 'FormatMeta, Format.read, Format.write')], ['Field.types', 'Format.formats', 'process', 'describe', 'reconstruct'])

p('C34', 'One schema serves several callers at once',
  'A schema shared by several threads, or used again by a preprocessor in the middle of a call, gives every call (processing, serializing and unserializing in any format, extracting, instantiating, interpolating, describing, cloning, filtering) the outcome it has alone: the same value, or the same error with all its places. '
  'Using a schema never leaves anything behind in it.',
  ['schedules', 'inputs'], 'every schema, set of calls and interleaving of them',
  'Quantifies over schedules; the tests make one call at a time.',
  ['scheme/field.py', 'scheme/exceptions.py', 'scheme/interpolation.py'] + [F + f + '.py' for f in 'structure sequence map tuple union text datetime'.split()],
  [('processing', 'Field.process, _validate_value'), ('errors', 'StructuralError')], ['the public methods of fields'])

p('C35', 'A field is what its declaration says, and nothing else',
  'Declaring a field with arguments each of the kind documented for its type (names, flags, lengths and bounds native or serialized, patterns, value lists, nested fields, hooks by object or by path, aspects, errors) gives a field with exactly those attributes and the documented defaults for the rest; an argument of another kind (a negative length, a bound which is not a value of the type, something which is not a field where one belongs, an unknown path) is refused when the field is declared. '
  'The arguments are left as they were, and fields declared from the same arguments, parts or dictionaries share nothing that a later edit or definition could change: a key or variant used by several schemas behaves in each as one of its own. '
  'Errors given to a field are reported with their titles and messages in place of its own and change nothing else. '
  'An element class takes the schema it declares, bound to the class, and a schema which is no structure is refused.',
  ['configurations'], 'every type, combination of arguments and sharing of parts',
  'Quantifies over combinations of arguments and over the parts several schemas share; the tests declare each field once, from arguments of its own.',
  ['scheme/field.py', 'scheme/element.py'] + [F + f + '.py' for f in 'structure sequence map tuple union text email integer float decimal date time datetime enumeration token binary object surrogate definition'.split()],
  [('declaration', 'Field.__init__ and its overrides'), ('elements', 'ElementMeta')], ['constructors', 'process', 'describe', 'extend, insert, remove, replace'])

p('C36', 'A schema answers for what it is now',
  'Whatever a schema was asked and whatever was done to it before, every answer it gives (processed values and errors, descriptions, extracted, instantiated and interpolated values, filtered and transformed schemas, required keys and defaults, clones) is the answer of a schema newly declared as it is by then: nothing about its earlier keys, values, attributes or answers is kept, at any depth. '
  'Asking never changes what is asked.',
  ['histories', 'configurations'], 'every schema and every history of questions, edits and clones',
  'Quantifies over histories in which questions and edits alternate; the tests ask a field once, or edit it once.',
  ['scheme/field.py'] + [F + f + '.py' for f in 'structure sequence map tuple union enumeration text'.split()],
  [('edits', 'Structure.insert, merge, remove, Enumeration.redefine'), ('answers', 'the public methods of fields')], ['the public methods of fields'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for r in rows:
        f.write(json.dumps(r) + '\n')
print(len(rows))
