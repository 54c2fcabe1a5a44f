"""Writes known_findings.txt: the findings recorded but not repaired (suppressed, each with a probe in its property's
module), and the defects repaired in /repo (which suppress nothing)."""
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FINDINGS = [
    ('C07', 'error-values', 'a valid value of an Error field beside a failure is printed and serialized as a failure: errors and values are told apart by their class'),
    ('C10', 'structural-default-dates', 'a structural default holding dates, times or decimals is described in serialized form and rebuilt as that text'),
    ('C10', 'key-named-fieldtype', "a structure with a key named 'fieldtype' cannot be rebuilt from its description"),
    ('C10', 'recursive-schemas-undescribable', 'describing a schema which contains itself ends in RecursionError'),
    ('C11', 'recursive-schemas-uncloneable', 'cloning a schema which contains itself ends in RecursionError'),
    ('C16', 'unions-not-instantiated', 'Union.instantiate raises NotImplementedError'),
    ('C17', 'carriage-returns', 'carriage returns in the literal text of templates become line feeds'),
    ('C18', 'binary', 'binary values cannot be serialized to JSON: their serialized form is bytes'),
    ('C19', 'unsortable-keys', 'maps whose keys serialize to values of different types cannot be written as YAML'),
    ('C20', 'binary', 'binary values do not survive XML: their serialized form is bytes'),
    ('C21', 'binary', 'binary values do not survive CSV: their serialized form is bytes'),
    ('C22', 'comma-in-container', 'a comma inside text inside a container of structured text splits it'),
    ('C22', 'backslash-in-container', 'text with a backslash inside a container of structured text cannot be read back'),
    ('C22', 'reserved-words', 'the texts true, false and null come back from structured text as values'),
    ('C22', 'single-empty-text', 'a list of a single empty text comes back from structured text empty'),
    ('C22', 'placeholder-text', 'text like ||0|| inside a container of structured text is taken for a nested container'),
    ('C22', 'exponents', 'floats written with an exponent and no point are not parsed as numbers'),
    ('C23', 'carriage-returns', 'carriage returns in text read back from CSV and structured text files as line feeds'),
    ('C24', 'repeated-hour', 'a local datetime in the hour repeated at the end of daylight saving moves by an hour'),
]

FIXED = [
    ('ce0f5de', 'C26', 'surrogates had no implementation identity on python 3: serializing one raised AttributeError'),
    ('c811490', 'C26', 'valid_surrogates never matched: surrogates of the listed types were refused'),
    ('e87ee6f', 'C10 C27', 'Field.reconstruct removed entries from the description it was given'),
    ('cc01eed', 'C12', 'Structure.merge stopped at the first field already present'),
    ('00048a4', 'C14', "filtering ignored 'all' and kept structures which were excluded entirely"),
    ('f1597d3', 'C17', 'interpolating a union raised NameError'),
    ('87fb9c2', 'C21', 'reading csv printed every cell'),
    ('5f3db7f', 'C21', 'csv content with quoted line breaks was read back torn apart'),
    ('551b482', 'C22', 'the urlencoded format raised TypeError when used through a field or Format'),
    ('2719ca4', 'C22', 'keys with blank values were lost reading urlencoded content'),
    ('d1d6371', 'C22', 'reading empty structured text raised IndexError'),
    ('6fceeee', 'C22', 'text was not unescaped when parsing numbers'),
    ('586cb75', 'C05 C08', 'sequences of unhashable items with unique raised TypeError'),
    ('ff0c14a', 'C01 C08', 'malformed base64 raised binascii.Error or was accepted'),
    ('0082b34', 'C10', 'ignored_values, segments and key_order were missing from descriptions'),
    ('a1dc18e', 'C10', 'empty, nested and null-bearing defaults of structural fields were lost or described wrongly'),
    ('6d5d40f', 'C11', 'cloning a field with errors of its own raised TypeError'),
    ('4612dfc', 'C02 C24', 'years before 1000 were written with fewer digits and read as invalid; bounds were described in local time as if UTC'),
    ('d290142', 'C08', 'a datetime given to a date field with bounds raised TypeError'),
    ('67d0914', 'C25 C11', 'structures containing themselves and clones of undefined schemas did not work'),
    ('eba446d', 'C25', 'reaching an undefined field raised TypeError'),
    ('3c3aa33', 'C13', 'transforming polymorphic structures raised AttributeError'),
    ('2c04187', 'C20', 'polymorphic structures raised and empty text became null in XML'),
    ('32ba34e', 'C01', 'tokens, uuids and extended emails followed by a newline were accepted'),
    ('abebbf3', 'C07', 'the error for a boolean given to an integer field did not carry the value'),
    ('c3fd026', 'C08', 'failing preprocessors of maps, sequences and tuples escaped as bare exceptions'),
    ('75edf33', 'C08', 'datetimes at the ends of the calendar raised OverflowError'),
    ('ac9621d', 'C01', 'NaN passed any bound'),
    ('34336c0', 'C08', 'aware times against naive bounds raised TypeError'),
    ('a891c09', 'C04 C08', 'maps keyed by tuples raised TypeError (unhashable list)'),
    ('73e1eaa', 'C07', 'nested errors were lost unserializing a structural error'),
    ('01288ef', 'C19', 'the YAML writer wrote text, keys and nesting which read back as something else'),
    ('78ee357', 'C01 C08', 'enumerations failing constant or preprocessor raised KeyError'),
    ('fa8fc02', 'C07 C08', 'printing an error whose value is a tuple raised TypeError'),
    ('ef1958e', 'C08', 'malformed structural errors raised TypeError'),
    ('6d52f3e', 'C08', 'malformed surrogates raised TypeError or KeyError'),
    ('0aeaadb', 'C10', 'polymorphic structures with identities other than text could not be rebuilt'),
    ('9923710', 'C15 C16 C17', 'a falsy polymorphic identity was taken for a missing one'),
    ('8077bbc', 'C10', "a map's default was described with native keys"),
    ('59c134e', 'C07 C08', 'repr of a field whose default is a tuple raised TypeError'),
    ('b0f308a', 'C10', 'describing a structure whose default has undeclared keys raised KeyError'),
    ('4a8c16c', 'C15 C17', 'values without a recognized identity raised KeyError when extracting and interpolating'),
    ('9487450', 'C15 C17', 'too short tuples raised IndexError when extracting and interpolating'),
    ('31cd911', 'C15', 'failing extractors of unions escaped as bare exceptions'),
    ('e22385e', 'C03 C12', 'the key order of polymorphic and edited structures was not followed'),
    ('3d04ec4', 'C08', 'repr of maps with required keys of several types raised TypeError'),
    ('72074ef', 'C08', 'structural errors with a malformed structure raised'),
    ('d8dbdd2', 'C16', 'elements with a falsy polymorphic identity were not registered'),
    ('8099704', 'C17', 'a union gave up interpolating when its first fields raised something other than a refusal'),
    ('66bcb55', 'C17', 'native values in untyped fields were turned into text when interpolating'),
    ('a2fbe64', 'C17', 'a template reaching into an undefined variable raised jinja2.UndefinedError'),
    ('fd97b27', 'C17', 'trailing newlines of templates were dropped'),
    ('96fe4ea', 'C22', 'escaped brackets in structured text were taken for containers'),
    ('c13019c', 'C23', 'a value which cannot be serialized left the file truncated'),
    ('6c065bc', 'C25', 'structures containing themselves under several keys or in containers ended in RecursionError when defined'),
    ('3a2b364', 'C26', 'surrogates of a versioned class built without a version raised TypeError when serialized'),
    ('8b7d37e', 'C26', 'surrogate versions below the first were taken for later schemas'),
    ('32ecf97', 'C28', 'the generated default of a variant identified another one when the discriminator had a default'),
    ('29b290b', 'C30', 'formatting a structure with keys of several types raised TypeError'),
    ('22d68ac', 'C31', 'documenting a union raised NameError'),
    ('311cd5e', 'C31', 'the maximum of a decimal was documented as its minimum'),
    ('e03f3de', 'C31', 'documenting a structure raised AttributeError, and variants left out any key named type and kept the discriminator'),
    ('8410bb7', 'C31', 'documenting enumerations, required keys and variants of several types raised TypeError'),
    ('834ce97', 'C31', 'the bounds of dates and times were left out of their documentation'),
    ('a8bb77d', 'C32', 'abbreviating a string raised TypeError'),
    ('f57973e', 'C35', 'fields declared with the same aspects shared one dictionary, and wrote their other arguments into the one given'),
    ('1b6f5ff', 'C35', 'structures took over the dictionaries they were given: variants declared from one shared a discriminator, and the common keys were removed from the declaration'),
    ('0a392e2', 'C35', 'email fields ignored the errors they were given'),
]


def main():
    lines = ['# finding: suppressed, while its own probe (a specific input, in vf/props/cNN.py) still fails.',
        '# fixed: repaired in /repo; suppresses nothing.']
    for prop, key, what in FINDINGS:
        lines.append('finding: property=%s %s: %s' % (prop, key, what))
    for commit, props, what in FIXED:
        for prop in props.split():
            lines.append('fixed: property=%s %s %s' % (prop, commit, what))
    with open(os.path.join(ROOT, 'known_findings.txt'), 'w') as handle:
        handle.write('\n'.join(lines) + '\n')


main()
