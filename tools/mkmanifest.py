"""Writes MANIFEST.json: one check per property with a module under vf/props."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = {
    'C01': 'property-based testing against a reference model of every scalar field, near-boundary generation',
    'C02': 'round-trip property over generated specifications and values, canonical forms from a reference model',
    'C03': 'property-based testing against a reference model of structures',
    'C04': 'property-based testing against a reference model of maps',
    'C05': 'property-based testing against a reference model of sequences and tuples',
    'C06': 'differential property: union against its own members run separately, plus a reference model',
    'C07': 'property-based testing against a reference model of error trees, printed and serialized forms',
    'C08': 'fuzzing with arbitrary python values plus invariants on input and schema snapshots',
    'C09': 'round-trip and fixed-point metamorphic properties over generated schemas',
    'C10': 'round-trip property over descriptions, independent description oracle, behaviour against a reference model',
    'C11': 'stateful property: clones and originals under generated edits, against snapshots and a reference model',
    'C12': 'model-based stateful testing of edit histories against a dictionary model',
    'C13': 'property-based testing of generated transformations against a model of the specification',
    'C14': 'property-based testing of generated filters against a model of the specification',
    'C15': 'property-based testing of extraction against a reference model',
    'C16': 'property-based testing of instantiation call logs and schema-based objects against a reference model',
    'C17': 'property-based testing of generated templates against a reference model of interpolation',
    'C18': 'round-trip and differential properties (standard JSON reader and writer)',
    'C19': 'round-trip and differential properties (independent YAML reader)',
    'C20': 'round-trip property plus structural oracle over the document (standard XML parser)',
    'C21': 'round-trip and differential properties (standard csv reader and writer)',
    'C22': 'round-trip properties, independent encoder',
    'C23': 'round-trip property over generated files, format selections and failures',
    'C24': 'property-based testing across time zones against zoneinfo arithmetic',
    'C25': 'property-based testing: schemas with placeholders against the same schemas written out and a reference model',
    'C26': 'round-trip property over generated surrogate families',
    'C27': 'round-trip property over importable objects and generated fields',
    'C28': 'property-based testing against a model of defaults',
    'C29': 'property-based testing of visits against a model of the description',
    'C30': 'property-based testing and stateful sequences against plain mapping models',
    'C31': 'property-based testing of documentation trees and their rendering against a model of the description, parsed back by indentation',
    'C32': 'property-based testing of text helpers against models of each',
    'C33': 'model-based testing of generated families of field types and formats',
    'C34': 'controlled-schedule testing: generated interleavings and re-entrant calls, against the same calls made alone',
    'C35': 'property-based testing of declarations against tables of what each argument means, and of shared parts against parts of their own',
    'C36': 'stateful differential testing: long-lived, edited fields against fields built afresh',
}

checks, missing = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    prop = json.loads(line)['id']
    if os.path.exists(os.path.join(ROOT, 'vf', 'props', prop.lower() + '.py')):
        checks.append({'property': prop, 'quick_cmd': './check.sh %s quick' % prop,
            'thorough_cmd': './check.sh %s thorough' % prop, 'technique': TECHNIQUE[prop], 'level': 'exploration',
            'level_note': 'Generated-input search against an explicit oracle; evidence counts the distinct non-trivial cases. '
                'It shows the absence of violations only among the cases explored.'})
    else:
        missing.append({'property': prop, 'reason': 'its check is not built yet'})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as handle:
    json.dump({'version': 1, 'setup_cmd': 'chmod +x check.sh', 'checks': checks, 'not_applicable': missing}, handle, indent=1)
    handle.write('\n')
print(len(checks), 'checks', len(missing), 'missing')
