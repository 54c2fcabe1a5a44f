"""Writes DESIGN.md from tools/design_*.md, the property modules, known_findings.txt and seeded/."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constants(path):
    found = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and node.targets[0].id in ('RULE', 'ASSUMPTIONS') if isinstance(node, ast.Assign) \
                and isinstance(node.targets[0], ast.Name) else False:
            try:
                found[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return found


def main():
    manifest = dict((c['property'], c) for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks'])
    parts = [open(os.path.join(ROOT, 'tools', 'design_head.md')).read(), '## The properties\n']
    for line in open(os.path.join(ROOT, 'properties.jsonl')):
        prop = json.loads(line)
        parts.append('### %s %s\n' % (prop['id'], prop['title']))
        path = os.path.join(ROOT, 'vf', 'props', prop['id'].lower() + '.py')
        if prop['id'] not in manifest:
            parts.append('Not built yet.\n')
            continue
        found = constants(path)
        parts.append('*%s.* %s\n' % (manifest[prop['id']]['technique'].capitalize(), found.get('RULE', '')))
        parts.append('Beyond the tests: %s\n' % prop['why_tests_cant'])
        if found.get('ASSUMPTIONS'):
            parts.append('Left out or assumed: %s\n' % ' '.join(found['ASSUMPTIONS']))
    tail = os.path.join(ROOT, 'tools', 'design_tail.md')
    if os.path.exists(tail):
        parts.append(open(tail).read())
    parts.append('## Findings\n\nDefects of scheme found by these checks. Those repaired have a `fix:` commit in /repo; the others are '
        'listed in `known_findings.txt`, each with a probe that decides whether that very input still fails, and are left out of the '
        'generated cases by construction.\n')
    for line in open(os.path.join(ROOT, 'known_findings.txt')):
        if not line.startswith('#'):
            parts.append('* ' + line.strip())
    detected = os.path.join(ROOT, 'tools', 'detected.json')
    if os.path.exists(detected):
        parts.append('\n## Planted bugs\n\n`seeded/<id>/`; found by the quick check of its property (seed 1), and by others where noted.\n')
        for name, entry in sorted(json.load(open(detected)).items()):
            meta = json.load(open(os.path.join(ROOT, 'seeded', name, 'meta.json')))
            parts.append('* **%s** (%s): %s Needs: %s Caught by: %s' % (name, meta['property'], meta['what_it_breaks'].rstrip('.') + '.',
                meta['needs'].rstrip('.') + '.', ', '.join(entry) or 'none'))
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as handle:
        handle.write('\n'.join(parts) + '\n')


main()
