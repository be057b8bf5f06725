"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {
    'c31-close-unflushed': 'the output is now compared after each close and encoded value',
    'c33-append-spare': 'lists with spare capacity on several levels added',
    'c10-resolve-zero': 'usual attribute values are now drawn',
    'c11-index-id': 'periods with equal identifiers are now drawn',
    'c12-append-same-id': 'objects with content and equal identifiers are now drawn',
    'c12-append-both': 'trees whose lists share one array added',
    'c14-blank-codecs': 'codecs of white space are now drawn',
    'c30-entity-first': 'own entity and auto-close tables are now drawn',
    'c05-bom': 'byte order marks are now drawn',
    'c25-stat-size': 'documents are now also read through a named pipe',
 'c31-end-prefixed': 'wrong namespaces are now drawn together with the right prefix',
    'c06-skip-wrap': 'unknown content of extreme size and decoys added',
    'c32-name-alias': 'documents with more than 1024 names and per-token snapshots added',
    'c25-big-file': 'documents of up to 10 MB added',
    'c03-prefix-chars': 'namespaces that end in characters of all sorts added; they also showed a defect (xmlns:1x)',
    'c32-innerxml': 'elements read one by one and into byte slices added',
}
missed.update(json.load(open(os.path.join(root, 'tools/missed.json'))) if os.path.exists(os.path.join(root, 'tools/missed.json')) else {})
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    first = 'no; ' + missed[d] if d in missed else 'yes'
    rows.append(f"| {d} | {m['property']} | {m['needs'].replace('|', '/')} | {first} |")
p = root + '/DESIGN.md'
lines = open(p).read().split('\n')
idx = [i for i, l in enumerate(lines) if re.match(r'\| c\d\d-', l)]
assert idx == list(range(idx[0], idx[-1] + 1))
lines[idx[0]:idx[-1] + 1] = rows
open(p, 'w').write('\n'.join(lines))
