#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta/properties.py"""
import json, os, runpy
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = runpy.run_path(os.path.join(root, 'meta', 'properties.py'))['P']
props = json.load(open(os.path.join(root, 'bin', 'props.json')))
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
        if p['observe']:
            a['observe_at'] = list(p['observe'])
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
man = {'version': 1, 'setup_cmd': 'bash bin/setup.sh', 'checks': [], 'not_applicable': [],
       'notes': 'No hooks in /repo: the harness uses the public API only. Known findings and fixed defects: known_findings.txt.'}
for p in P:
    assert p['id'] in props, p['id']
    assert len(p['title']) <= 80, p['title']
    tr = props[p['id']]['trace']
    mods = sorted(set(m[0] for m in props[p['id']].get('mc', [])))
    man['checks'].append({'property': p['id'], 'quick_cmd': 'python3 bin/check.py ' + p['id'],
                          'thorough_cmd': 'VERIF_TIER=thorough python3 bin/check.py ' + p['id'],
                          'technique': 'TLA+ specification (%s), TLC model checking of %s, TLC trace validation of recorded runs of the real code' % (tr + '.tla', ', '.join(mods)),
                          'level': props[p['id']]['level'], 'level_note': p['note']})
json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)


# DESIGN.md
MISSED = {
    'cbor-long-order': 'writing the same entries again, in maps made otherwise (C01)',
    'step-script-cap': 'scripts of up to 9 MB (C25)',
    'vals-compare-prefix': 'long texts with a common beginning (C21)',
    'coltype-decode-shares': 'decoding columns into values already held (C22)',
    'fixture-approx': 'numbers that are nearly the same (C26)',
    'generate-index-wrap': 'the index over 3000 generated rows (C22)',
    'structure-hash-path': 'hashes of structures with paths (C16)',
    'viz-predefined-last': 'templates defining predefined blocks (C20)',
    'sketch-encoded-min': 'decoded sketches compared exactly with a table of floats (C19)',
    'copy-ends-early': 'writers that fail with any error, io.EOF among them (C23)',
    'csv-int-truncates': 'text in typed CSV columns that nearly is of the type (C08)',
    'csv-short-row-untyped': 'short CSV rows where options allow them (C08)',
    'transform-config-deep': 'config maps with maps under shared keys (C11)',
    'dataset-decode-keeps-body': 'open files of what a document held before decoding (C09)',
    'cbor-break-at-eof': 'cuts right at the break byte of indefinite containers (C03)',
    'json-key-marked-early': 'a refused value under a key that is then used again (C04)',
    'xlsx-wide-row': 'rows wider than 26 and 702 columns (C06)',
    'cr-at-read-end': 'carriage returns at the end of every size of read (C02)',
    'validate-batch-drop': 'bodies beyond one batch of entries with errors at its border (C15)',
    'validate-fault-late': 'faults after several batches (C15)',
    'detect-json-short': 'readers with short reads in detection (C17)',
    'render-cut-body': 'bodies that end early in templates (C20)',
    'vals-decoded-key': 'keys with escapes in path components (C21)',
    'diff-meta-path-case': 'near values: case, spaces, last digit (C24)',
    'diff-order-late-meta': 'DiffOrderMC: every order of components (C24)',
    'steps-reader-flush': 'long scripts read through faulty readers (C25)',
    'json-depth-leak': 'more values next to each other than may be nested (C01)',
    'cbor-simple-byte': 'undefined and simple values of one and two bytes (C08)',
    'xlsx-column-names': 'up to 1400 columns (C01)',
    'cbor-tag-nesting': 'millions of tags around a value inside of a container (C06)',
    'golden-loose': 'golden files that differ in one value of the document itself (C26)',
    'dsgen-batches': 'numbers of rows around powers of two and ten (C27)',
    'sketch-match-merged': 'estimates of merged exact centroids (C19, Sketch.tla SumFits)',
}
out = open(os.path.join(root, 'meta', 'design.md')).read().rstrip() + '\n\n'
for p in P:
    q = props[p['id']]
    mc = ', '.join('%s%s' % (m[1].replace('.cfg', ''), ' (thorough)' if len(m) > 2 and m[2] == 'thorough' else '') for m in q.get('mc', []))
    out += '### %s %s\n\n' % (p['id'], p['title'])
    out += '- Over: %s.\n- Trace specification: %s. Model checked: %s.\n- How: %s\n- Why tests cannot: %s\n\n' % (
        p['text'].rstrip('.'), q['trace'], mc, p['note'], p['why'])
fx, fi = [], []
for l in open(os.path.join(root, 'known_findings.txt')):
    l = l.strip()
    if l.startswith('fixed: property='):
        pid, c, what = l[len('fixed: property='):].split(' ', 2)
        fx.append('| %s | %s | %s |' % (pid, c, what))
    elif l.startswith('finding: property='):
        pid, what = l[len('finding: property='):].split(' ', 1)
        i = what.rindex('}')
        fi.append('- %s: %s' % (pid, what[i + 1:].strip()))
sd = os.path.join(root, 'seeded')
rows, n = [], 0
if os.path.isdir(sd) and os.listdir(sd):
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, 'meta.json')))
        rows.append((m['property'], '| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' '), MISSED.get(d, '') and 'first missed: ' + MISSED[d])))
    rows.sort()
    tail = open(os.path.join(root, 'meta', 'design_tail.md')).read()
    tail = tail.replace('@FIXED@', '| property | commit | what failed |\n|---|---|---|\n' + '\n'.join(fx))
    tail = tail.replace('@FINDINGS@', '\n'.join(fi))
    tail = tail.replace('@SEEDCOUNT@', 'There are %d.' % len(rows))
    tail = tail.replace('@SEEDS@', '| id | caught by | what it breaks | |\n|---|---|---|---|\n' + '\n'.join(r[1] for r in rows))
    with open(os.path.join(root, 'DESIGN.md'), 'w') as f:
        f.write(out + tail)
