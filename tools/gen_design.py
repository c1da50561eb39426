#!/usr/bin/env python3
"""Brings the generated parts of DESIGN.md up to date: the facet lists of every
property, the table of planted bugs and the list of repairs."""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'pbt'))
import index
from importlib import import_module


def facets(prop):
    reg = import_module(prop.lower()).FACETS
    return ['- `{}` ({} / {} cases): {}'.format(n, v[0], v[1], ' '.join(reg[n].rule.split())) for n, v in index.SIZES[prop].items()]


def planted():
    rows = ['| Planted change | Property | Manifests with | Caught by |', '| --- | --- | --- | --- |']
    caught = json.load(open(os.path.join(ROOT, 'tools/caught.json')))
    for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
        rows.append('| {} | {} | {} | {} |'.format(d, m['property'], m['needs'].replace('|', '\\|'), caught.get(d, '?')))
    return rows


def repairs():
    out = []
    for f in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']:
        if f['status'] == 'fixed':
            out.append('- {} `{}`: {}'.format(f['property'], f['commit'], f['what'].split(f['commit'], 1)[-1].strip()))
    return sorted(out)


def block(text, name, lines):
    a, b = '<!-- {} -->'.format(name), '<!-- /{} -->'.format(name)
    if a not in text:
        return text
    head, rest = text.split(a, 1)
    return head + a + '\n' + '\n'.join(lines) + '\n' + b + rest.split(b, 1)[1]


def main():
    path = os.path.join(ROOT, 'DESIGN.md')
    text = open(path).read()
    parts = re.split(r'(?m)^(?=## )', text)
    for i, p in enumerate(parts):
        m = re.match(r'## (C\d\d) ', p)
        if m:
            body = [l for l in p.rstrip().splitlines() if not re.match(r'- `\w+` \(\d+ / \d+ cases\)', l)]
            parts[i] = '\n'.join(body).rstrip() + '\n\n' + '\n'.join(facets(m.group(1))) + '\n\n'
    text = ''.join(parts)
    text = block(text, 'planted', planted())
    text = block(text, 'repairs', repairs())
    open(path, 'w').write(text.rstrip() + '\n')


main()
