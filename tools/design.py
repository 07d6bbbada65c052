"""Refreshes the generated parts of DESIGN.md (tables, findings, seeded bugs).

python tools/design.py     (needs evidence/ of a run of all checks)
"""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def put(s, name, text):
    return re.sub(r'<!-- %s -->.*<!-- /%s -->' % (name, name),
                  lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (
                      name, text.strip(), name), s, flags=re.S)


def tables():
    from pyvc.runner import load_contracts
    cons = load_contracts()
    out = []
    for row in map(json.loads, open(os.path.join(ROOT, 'properties.jsonl'))):
        i = row['id']
        ev, assumed = {}, []
        try:
            cov = json.load(open(os.path.join(
                os.environ.get('EVIDENCE', os.path.join(ROOT, 'evidence')),
                i + '.json')))['coverage']
            ev = {c['name']: c for c in cov['contracts']}
            assumed = [t.split(': ', 1)[1] for t in cov['trusted_base']
                       if t.startswith('assumed')]
        except (OSError, KeyError):
            pass
        out.append('### %s %s\n' % (i, row['title']))
        out.append(' '.join(row['statement'].split()) + '\n')
        out.append('| contract | functions | mode | obligations | note |')
        out.append('|---|---|---|---|---|')
        for c in cons[i]:
            e = ev.get(c.name, {})
            fs = ', '.join(f.split(':')[-1] for f in c.functions)
            out.append('| %s | %s | %s | %s | %s |' % (
                c.name, fs, '**proof**' if c.proof else 'bounded: ' + c.bound,
                '%s/%s' % (e.get('discharged', '?'), e.get('obligations', '?')
                           ) if c.proof else '%s cases' % e.get('cases', '?'),
                c.note or ''))
        if assumed:
            out.append('\nAssumed: ' + '; '.join(assumed) + '.')
        out.append('')
    return '\n'.join(out)


def findings():
    out = []
    for ln in open(os.path.join(ROOT, 'known_findings.jsonl')):
        if ln.strip() and not ln.startswith('#'):
            d = json.loads(ln)
            t = d.get('text') or d.get('what')
            out.append('* ' + re.sub(r'^fixed: property=(\S+) (\S+) ',
                                     r'%s `%s` ' % (d['property'],
                                                    d.get('commit')), t))
    return '\n'.join(sorted(out))


def seeded():
    out = ['| bug | property | needs | breaks | caught by |',
           '|---|---|---|---|---|']
    p = os.path.join(ROOT, 'seeded')
    for i in sorted(os.listdir(p)):
        d = json.load(open(os.path.join(p, i, 'meta.json')))
        out.append('| %s | %s | %s | %s | %s |' % (
            i, d['property'], d['needs'], d['what_it_breaks'],
            d.get('caught_by', 'check ' + d['property'])))
    return '\n'.join(out)


def main():
    p = os.path.join(ROOT, 'DESIGN.md')
    s = open(p).read()
    s = put(s, 'TABLES', tables())
    s = put(s, 'FINDINGS', findings())
    s = put(s, 'SEEDED', seeded())
    open(p, 'w').write(s)


if __name__ == '__main__':
    main()
