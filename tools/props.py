"""Single source of properties.jsonl and MANIFEST.json.

python tools/props.py   rewrites both files.
"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
S = 'src/seismic/'


def prop(id, title, statement, over, text, why, files, mech, built=None,
         level='proof', note='', observe=(), reason='not built yet'):
    P.append(dict(
        row=dict(id=id, title=title, statement=statement,
                 quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=[S + f for f in files], mechanism=[
                     dict(name=n, where=S + w) for n, w in mech],
                     observe_at=list(observe))),
        built=built, level=level, note=note, reason=reason))


PROOF = ('contract-based deductive verification: contracts on the real '
         'source, symbolic execution, obligations discharged by z3/cvc5; '
         'same contracts run concretely for replay')
BOUND = ('run-time contract checking of the real functions on generated '
         'inputs (bounded stand-in, not a proof)')

NOTE = ('Every obligation generated from the current source is discharged '
        'for all array sizes and values, reals for floats; NumPy/SciPy/ObsPy '
        'calls enter through assumed contracts listed in the evidence. ')

exec(open(os.path.join(ROOT, 'tools', 'props_data.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
        for p in P:
            fh.write(json.dumps(p['row']) + '\n')
    man = dict(version=1, setup_cmd='bash ./setup.sh', checks=[],
               not_applicable=[])
    for p in P:
        i = p['row']['id']
        if p['built'] is None:
            man['not_applicable'].append(dict(property=i,
                                              reason=p['reason']))
            continue
        proof = p['level'] == 'proof'
        man['checks'].append(dict(
            property=i, quick_cmd='./check %s quick' % i,
            thorough_cmd='./check %s thorough' % i,
            technique=PROOF if proof else BOUND, level=p['level'],
            level_note=(NOTE if proof else '') + p['note']))
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')
    import jsonschema
    for r in P:
        jsonschema.validate(r['row'], json.load(open(
            '/root/.vp/PROPERTIES.schema.json')))
    jsonschema.validate(man, json.load(open(
        '/root/.vp/MANIFEST.schema.json')))
    print(len(P), 'properties,', len(man['checks']), 'claimed')


if __name__ == '__main__':
    main()
