"""Single source of properties.jsonl and MANIFEST.json (python3 tools/meta.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = 'wake_t/'
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note,
         state=(), observe='', technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  note=level_note, state=state, observe=observe,
                  technique=technique))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['text']),
                     why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[
                         dict(name=a, where=b) for a, b in p['mech']]))
            if p['state']:
                d['anchors']['state'] = [dict(name=a, meaning=b)
                                         for a, b in p['state']]
            if p['observe']:
                d['anchors']['observe_at'] = p['observe']
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(d) + '\n')
    m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[],
             notes='Every check extracts the functions under contract from '
             'the current working tree of /repo and discharges the '
             'obligations with z3, cvc5 and an exact rational normal form; '
             'run-time contracts replay on the real code.')
    for p in P:
        m['checks'].append(dict(
            property=p['id'], quick_cmd='./check ' + p['id'],
            thorough_cmd='VERIF_TIER=thorough ./check ' + p['id'],
            technique=p['technique'] or
            'contract-based deductive verification: symbolic execution of '
            'the extracted functions, obligations discharged by z3/cvc5/'
            'rational normal form, refutations replayed on the real code',
            level=LEVELS.get(p['id'], 'proof'), level_note=p['note']))
    m['not_applicable'] = NA
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
