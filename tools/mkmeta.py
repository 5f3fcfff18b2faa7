#!/usr/bin/env python3
""" writes properties.jsonl and MANIFEST.json from the table below """
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m) for n, m in state], observe_at=[observe], hook_needed=None)))


L, G, PT, PG, H = 'geometry/SR_line.py', 'geometry/SR_polygon.py', 'geometry/SR_point.py', 'geometry/SR_polygon_group.py', 'SR_Vessel/SR_hauptteile.py'
exec(open(os.path.join(HERE, 'tools', 'properties.py')).read())

ASSUME = ('TLC checks the laws of the specification exhaustively on small lattices and judges every recorded session of the real code; '
          'coverage of the real code is by generated behaviours (TLC) and seeded sessions, so bounded. Trusted: TLC, the conversion of '
          'lattice integers to floats in harness/common.py, PyPy.')


def main():
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    for p in P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    import sys
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    from checks import CHECKS
    checks = []
    for p in P:
        i = p['id']
        if i not in CHECKS:
            print('no check for', i)
            continue
        c = CHECKS[i]
        mods = sorted({m['module'] for m in c.get('mc', {}).get('quick', [])} | {g['module'] for g in c.get('gen', {}).get('quick', [])} | {c['trace']})
        checks.append(dict(property=i, quick_cmd='python3 vrun.py %s --tier quick' % i, thorough_cmd='python3 vrun.py %s --tier thorough' % i,
                           technique='TLA+ specification (%s): TLC model checking, TLC-generated behaviours replayed in the code, trace validation by TLC' % ', '.join(mods),
                           level='model_checking', level_note=ASSUME))
    json.dump(dict(version=1, setup_cmd='python3 vrun.py --setup', checks=checks,
                   not_applicable=[dict(property=i, reason=r) for i, r in NOT_APPLICABLE],
                   notes='No hooks: the code is observed through its own objects. See DESIGN.md.'),
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    extra = set(CHECKS) - set(ids)
    if extra:
        print('checks without property', extra)


NOT_APPLICABLE = []
main()
