"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique=None, note=None,
         level='model_checking', state=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note, level=level,
                  state=list(state), na=na))


exec(open(os.path.join(HOME, 'tools', 'props_data.py')).read())


def main():
    with open(os.path.join(HOME, 'properties.jsonl'), 'w') as fp:
        for p in P:
            fp.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                             mechanism=[dict(name=a, where=b) for a, b in p['mechanism']],
                             observe_at=p['observe'], hook_needed=None))) + '\n')
    checks, na = [], []
    for p in P:
        built = os.path.exists(os.path.join(HOME, 'checks', p['id'].lower() + '.py'))
        if p['na'] or not built:
            na.append(dict(property=p['id'], reason=p['na'] or 'the check for this property is not built yet'))
            continue
        checks.append(dict(property=p['id'], quick_cmd='bin/check %s quick' % p['id'],
                           thorough_cmd='bin/check %s thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'],
                           technique=p['technique'], level=p['level'], level_note=p['note']))
    man = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='No hooks in /repo: everything is observed through public interfaces and product files. '
                     'Specification language: TLA+ (TLC). See DESIGN.md.')
    with open(os.path.join(HOME, 'MANIFEST.json'), 'w') as fp:
        json.dump(man, fp, indent=1)
        fp.write('\n')
    print(len(checks), 'checks,', len(na), 'not applicable')


main()
