#!/usr/bin/env python3
"""The one list of properties. `python3 tools/props.py` regenerates properties.jsonl, MANIFEST.json and
DESIGN.md (docs/design_head.md + one section per property + docs/design_tail.md)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, q, why, files, mech, observe, tech, design, trust, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, q=' '.join(q.split()), why=' '.join(why.split()), files=files, mech=mech,
                  observe=observe, tech=tech, design=' '.join(design.split()), trust=' '.join(trust.split()), hook=hook))


exec(open(os.path.join(HERE, 'tools', 'proplist.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['q']),
                                    why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                                                                         observe_at=p['observe'], hook_needed=p['hook']))) + '\n')
    claimed = [p for p in P if os.path.exists(os.path.join(HERE, 'vt', 'checks', p['id'].lower() + '.py'))]
    man = dict(version=1, setup_cmd="python3 check.py --setup",
               hooks=dict(guard="none", enable="no hooks are committed to /repo: the monitors wrap public functions and read public accessors at run time", source_commits=[]),
               checks=[dict(property=p['id'], quick_cmd="python3 check.py %s --tier quick" % p['id'], thorough_cmd="python3 check.py %s --tier thorough" % p['id'],
                            evidence_file="evidence/%s.json" % p['id'], technique=p['tech'], level="exploration", level_note=p['trust']) for p in claimed],
               not_applicable=NOT_APPLICABLE, notes="pure-Python project: see DESIGN.md for why compiler sanitizers and race detectors have nothing to act on")
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    out = [open(os.path.join(HERE, 'docs', 'design_head.md')).read().rstrip(), '']
    for p in P:
        out += ['### %s — %s' % (p['id'], p['title']), '', p['statement'], '', '*How it is decided.* ' + p['design'], '', '*Trusted / bounds.* ' + p['trust'], '']
    out.append(open(os.path.join(HERE, 'docs', 'design_tail.md')).read())
    kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
    fixed = [x.split(' ', 3)[1:] for x in kf['fixed']]
    out += ['## Defects found and repaired', '', 'Each was reported by a check on the tree of that time and is repaired by one `fix:` commit in /repo.', '', '| property | commit | what failed |', '|---|---|---|']
    out += ['| %s | %s | %s |' % (a.replace('property=', ''), b, c.replace('|', '\\|')) for a, b, c in fixed]
    out += ['', '## Planted changes', '', 'In `seeded/`; each is caught by the quick check of its own property, with the mechanism shown (`python3 tools/seeded.py`).', '', '| change | needs | reported as |', '|---|---|---|']
    caught = json.load(open(os.path.join(HERE, 'docs', 'caught.json')))
    for k in sorted(caught):
        m = json.load(open(os.path.join(HERE, 'seeded', k, 'meta.json')))
        out.append('| %s | %s | %s |' % (k, ' '.join(m['needs'].split()).replace('|', '\\|'), '`%s`' % caught[k] if caught[k] else 'MISSED'))
    out.append('')
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
    print(len(P), 'properties,', len(claimed), 'claimed')


main()
