#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))

def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, technique='', note='', level='exploration'):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state or [],
                observe=observe or '', technique=technique, note=note, level=level)

CLIP = 'include/poly_ops/clip.hpp'
P = []
DESIGN = {}
exec(open(os.path.join(V, 'properties_src.py')).read())

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['state']:
                a['state'] = [{'name': n, 'meaning': m} for n, m in p['state']]
            if p['observe']:
                a['observe_at'] = p['observe'] if isinstance(p['observe'], list) else [p['observe']]
            a['hook_needed'] = None
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 -c "import json; json.load(open(\'MANIFEST.json\')); json.load(open(\'known_findings.json\'))"',
         'hooks': {'guard': 'POLY_OPS_ASSERT', 'enable': 'No hooks were added: the monitors use public extension points (the point tracker interface, user-supplied coordinate types and memory resources, and the existing POLY_OPS_ASSERT macro), defined before the headers are included.', 'source_commits': []},
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                     'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']} for p in P],
         'not_applicable': [],
         'notes': 'DESIGN.md explains the oracles; known_findings.json lists the defects that were repaired.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')

def design():
    d = open(os.path.join(V, 'DESIGN.md')).read()
    import re
    body = '\n\n'.join('### %s %s\n\n%s' % (p['id'], p['title'], DESIGN[p['id']].strip()) for p in P)
    if '@@PROPS@@' in d:
        d = d.replace('@@PROPS@@', '<!-- props -->\n@@\n<!-- /props -->')
    d = re.sub(r'<!-- props -->.*<!-- /props -->', lambda m: '<!-- props -->\n' + body + '\n<!-- /props -->', d, flags=re.S)
    open(os.path.join(V, 'DESIGN.md'), 'w').write(d)


if __name__ == '__main__':
    main()
    design()
