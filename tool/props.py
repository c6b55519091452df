"""Single source of the property list: writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, technique, design, note='', observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, design=design, note=note, observe=observe))
def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, na=reason))

# the list itself lives in props_*.py files next to this one
import glob
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_*.py'))): exec(compile(open(f).read(), f, 'exec'))

TRUST = 'Trusts clang 18 (front end, mem2reg/inlining of static helpers), the analysis code in /verif/tool, and, unless stated otherwise, that allocation succeeds and sizes do not wrap.'

def main():
    P.sort(key=lambda p: p['id'])
    ids = [p['id'] for p in P]; assert len(ids) == len(set(ids)), 'duplicate ids'
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id'] + ' title'
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p.get('observe'): a['observe_at'] = p['observe']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 tool/setup.py',
           'checks': [{'property': p['id'], 'quick_cmd': 'python3 tool/run.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 tool/run.py %s --tier thorough' % p['id'],
                       'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': (p['note'] + ' ' if p['note'] else '') + TRUST} for p in P if 'na' not in p],
           'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if 'na' in p],
           'notes': 'All checks analyse the LLVM IR / DWARF of the current /repo sources compiled in memory of the run; nothing is executed. See DESIGN.md.'}
    json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    head = open(os.path.join(ROOT, 'tool', 'design_head.md')).read()
    tail = open(os.path.join(ROOT, 'tool', 'design_tail.md')).read()
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write(head + '\n## Properties decided statically\n\n')
        for p in P:
            if 'na' in p: continue
            f.write('### %s %s\n\n%s\n\n*Decided by* %s. %s\n\n%s*Why tests cannot:* %s\n\n' % (p['id'], p['title'], p['statement'], p['technique'], p['design'], ('*Assumes/limits:* %s\n\n' % p['note']) if p['note'] else '', p['why']))
        f.write('## Properties listed but not claimed\n\n')
        for p in P:
            if 'na' in p: f.write('- **%s %s** — %s\n' % (p['id'], p['title'], p['na']))
        f.write('\n' + tail)
    print('%d properties, %d claimed' % (len(P), sum('na' not in p for p in P)))
if __name__ == '__main__': main()
