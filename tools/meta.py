"""Generates properties.jsonl and MANIFEST.json from the list below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python'
SEM = 'regreg/atoms/seminorms.py'
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, quant, why, files, mech, note, over=('inputs',), observe=(), claim=True):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=quant),
                      why_tests_cant=why,
                      anchors=dict(files=list(files),
                                   mechanism=[dict(name=a, where=b) for a, b in mech],
                                   observe_at=list(observe), hook_needed=None),
                      note=note, claim=claim))


exec(open(os.path.join(V, 'tools', 'props_list.py')).read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
            assert len(q['title']) <= 80, q['title']
            f.write(json.dumps(q) + '\n')
    checks = []
    for p in PROPS:
        if not p['claim']:
            continue
        assert os.path.exists(os.path.join(V, 'props', p['id'] + '.py')), p['id']
        checks.append(dict(property=p['id'],
                           quick_cmd='%s check.py %s quick' % (PYTHON, p['id']),
                           thorough_cmd='%s check.py %s thorough' % (PYTHON, p['id']),
                           technique='symbolic execution of the current source (Python modules and translated '
                                     'Cython/C kernels) to nonlinear real arithmetic path conditions decided by '
                                     'z3, counterexamples replayed on a fresh build of the real code',
                           level='model_checking', level_note=p['note']))
    m = dict(version=1, setup_cmd='%s tools/setup.py' % PYTHON, checks=checks,
             not_applicable=[dict(property=a, reason=b) for a, b in NOT_APPLICABLE])
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


def design():
    """DESIGN.md from DESIGN.in, the property list and seeded/"""
    ns = {}
    exec(open(os.path.join(V, 'tools', 'how.py')).read(), ns)
    rows = []
    for p in PROPS:
        if p['claim']:
            rows.append('| %s | **%s.** %s | %s |' % (p['id'], p['title'], ns['HOW'].get(p['id'], ''),
                                                      p['note'].replace('bounded: ', '').split('; arithmetic is')[0]))
    seeds = []
    d = os.path.join(V, 'seeded')
    caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
    for s in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, s, 'meta.json')))
        seeds.append('| %s | %s | %s (needs: %s) | %s |' % (s, m['property'], m['what_it_breaks'], m['needs'],
                                                            caught.get(s, m['property'])))
    na = ['* %s: %s' % (a, b) for a, b in NOT_APPLICABLE]
    t = open(os.path.join(V, 'tools', 'DESIGN.in')).read()
    t = t.replace('@@ROWS@@', '\n'.join(rows)).replace('@@SEEDS@@', '\n'.join(seeds))
    t = t.replace('@@NA@@', '\n'.join(na) or '(none)')
    open(os.path.join(V, 'DESIGN.md'), 'w').write(t)


if __name__ == '__main__':
    main()
    design()
