#!/opt/venv/bin/python
"""Write DESIGN.md from its parts (not run by any check)."""
import glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import props  # noqa: E402


def read(name):
    with open(os.path.join(ROOT, name)) as f:
        return f.read()


oracles = json.loads(read('docs/oracles.json'))
out = [read('docs/design_head.md')]
out.append('\n## 4. The properties\n\nNumbers: quick tier on the unchanged tree '
           '(executions of the real code, distinct outcomes; seconds on 8 '
           'cores).\n')
for p in props.PROPS:
    i = p['id']
    e = json.loads(read('evidence/%s.json' % i))
    out.append('\n### %s %s\n' % (i, p['title']))
    out.append('*Enumerated:* %s.' % p['text'].rstrip('.'))
    out.append('*Oracle:* %s' % oracles[i])
    out.append('*Method:* %s. %s' % (p['technique'], p['note']))
    out.append('*Beyond the tests:* %s.' % p['why'].rstrip('.'))
    hs = ['%s %d (%d)%s' % (
        h['harness'], h['executions'], h['distinct_outcomes'],
        '' if h['deviation_bound'] is None
        else ' [deviations <= %d]' % h['deviation_bound'])
        for h in e['coverage']['harnesses']]
    out.append('*Covered:* %s; %.0f s.' % (', '.join(hs), e['wall_s'] + .5))
    if e['assumptions']:
        out.append('*Assumed:* %s.' % '; '.join(e['assumptions']))
out.append(read('docs/design_tail.md'))
out.append('| bug | check | needs |\n|---|---|---|')
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    out.append('| %s | %s | %s |' % (
        os.path.basename(os.path.dirname(f)), m['property'],
        ' '.join(m['needs'].split()).replace('|', '\\|')))
text = '\n'.join(out).replace('\n*', '\n\n*') + '\n'
text = text.replace('\n\n\n*', '\n\n*')
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write(text)
