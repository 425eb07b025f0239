"""Rewrites the generated part of DESIGN.md (one entry per property, and the planted changes) from tools/table.py, harness/*.py and the last evidence."""
import ast, glob, json, os, re
P = []
exec(open('/verif/tools/table.py').read(), {'prop': lambda *a: P.append(a), 'na': lambda *a: None})
out = []
for a in sorted(P, key=lambda a: a[0]):
    id, title, st, q, why, files = a[:6]
    tree = ast.parse(open('harness/%s.py' % id.lower()).read())
    meta, hs = {}, []
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'META':
            for k, v in zip(n.value.keys, n.value.values):
                try:
                    meta[k.value] = ast.literal_eval(v)
                except ValueError:
                    pass
        if isinstance(n, ast.FunctionDef) and any(isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'harness' for d in n.decorator_list):
            hs.append('`%s`%s' % (n.name, ': ' + ' '.join(ast.get_docstring(n).split()) if ast.get_docstring(n) else ''))
    out.append('### %s %s\n' % (id, title))
    out.append('Code: %s. Encoded and decided in `harness/%s.py`:\n' % (', '.join('`%s`' % f for f in files.split()), id.lower()))
    out += ['* ' + h for h in hs]
    out.append('')
    out.append('Bounds: %s.%s%s' % (meta.get('bounds', ''), ' Outside: %s.' % meta['outside'] if meta.get('outside') else '',
                                   ' Assumed: %s.' % meta['assumptions'] if isinstance(meta.get('assumptions'), str) else ''))
    try:
        e = json.load(open('evidence/%s.json' % id))
        w = e.get('wall_s') or e.get('wall')
        c = e.get('coverage', e)
        txt = [l for l in open('/tmp/costs.txt').read().split('\n') if l.startswith('OK property=%s ' % id)]
        if txt:
            out.append('Cost (quick): ' + re.sub(r'^OK property=\S+ tier=\S+ ', '', txt[-1]) + '.')
    except IOError:
        pass
    out.append('')
gen = '\n'.join(out)
rows = []
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (d.split('/')[1], m['property'], m['needs'].replace('|', '/')))
seeds = '\n'.join(['| planted change | caught by | needs |', '|---|---|---|'] + rows)
s = open('DESIGN.md').read()
for tag, body in (('properties', gen), ('planted', seeds)):
    a, b = '<!-- %s -->' % tag, '<!-- end %s -->' % tag
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + '\n' + body + '\n' + s[j:]
open('DESIGN.md', 'w').write(s)
