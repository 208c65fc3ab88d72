# merge.py PROPERTY PART...: one evidence file from those of the parts
import json, os, sys
prop, parts = sys.argv[1], sys.argv[2:]
d = os.path.join(os.environ.get('VERIF_DIR', '/verif'), 'evidence')
out = None
for p in parts:
    f = f'{d}/{prop}.part.{p}.json'
    e = json.load(open(f)); os.remove(f)
    c = e['coverage']
    if out is None:
        out = e; oc = c
        continue
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        oc[k] += c.pop(k)
    oc['exhaustive'] = oc['exhaustive'] and c.pop('exhaustive')
    oc['samples'] += c.pop('samples')
    for k, v in c.items():
        oc[k if k not in oc else f'{p} {k}'] = v
    out['assumptions'] = out.get('assumptions', []) + e.get('assumptions', [])
    out['wall_s'] += e['wall_s']; out['violations'] += e['violations']
json.dump(out, open(f'{d}/{prop}.json', 'w'), ensure_ascii=False)
