import json, subprocess, sys
def norm(v, ordered=False):
    if isinstance(v, dict):
        return {k: norm(x, k == '@list') for k, x in v.items()}
    if isinstance(v, list):
        l = [norm(x) for x in v]
        return l if ordered else sorted(l, key=lambda x: json.dumps(x, sort_keys=True))
    return v
bad = 0
for c in json.load(open(sys.argv[2])):
    p = subprocess.run([sys.argv[1]], input=json.dumps(c), capture_output=True, text=True, timeout=60)
    try:
        got = json.loads(p.stdout)
    except ValueError:
        got = {'crash': p.stderr[-300:]}
    want = c['want']
    ok = (got == want) if c.get('exact') else norm(got) == norm(want)
    if not ok:
        bad = 1
        print('want', json.dumps(want), '\ngot ', json.dumps(got))
sys.exit(bad)
