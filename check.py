#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: runs the static analyses that decide one property.

exit 0  the property held on everything analysed
exit 1  broken; a line "VIOLATION property=<id> replay=<path>" per violation group
exit 2  the analysis itself could not be carried out (no verdict)
"""
import sys, os, json, time, re, traceback, argparse, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(20000)

def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\w+) rule=(\S+) function=(\S+) match=/(.*)/ (.*)$', l)
            if m: out.append(m.groups())
    return out

def call(job):
    import build
    try:
        return job[0], job[1](*job[2])
    except BaseException as e:
        return job[0], {'error': '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())}

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only', help='run only jobs whose name matches this regular expression')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'): a.tier = 'quick'
    t0 = time.time()
    import registry, build
    spec = registry.PROPS[a.prop]
    try:
        jobs = spec['jobs'](a.tier)
    except BaseException as e:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s %s' % (a.prop, str(e)[:300])); return 2
    if a.only: jobs = [j for j in jobs if re.search(a.only, j[0])]
    n = min(8, os.cpu_count() or 1, len(jobs))
    if n > 1:
        ctx = mp.get_context('fork')
        with ctx.Pool(n, maxtasksperchild=1) as pool: results = pool.map(call, jobs, chunksize=1)
    else: results = [call(j) for j in jobs]
    viol = {}; counts = {}; units = {}; errors = []; notes = []
    for name, r in results:
        if 'error' in r: errors.append((name, r['error'])); continue
        units[name] = r.get('counts', {})
        for k, v in r.get('counts', {}).items():
            if isinstance(v, int): counts[k] = counts.get(k, 0) + v
        for f in r.get('functions', ()): notes.append(f)
        for v in r.get('violations', ()):
            if v['prop'] != a.prop and a.prop not in registry.EXTRA.get((v['prop'], v['rule']), ()): continue
            k = (v['rule'], v['function'], v['file'].rsplit('/', 1)[-1])
            g = viol.setdefault(k, {'property': a.prop, 'rule': v['rule'], 'function': v['function'], 'file': v['file'], 'line': v['line'],
                                    'message': v['message'], 'trace': v.get('trace', []), 'unit': name, 'instances': 0, 'units': []})
            g['instances'] += 1
            if name not in g['units']: g['units'].append(name)
    known = known_findings(); alarms = []; found = []
    for k, g in sorted(viol.items()):
        hit = next((f for f in known if f[0] == a.prop and f[1] == g['rule'] and f[2] in ('*', re.sub(r'\s', '', g['function'])) and re.search(f[3], g['message'])), None)
        (found if hit else alarms).append((g, hit))
    ev = {'property': a.prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': spec.get('level', 'other'),
          'coverage': dict(counts, explanation=spec['explain'], rules=spec.get('rules', []), units=units, functions_analysed=len(set(notes)), functions=sorted(set(notes))[:400]),
          'assumptions': spec.get('assumes', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(alarms)}
    und = [(n, x) for n, r in results for x in r.get('undecided', ())]
    if und: ev['coverage']['undecided'] = und[:200]; ev['coverage']['undecided_count'] = len(und)
    if errors: ev['coverage']['errors'] = [(n, e[:2000]) for n, e in errors]
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, sort_keys=True)
    for g, hit in found:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, hit[4]))
    for n, (g, _) in enumerate(alarms):
        p = 'evidence/replay/%s-%d.json' % (a.prop, n)
        with open(os.path.join(HERE, p), 'w') as f: json.dump(g, f, indent=1)
        print('%s:%s: in %s: [%s/%s] %s (%d instance(s); units: %s)' % (g['file'], g['line'], g['function'], a.prop, g['rule'], g['message'], g['instances'], ', '.join(g['units'][:4])))
        print('VIOLATION property=%s replay=%s' % (a.prop, p))
    if alarms: return 1
    if errors:
        for n, e in errors: print('ANALYSIS-ERROR property=%s unit=%s %s' % (a.prop, n, e if a.v else e[-600:]))
        return 2
    tot = ', '.join('%s=%s' % kv for kv in sorted(counts.items()))
    if sum(counts.values()) == 0:
        print('ANALYSIS-ERROR property=%s nothing was analysed' % a.prop); return 2
    low = [(k, m) for k, m in spec.get('minimum', {}).items() if counts.get(k, 0) < m] if not a.only else []
    if low:
        print('ANALYSIS-ERROR property=%s fewer instances than confirmed by hand: %s' % (a.prop, low)); return 2
    for n, x in und[:20]: print('undecided: unit=%s %s' % (n, x[:300]))
    print('OK property=%s tier=%s units=%d %s wall=%.1fs' % (a.prop, a.tier, len(units), tot, time.time() - t0))
    return 0

if __name__ == '__main__': sys.exit(main())
