#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--only entry[/shard] ...] [-v]"""
import argparse, json, os, sys, time, hashlib
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT + '/engine'); sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
import driver, specs

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only', nargs='*'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sp = specs.SPECS[a.prop]
    opts = dict(sp.get('opts', {})); opts.update(sp.get('thorough_opts', {}) if a.tier == 'thorough' else {})
    r = driver.run_check(a.prop, [ROOT + '/harness/' + h for h in sp['harness']], a.tier, seed, opts, a.only)
    known = []
    for l in open(ROOT + '/known_findings.jsonl'):
        l = l.strip()
        if l.startswith('{'):
            k = json.loads(l)
            if k['property'] == a.prop: known.append(k)
    def is_known(entry, shard, fails):
        """every failing check line must be listed"""
        hit = []
        for f in fails:
            fid = f.split()[1] if f.startswith('FAIL ') else f
            m = [k for k in known if k['entry'] == entry and (k.get('shard') is None or shard in k['shard']) and fid in k['checks']]
            if not m: return None
            hit += m
        return hit
    tot = dict(obligations=0, discharged=0, open=0, paths=0, forks=0, instrs=0, queries=0, solver_s=0.0, trivial=0, runs=0, compared=0)
    viols = []; opens = []; errors = []; mism = []; methods = {}; funcs = set(); slow = []; unreached = set(); reached = set(); allids = set(); knownhit = {}
    for t in r['tasks']:
        tot['paths'] += t.get('paths', 0); tot['forks'] += t.get('forks', 0) or 0; tot['instrs'] += t.get('instrs', 0) or 0
        tot['obligations'] += t.get('obligations', 0); tot['trivial'] += t.get('trivial', 0) or 0
        tot['discharged'] += t.get('trivial', 0) or 0
        funcs |= set(t.get('funcs', []))
        if t.get('error'): errors.append('%s/%s: %s' % (t['entry'], t['shard'], t['error']))
        for k, v in t.get('stats', {}).items(): tot[k] = tot.get(k, 0) + v
        v = t.get('validate')
        if v:
            tot['runs'] += v['runs']; tot['compared'] += v['compared']
            mism += ['%s/%s: %s' % (t['entry'], t['shard'], m) for m in v['mismatch']]
            reached |= set((t['entry'], i) for i in v['ids'])
            for ins, f in v['fails']:
                if ins == 'CRASH': viols.append((t, dict(inputs='seed', fails=['FAIL crash'], kind='validation'))); continue
                k = is_known(t['entry'], t['shard'], f)
                if k:
                    for x in k: knownhit[x['id']] = x
                else: viols.append((t, dict(inputs=ins, fails=f, kind='validation run')))
        if t.get('validate_error'): errors.append('%s/%s: validate: %s' % (t['entry'], t['shard'], t['validate_error']))
        done = 0
        for x in t.get('results', []):
            done += 1
            allids.add((t['entry'], x['id']))
            if x['t'] > 3: slow.append((x['t'], t['entry'], t['shard'], x['id'], x['v'], x['d'] if isinstance(x['d'], str) else ''))
            if x['v'] == 'proved':
                tot['discharged'] += 1; methods[x['d']] = methods.get(x['d'], 0) + 1
            elif x['v'] == 'violated':
                k = is_known(t['entry'], t['shard'], x['d']['fails'])
                if k:
                    for y in k: knownhit[y['id']] = y
                    tot['known'] = tot.get('known', 0) + 1
                else: viols.append((t, dict(x['d'], kind='solver')))
            else:
                tot['open'] += 1; opens.append('%s/%s %s path %s: %s' % (t['entry'], t['shard'], x['id'], x['path'], x['d']))
        miss = len(t.get('hard', [])) - done
        if miss > 0: tot['open'] += miss; opens.append('%s/%s: %d obligations not reached (worker ended early)' % (t['entry'], t['shard'], miss))
        for pi, k, cid in t.get('hard', []): allids.add((t['entry'], cid))
        for cid in t.get('triv_ids', {}): allids.add((t['entry'], cid))
    if r['error']: errors.append(r['error'])
    unreached = sorted('%s:%s' % u for u in allids - reached if ':' not in u[1])
    # report
    outdir = ROOT + '/evidence/replay'
    printed = set()
    for k in knownhit.values(): print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    nv = 0
    for t, v in viols:
        key = (t['entry'], t['shard'], tuple(sorted(set(f.split()[1] if f.startswith('FAIL ') else f for f in v['fails']))))
        if key in printed: continue
        printed.add(key); nv += 1
        if nv > 12: continue
        os.makedirs(outdir, exist_ok=True)
        fn = '%s/%s_%s_%s_%d.txt' % (outdir, a.prop, t['entry'], t['shard'], nv)
        with open(fn, 'w') as f:
            f.write('# property %s harness %s entry %s shard %s (%s)\n' % (a.prop, t.get('harness'), t['entry'], t['shard'], v['kind']))
            f.write('# replay: python3-vt %s/replay.py %s\n' % (ROOT, fn))
            for x in v['fails']: f.write('# ' + x + '\n')
            f.write(v['inputs'])
        print('VIOLATION property=%s replay=%s' % (a.prop, fn))
        for x in v['fails'][:3]: print('   ', x[:200])
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level=sp['level'], wall_s=round(r['wall_s'], 2), violations=nv,
              coverage=dict(states=tot['paths'], transitions=tot['forks'] + tot['paths'], traces_validated_against_impl=tot['compared'],
                            samples=[dict(entry=t['entry'], shard=t['shard'], paths=t.get('paths'), obligations=t.get('obligations'), explore_s=round(t.get('explore_s') or 0, 3)) for t in r['tasks'][:6]],
                            rule='states = feasible symbolic paths of the compiled code, transitions = path branches; obligations = checks on paths, each decided for all input values of the path',
                            obligations=tot['obligations'], discharged=tot['discharged'], undischarged=tot['open'], trivially_discharged=tot['trivial'],
                            solver_queries=tot.get('queries', 0), solver_seconds=round(tot.get('solver_s', 0), 2), methods=methods, instructions=tot['instrs'],
                            native_runs=tot['runs'], translator_mismatches=len(mism), checks_without_native_witness=unreached[:40],
                            functions_encoded=len(funcs), functions=[f for f in sorted(funcs) if 'color' in f or 'matrix' in f or 'gamma' in f or 'white' in f][:400],
                            bounds=sp['bounds'], undischarged_samples=opens[:20], errors=errors[:10], build_s=round(r['build_s'], 2)),
              assumptions=sp.get('assumptions', []) + specs.COMMON)
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (ROOT, a.prop), 'w'), indent=1)
    print('%s %s: %d tasks, %d paths, %d obligations, %d discharged (%d trivially), %d open, %d violations, %d queries %.1fs solver, %d/%d native/compared, %.1fs' % (
        a.prop, a.tier, len(r['tasks']), tot['paths'], tot['obligations'], tot['discharged'], tot['trivial'], tot['open'], nv, tot.get('queries', 0), tot.get('solver_s', 0), tot['runs'], tot['compared'], r['wall_s']))
    for e in errors[:20 if a.v else 6]: print('  not encoded:', e[:1500 if a.v else 400])
    for e in mism[:6]: print('  TRANSLATOR MISMATCH:', e[:300])
    for e in opens[:40 if a.v else 5]: print('  open:', e[:400])
    if a.v:
        print('  methods', methods)
        print('  unreached', unreached[:20])
        for s in sorted(slow, reverse=True)[:15]: print('  slow', s)
    if mism: print('  note: translator validation mismatch; proofs of this run are not trusted')
    return 1 if nv else 0

if __name__ == '__main__':
    sys.exit(main())
