"""check.py's engine: build, explore, discharge, replay, report."""
import os, sys, json, time, random, signal, subprocess, hashlib, resource, shutil, tempfile, traceback, math, struct
import multiprocessing as mp
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/engine')
import build, ll, execir, dag
from dag import is_node, fbits, bitsf

UB = ('oob', 'null', 'uaf', 'badfree', 'wild', 'trap', 'unreachable', 'terminate', 'divzero', 'badcall', 'stack')

def enc(name, ty, v):
    if ty[0] == 'f': return '%s %08x' % (name, fbits('f32', v))
    if v >> 31 and v > 0 and v < 1 << 32 and ty == 'i32': v -= 1 << 32
    return '%s %d' % (name, v)

def inputs_text(st, env):
    return '\n'.join(enc(n, ty, env[n]) for n, ty, _ in st.inputs) + '\n'

HARD = resource.getrlimit(resource.RLIMIT_AS)[1]
def limit(gb): resource.setrlimit(resource.RLIMIT_AS, (gb << 30, HARD))
def unlimit(): resource.setrlimit(resource.RLIMIT_AS, (HARD, HARD))     # sanitizers reserve address space

class Native:
    def __init__(self, work, prog, entry, shard, san=None, tag=''):
        self.work = work; self.prog = prog; self.entry = entry; self.shard = shard; self.san = san; self.k = 0; self.tag = tag
    def run(self, text, prog=None, timeout=60):
        self.k += 1
        fn = '%s/in_%s_%d_%d_%d.txt' % (self.work, self.entry, self.shard, os.getpid(), self.k)
        open(fn, 'w').write(text)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')
        try:
            p = subprocess.run([prog or self.prog, 'h_' + self.entry, str(self.shard), fn], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, preexec_fn=unlimit)
            out = p.stdout.decode('latin1'); rc = p.returncode
        except subprocess.TimeoutExpired: out = 'TIMEOUT'; rc = -99
        os.unlink(fn)
        return rc, out

def split_cases(out):
    cs = out.split('CASE ')
    res = []
    for c in cs[1:]:
        i, _, rest = c.partition('\n')
        res.append(rest)
    return res

def fails_of(out):
    f = [l for l in out.splitlines() if l.startswith('FAIL ')]
    if 'CRASH signal' in out: f.append('FAIL crash ' + out[out.index('CRASH'):].split('\n')[0])
    return f

class Task:
    """runs in a forked child: one entry x shard"""
    def __init__(self, ctx, entry, shard):
        self.ctx = ctx; self.entry = entry; self.shard = shard

def explore(ctx, entry, shard):
    e = execir.Engine(ctx['mod'], max_steps=ctx['max_steps'], max_paths=ctx['max_paths'])
    e.base = ctx['engine'].base
    e.gid = ctx['engine'].gid; e.gname = ctx['engine'].gname
    e.deadline = min(ctx['deadline'], time.time() + ctx['explore_s'])
    s = ctx['base'].fork(); s.frames = []
    t = time.time()
    e.release = True
    res = e.run(s, '@h_' + entry, [shard])
    return e, res, time.time() - t

def obligations(res):
    obs = []
    for pi, (st, outcome, det) in enumerate(res):
        for k, cid, a, plen in st.checks: obs.append((pi, k, cid, a, plen))
        if outcome != 'ok': obs.append((pi, 'outcome', outcome + ':' + str(det), (), len(st.pc)))
    return obs

def replayer(ctx, nat, st):
    import dag
    rs = random.Random(ctx['seed'])
    def go(env, jitter=True, ub=False, uninit=False):
        txt = inputs_text(st, env)
        if ub:
            san = ctx['san']()
            rc, out = nat.run(txt, san)
            if rc not in (0, 3, 4, 99) and 'failed to allocate' not in out and ('Sanitizer' in out or 'runtime error' in out or fails_of(out) or rc < 0):
                return dict(inputs=txt, fails=(fails_of(out) or [l for l in out.splitlines() if 'ERROR' in l or 'runtime error' in l][:2] or ['crash rc=%d' % rc]), san=True)
            return None
        rc, out = nat.run(txt)
        f = fails_of(out)
        if rc < 0 and not f and rc != -99: f = ['FAIL crash signal %d' % -rc]
        if rc == -99: f = ['FAIL does-not-terminate (60 s)']
        if f: return dict(inputs=txt, fails=f)
        if not jitter: return None
        # concretisation: the relaxed model sits on a rounding boundary; look at neighbouring floats/values
        recs = []
        for k in range(160):
            e2 = {}
            for n, ty, x in st.inputs:
                v = env[n]
                if is_node(x) and rs.random() < 0.7:
                    info = x.attr[1]
                    if ty[0] == 'f' and math.isfinite(v):
                        m = rs.random()
                        if m < 0.4: v = v * (1 + rs.choice((-1, 1)) * 2.0**-rs.randint(1, 23))
                        elif m < 0.7: v = v + rs.choice((-1, 1)) * 10.0**-rs.randint(1, 7)
                        elif m < 0.8 and info: v = rs.choice(info[:2])
                        v = dag.r32(v)
                        if info is not None: v = min(max(v, info[0]), info[1])
                        if v == 0: v = 0.0
                    elif ty[0] != 'f':
                        v = v + rs.randint(-2, 2)
                        if info is not None: v = min(max(v, info[0]), info[1])
                e2[n] = v
            recs.append(inputs_text(st, e2))
        rc, out = nat.run('---\n'.join(recs), timeout=120)
        for i, c in enumerate(split_cases(out)):
            if 'ASSUME-FALSE' in c or 'MISSING' in c: continue
            f = fails_of(c)
            if f: return dict(inputs=recs[i], fails=f)
        return None
    return go

def work_chunk(ctx, entry, shard, res, obs, outfile, sem):
    """discharge a list of obligations, streaming results"""
    import z3, decide
    limit(8)
    nat = Native(ctx['work'], ctx['native'], entry, shard)
    stats = {}
    B = decide.Budget(ctx['tier'], ctx['deadline'])
    f = open(outfile, 'w')
    viol = {}; inf = {}
    cnt = {}
    for oi, ob in obs: cnt[ob[0]] = cnt.get(ob[0], 0) + 1
    for oi, (pi, k, cid, a, plen) in obs:
        st, outcome, det = res[pi]
        t0 = time.time()
        rep = replayer(ctx, nat, st)
        try:
            # a path the solver shows infeasible settles all its obligations
            if pi not in inf and cnt[pi] > 2 and plen and k != 'outcome' and B.left() > 1:
                inf[pi] = plen if decide.infeasible(st, plen, stats) else None
            if inf.get(pi) is not None and plen >= inf[pi]: v, d = 'proved', 'path infeasible (real relaxation)'
            elif viol.get(cid, 0) >= 2: v, d = 'open', 'already violated'
            elif B.left() < 1: v, d = 'open', 'out of time'
            elif k == 'outcome':
                # every input of the path ends abnormally
                ub = outcome in UB
                r2 = (lambda env, jitter=True: rep(env, jitter, ub=ub))
                if outcome == 'infeasible': v, d = 'proved', 'infeasible'
                else:
                    v, d = decide.decide(st, 'feasible', cid, (), plen, B, stats, r2)
                    if v == 'proved': d = 'path infeasible: ' + d
            else: v, d = decide.decide(st, k, cid, a, plen, B, stats, rep)
        except MemoryError: v, d = 'open', 'memory'
        except Exception as ex:
            v, d = 'open', 'error: %s' % (traceback.format_exc().strip().splitlines()[-1][:150] + ' @ ' + traceback.format_exc().strip().splitlines()[-3].strip()[-80:])
        if v == 'violated': viol[cid] = viol.get(cid, 0) + 1
        f.write(json.dumps(dict(o=oi, path=pi, kind=k, id=cid, v=v, d=d, t=round(time.time() - t0, 3), entry=entry, shard=shard)) + '\n'); f.flush()
    f.write(json.dumps(dict(stats=stats)) + '\n')
    f.close()

def validate(ctx, entry, shard, res, nat, nseeds):
    """translator validation + reachability: native runs vs the symbolic paths evaluated on the same inputs"""
    recs = ['seed %d\n' % (ctx['seed'] * 1000 + i) for i in range(nseeds)]
    rc, out = nat.run('---\n'.join(recs) + '---\nseed 77\n', timeout=120)
    info = dict(runs=0, compared=0, mismatch=[], ids=set(), nomatch=0, fails=[])
    for c in split_cases(out):
        if 'ASSUME-FALSE' in c or 'MISSING' in c or 'DONE' not in c:
            if 'CRASH' in c: info['fails'].append(('CRASH', c[:400]))
            continue
        info['runs'] += 1
        env = {}; outs = []; checks = []
        ins = []
        for l in c.splitlines():
            p = l.split()
            if not p: continue
            if p[0] == 'IN': env[p[1]] = p[2]; ins.append(p[1] + ' ' + p[2])
            elif p[0] == 'OUT': outs.append((p[1], int(p[2], 16)))
            elif p[0] in ('PASS', 'FAIL'): checks.append((p[1], p[0]))
        for i, v in checks: info['ids'].add(i)
        if any(v == 'FAIL' for _, v in checks): info['fails'].append(('\n'.join(ins) + '\n', [l for l in c.splitlines() if l.startswith('FAIL')]))
        if info['compared'] >= ctx['ncompare'] or res is None: continue
        # match against the symbolic paths
        hit = None
        for st, outcome, det in res:
            e = {}
            ok = True
            for n, ty, x in st.inputs:
                if n not in env: ok = False; break
                v = bitsf('f32', int(env[n], 16)) if ty[0] == 'f' else int(env[n])
                if is_node(x): e[n] = v
                elif x != v: ok = False; break
            if not ok or len(st.inputs) != len(env): continue
            vals = dag.evaluate([c for c, _ in st.pc], e)
            if all(bool(v) == bool(w) for v, (_, w) in zip(vals, st.pc)): hit = (st, outcome, det, e); break
        info['compared'] += 1
        if hit is None: info['nomatch'] += 1; info['mismatch'].append('no symbolic path for ' + '; '.join(ins)[:300]); continue
        st, outcome, det, e = hit
        if outcome != 'ok': continue
        vals = dag.evaluate([v for _, v in st.outs], e)
        got = [(i, fbits('f32', v) if isinstance(v, float) else v) for (i, _), v in zip(st.outs, vals)]
        for (i, g), (j, w) in zip(got, outs):
            if g != w and not (g & 0x7fffffff > 0x7f800000 and w & 0x7fffffff > 0x7f800000) and not ({g, w} == {0, 0x80000000}):
                info['mismatch'].append('OUT %s engine %08x native %08x for %s' % (i, g, w, '; '.join(ins)[:300])); break
        if [c[1] for c in st.checks] != [c[0] for c in checks]: info['mismatch'].append('check sequence differs for ' + '; '.join(ins)[:300])
    info['ids'] = sorted(info['ids'])
    return info

def child_main(ctx, entry, shard, outbase, sem):
    """explore once, then fork workers over the obligations"""
    rec = dict(entry=entry, shard=shard, error=None, paths=0, obligations=0, explore_s=0, validate=None)
    nat = Native(ctx['work'], ctx['native'], entry, shard)
    res = None
    pids = []
    with sem:
        try:
            limit(10)
            e, res, rec['explore_s'] = explore(ctx, entry, shard)
            rec['paths'] = len(res); rec['forks'] = e.stat['forks']; rec['pruned'] = e.stat['pruned']
            rec['instrs'] = e.stat['instrs'] + getattr(e, 'total', 0)
            rec['funcs'] = sorted(f for f in e.stat['funcs'])
            rec['flags'] = sorted(set(x for st, _, _ in res for x in st.flags))[:5]
            rec['outcomes'] = {}
            for _, o, d in res: rec['outcomes'][o] = rec['outcomes'].get(o, 0) + 1
            obs = list(enumerate(obligations(res)))
            rec['obligations'] = len(obs)
        except execir.Unsupported as ex: rec['error'] = 'unsupported: ' + str(ex)[:300]
        except (MemoryError, RecursionError) as ex: rec['error'] = 'exploration: ' + repr(ex)[:200]
        except Exception as ex:
            rec['error'] = 'exploration: ' + ' | '.join(traceback.format_exc().strip().splitlines()[-3:])[:400]
        try: rec['validate'] = validate(ctx, entry, shard, res, nat, ctx['nseeds'])
        except Exception as ex: rec['validate_error'] = traceback.format_exc()[-400:]
    if res is not None:
        # cheap pass first: interval/structural verdicts, duplicates
        import decide
        hard = []; triv = 0; dup = {}
        with open(outbase + '.triv', 'w') as f:
            with sem:
                for oi, ob in obs:
                    pi, k, cid, a, plen = ob
                    st = res[pi][0]
                    v = None
                    if k != 'outcome':
                        try: v = decide.trivial(st, k, a, st.iv)
                        except Exception: v = None
                        if v is True: triv += 1; rec.setdefault('triv_ids', {}); rec['triv_ids'][cid] = rec['triv_ids'].get(cid, 0) + 1; continue
                    key = (k, cid, tuple(x.id if is_node(x) else repr(x) for x in a), tuple((c.id, w) for c, w in st.pc[:plen]), k == 'outcome' and pi)
                    if key in dup: triv += 1; continue
                    dup[key] = 1
                    hard.append((oi, ob))
        rec['trivial'] = triv
        n = max(1, min(ctx['maxfork'], (len(hard) + ctx['chunk'] - 1) // ctx['chunk']))
        rec['chunks'] = n if hard else 0
        rec['hard'] = [(pi, k, cid) for oi, (pi, k, cid, a, plen) in hard]
        json.dump(rec, open(outbase + '.json', 'w'))
        if hard:
            for i in range(n):
                pid = os.fork()
                if pid == 0:
                    try:
                        with sem: work_chunk(ctx, entry, shard, res, hard[i::n], '%s.%d' % (outbase, i), sem)
                    except BaseException: traceback.print_exc()
                    finally: os._exit(0)
                pids.append(pid)
            for p in pids: os.waitpid(p, 0)
    else: json.dump(rec, open(outbase + '.json', 'w'))
    os._exit(0)

def warm_up(eng, mod, base):
    """concrete history before every entry (harness/warm.h); a step that does not complete normally is dropped"""
    import re
    m = re.search(r'global i32 (-?\d+)', mod.globals.get('@n_warm') or '')
    for k in range(int(m.group(1)) if m else 0):
        s = base.fork(); s.frames = []
        try: res = eng.run(s, '@warm', [k])
        except execir.Unsupported: continue
        if len(res) == 1 and res[0][1] == 'ok': base = res[0][0]; base.frames = []
    return base

def run_check(prop, harnesses, tier, seed, opts=None, only=None, verbose=False):
    """-> result dict"""
    opts = opts or {}
    t0 = time.time()
    budget = opts.get('budget', 240 if tier == 'quick' else 3000)
    work = tempfile.mkdtemp(prefix='cm_%s_' % prop, dir=os.environ.get('CM_TMP', '/tmp'))
    result = dict(tasks=[], build_s=0, error=None)
    try:
        allrecs = []; alldone = []; 
        for h in harnesses:
            w = work + '/' + os.path.basename(h).replace('.cpp', '')
            tb = time.time()
            b = build.build(w, h)
            result['build_s'] += time.time() - tb
            mod = ll.Module(b['ll'])
            eng = execir.Engine(mod)
            base = warm_up(eng, mod, eng.run_globals())
            sanlock = w + '/san.lock'
            def san(w=w, h=h, sanlock=sanlock):
                import fcntl
                with open(sanlock, 'w') as lk:
                    fcntl.flock(lk, fcntl.LOCK_EX)
                    if not os.path.exists(w + '/native_san'): build.build(w, h, sym=False, native=False, san=True)
                return w + '/native_san'
            ctx = dict(work=w, native=b['native'], mod=mod, engine=eng, base=base, tier=tier, seed=seed, deadline=t0 + budget, max_steps=opts.get('max_steps', 30000000),
                       max_paths=opts.get('max_paths', 20000), explore_s=opts.get('explore_s', budget / 2), nseeds=opts.get('nseeds', 24), ncompare=opts.get('ncompare', 6),
                       chunk=opts.get('chunk', 12), maxfork=opts.get('maxfork', 16), san=san)
            sem = mp.get_context('fork').Semaphore(opts.get('cpus', os.cpu_count() or 4))
            entries = []
            for n in mod.funcs:
                if not n.startswith('@h_'): continue
                name = n[3:]
                g = mod.globals.get('@n_' + name)
                if g is None: continue
                import re
                m = re.search(r'global i32 (-?\d+)', g)
                cnt = int(m.group(1)) if m else 1
                if 'thorough' in name and tier == 'quick': continue
                for s in range(cnt):
                    if only and not any(o == name or o == '%s/%d' % (name, s) for o in only): continue
                    entries.append((name, s))
            entries.sort()
            live = {}
            todo = list(entries)
            bases = []
            while todo or live:
                while todo and len(live) < 24:
                    en, s = todo.pop(0)
                    ob = '%s/r_%s_%d' % (w, en, s)
                    bases.append((en, s, ob))
                    pid = os.fork()
                    if pid == 0:
                        try: child_main(ctx, en, s, ob, sem)
                        except BaseException: traceback.print_exc()
                        os._exit(1)
                    live[pid] = time.time()
                try: pid, stt = os.waitpid(-1, os.WNOHANG)
                except ChildProcessError: live.clear(); break
                if pid: live.pop(pid, None)
                else:
                    time.sleep(0.02)
                    if time.time() > ctx['deadline'] + 60:
                        for p in live:
                            subprocess.run(['pkill', '-9', '-P', str(p)]); 
                            try: os.kill(p, 9)
                            except OSError: pass
            for en, s, ob in bases:
                if not os.path.exists(ob + '.json'):
                    result['tasks'].append(dict(entry=en, shard=s, error='worker died', paths=0, obligations=0)); continue
                rec = json.load(open(ob + '.json'))
                rec['harness'] = os.path.basename(h)
                rec['results'] = []; rec['stats'] = {}
                for i in range(rec.get('chunks', 0)):
                    fn = '%s.%d' % (ob, i)
                    if not os.path.exists(fn): continue
                    for l in open(fn):
                        try: d = json.loads(l)
                        except ValueError: continue
                        if 'stats' in d:
                            for k, v in d['stats'].items(): rec['stats'][k] = rec['stats'].get(k, 0) + v
                        else: rec['results'].append(d)
                result['tasks'].append(rec)
    except build.BuildError as ex:
        result['error'] = 'build: ' + str(ex)[-1500:]
    finally:
        if not os.environ.get('CM_KEEP'): shutil.rmtree(work, ignore_errors=True)
    result['wall_s'] = time.time() - t0
    return result
