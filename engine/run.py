"""The check of one property: python3-vt -m engine.run C11 [--tier quick|thorough]"""
import os, sys, json, time, signal, random, importlib, pkgutil, multiprocessing as mp, traceback, re
from . import program, model, contract as C, prover, terms as tm

VERIF = program.VERIF
TRUST = ['clang 18 AST of the sources compiled with the flags of /opt/vp/shim (extractor: engine/extractor/extract.cpp)',
         'the symbolic semantics of the C++ subset in engine/exec.py and of the C++ library in engine/stdlib.py (cross-checked against the compiled code on sampled inputs)',
         'Z3 4.x (QF_NRA), cvc5, and the polynomial normal form of engine/terms.py']
ASSUME = ['float arithmetic is treated as exact real arithmetic; results are compared with tolerance 1e-4 (except the range obligations of C01, decided in IEEE arithmetic)',
          '32- and 64-bit integers do not overflow; narrowing conversions are exact where the value fits, otherwise any congruent value',
          'arguments are non-null and, unless the contract or the code (by comparing their addresses) says so, do not alias each other; a color that a conversion needs the RGB color space of has one']
LEMMAS = []     # (name, props, fn(ctx) -> obligations)


def lemma(name, *props, **k):
    def deco(fn):
        LEMMAS.append(dict(name=name, props=props, fn=fn, **k))
        return fn
    return deco


def load_specs():
    import engine.specs as S
    for m in sorted(pkgutil.iter_modules(S.__path__), key=lambda m: m.name):
        importlib.import_module('engine.specs.' + m.name)


class Ctx:
    pass


CTX = Ctx()


def units_of(prop, prog, by):
    us = []
    for k, ct in by.items():
        if prop not in ct.props and not (prop == 'C16' and ct.frames): continue
        try:
            n = len(ct.instances(prog))
        except Exception as e:
            us.append(('broken', k, repr(e)))
            continue
        us += [('contract', k, i) for i in range(n)]
    for i, l in enumerate(LEMMAS):
        if prop in l['props']: us.append(('lemma', i, 0))
    return us


class Alarm(Exception):
    pass


def on_alarm(*a): raise TimeoutError('time limit')


def driver():
    if getattr(CTX, 'drv', None) is None:
        from . import replay
        if getattr(CTX, 'nodrv', None): raise program.ToolError(CTX.nodrv)
        CTX.drv = replay.Driver(CTX.prog, CTX.by)
    return CTX.drv


def pool_init():
    signal.signal(signal.SIGALRM, on_alarm)
    CTX.drv = None


def timed(secs, fn, *a):
    signal.setitimer(signal.ITIMER_REAL, secs, 2)
    try:
        return fn(*a)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(conn):
    pool_init()
    while True:
        u = conn.recv()
        if u is None: return
        conn.send(do_unit(u))


def unit_name(u):
    if u[0] != 'contract': return LEMMAS[u[1]]['name']
    ct = CTX.by[u[1]]
    return ct.sig.split('(')[0] + '[%s]' % ';'.join(d for d in (x.desc() for x in ct.instances(CTX.prog)[u[2]]) if d)


def farm(us, n, took, hard, deadline, settled=lambda: None):
    """run the units on n worker processes; a unit that does not come back within the hard limit is ended and left undecided"""
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')

    def lost(u, why):
        took(dict(name=unit_name(u), obs=[C.ob(unit_name(u) + '#reach', 'unsupported', detail=why, kind='reach')], tested=0, fails=[], wall=0.0, stats={}, kind=u[0], sig=CTX.by[u[1]].sig if u[0] == 'contract' else None, inst=u[2]))

    def spawn():
        p, q = ctx.Pipe()
        w = ctx.Process(target=worker, args=(q,), daemon=True)
        w.start()
        q.close()
        return [p, w, None, 0.0]
    todo = list(us)[::-1]
    ws = [spawn() for _ in range(n)]
    for w in ws: give(w, todo)
    while any(w[2] is not None for w in ws):
        ready = wait([w[0] for w in ws if w[2] is not None], 2.0)
        now = time.time()
        deadline = min(deadline, settled() or deadline)
        for w in ws:
            if w[2] is None: continue
            if w[0] in ready:
                try: r = w[0].recv()
                except (EOFError, OSError): r = None
                if r is not None: took(r)
                else:
                    lost(w[2], 'the prover process ended')
                    w[:] = spawn()
            elif now - w[3] > hard or now > deadline:
                w[1].kill()
                lost(w[2], 'time limit')
                w[:] = spawn()
            else: continue
            if now > deadline:
                while todo: lost(todo.pop(), 'check deadline')
            give(w, todo)
    for w in ws:
        try: w[0].send(None)
        except OSError: pass
        w[1].join(1)
        if w[1].is_alive(): w[1].kill()


def give(w, todo):
    w[2] = todo.pop() if todo else None
    w[3] = time.time()
    if w[2] is not None: w[0].send(w[2])


def do_unit(u):
    t0 = time.time()
    s0 = dict(prover.STATS)
    try:
        r = do_contract(u) if u[0] == 'contract' else do_lemma(u)
    except TimeoutError:
        r = dict(name=str(u), obs=[C.ob(str(u) + '#reach', 'unsupported', detail='time limit', kind='reach')], tested=0)
    except Exception:
        r = dict(name=str(u), obs=[C.ob(str(u) + '#internal', 'unsupported', detail=traceback.format_exc()[-3000:], kind='reach')], tested=0, internal=True)
    r['stats'] = {k: prover.STATS[k] - s0[k] for k in s0}
    r['wall'] = time.time() - t0
    for o in r['obs']:
        if o.get('env') is not None and not isinstance(o['env'], dict): o['env'] = None
    return r


def do_lemma(u):
    l = LEMMAS[u[1]]
    try:
        obs = timed(l.get('tlimit', 120) * CTX.scale, l['fn'], CTX)
    except TimeoutError:
        obs = [C.ob(l['name'] + '#reach', 'unsupported', detail='time limit', kind='reach')]
    r = dict(name=l['name'], obs=obs, tested=0, fails=[], used=[], inlined=[], kind='lemma')
    if any(o['status'] != 'proved' for o in obs) or CTX.cross:
        b = l.get('bounded')
        if b is not None and not getattr(CTX, 'nodrv', None):
            CTX.open_obs = [o for o in obs if o['status'] != 'proved']
            n, f = b(CTX, driver(), CTX.seed)
            r['tested'] = n
            if f: r['fails'].append(f)
    return r


def do_contract(u):
    ct = CTX.by[u[1]]
    inst = ct.instances(CTX.prog)[u[2]]
    name = ct.sig.split('(')[0] + '[%s]' % ';'.join(d for d in (a.desc() for a in inst) if d)
    res = dict(name=name, obs=[], tested=0, fails=[], used=[], inlined=[], key=u[1], inst=u[2], kind='contract', sig=ct.sig, scope=ct.scope)
    tl = (ct.tlimit or 60) * CTX.scale
    alias = []
    if time.time() > CTX.deadline:
        res['obs'] = [C.ob(name + '#reach', 'unsupported', detail='check deadline', kind='reach')]
    elif ct.bounded:
        res['bounded_by_design'] = ct.bounded
    else:
        try:
            obs, info = timed(tl * 1.3, C.verify, CTX.prog, CTX.by, ct, inst, tl, CTX.prop == 'C16')
            res['obs'] = obs
            res['used'] = [CTX.by[k].sig for k in info['used'] if k in CTX.by]
            res['inlined'] = [CTX.prog['funs'][k]['n'] for k in info['inlined'] if k in CTX.prog['funs']]
            res['paths'] = info['paths']
            alias = info['alias']
        except TimeoutError:
            res['obs'] = [C.ob(name + '#reach', 'unsupported', detail='time limit', kind='reach')]
        except (C.Unsupported, tm.TooBig, RecursionError) as e:
            res['obs'] = [C.ob(name + '#reach', 'unsupported', detail=repr(e)[:500], kind='reach')]
    open_ = [o for o in res['obs'] if o['status'] != 'proved']
    if open_ or CTX.cross or ct.bounded:
        try:
            mine = [o for o in open_ if not any(o is p for _, os_ in alias for p in os_)]
            if mine or CTX.cross or ct.bounded: concrete(ct, inst, res, mine)
            if mine and not res['fails']:
                for n in (260, 512):
                    if any(isinstance(a, C.ASymList) for a in inst) and not res['fails']: concrete(ct, [a.long(n) if isinstance(a, C.ASymList) else a for a in inst], res, mine)
            for i2, os_ in alias:
                bad = [o for o in os_ if o['status'] != 'proved']
                if bad and not res['fails']: concrete(ct, i2, res, bad)
        except TimeoutError:
            res['specerr'] = 'time limit'
        except Exception:
            res['nodriver'] = True
            res['specerr'] = traceback.format_exc()[-1500:]
    return res


def concrete(ct, inst, res, open_):
    from . import replay
    if any(getattr(a, 'nodrive', False) for a in inst): return
    try:
        drv = driver()
    except program.ToolError as e:      # the proofs stand without it
        res['nodriver'] = True
        res['specerr'] = str(e)[:300]
        return
    if ct.key not in drv.ids:
        res['nodriver'] = True
        return
    try:
        se = replay.SpecEval(CTX.prog, ct, inst, CTX.by)
    except Exception as e:
        res['nodriver'] = True
        res['specerr'] = repr(e)[:300]
        return
    first = [dict(o['env']) for o in open_ if o.get('env')]
    n = ct.samples or (CTX.cross or 0)
    tl = 10
    if open_:
        n, tl = max(n, 1500 * CTX.scale), 25 * CTX.scale
    elif ct.bounded:
        n, tl = max(n, 300 * CTX.scale), 20 * CTX.scale
    signal.setitimer(signal.ITIMER_REAL, tl * 2 + 20, 2)
    try:
        done, f = replay.search(drv, se, CTX.seed, n, tlimit=tl, first=first, robust=not open_ and not ct.bounded, frames_only=CTX.prop == 'C16')
    except TimeoutError:
        drv.close()
        done, f = 0, None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res['tested'] = done
    if f:
        f['inst'] = [a.concrete(f['env']) for a in inst]
        f['sig'] = ct.sig
        f['tokens'] = [a.token(f['env'], f['spaces']) for a in inst]
        res['fails'].append(f)


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop]


def matches_known(k, unit, text):
    return re.search(k['match'], text) is not None


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--only', default=None)
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop, tier = a.prop, a.tier
    if prop == 'setup':
        program.extract()
        return 0
    load_specs()
    prog = program.extract()
    by, miss = C.resolve(prog)
    model.index(prog)
    CTX.prog, CTX.by, CTX.seed, CTX.prop = prog, by, seed, prop
    C.TIER = tier
    CTX.scale = 1 if tier == 'quick' else 3
    CTX.cross = 6 if tier == 'quick' else 150
    CTX.deadline = t0 + (480 if tier == 'quick' else 3600)
    C.settle_helpers(prog, by, [prop])
    us = units_of(prop, prog, by)
    if a.only: us = [u for u in us if u[0] == 'contract' and re.search(a.only, by[u[1]].sig) or u[0] == 'lemma' and re.search(a.only, LEMMAS[u[1]]['name'])]
    if tier != 'quick': CTX.cross = max(6, min(150, 60000 // max(1, len(us))))
    broken = [u for u in us if u[0] == 'broken']
    us = [u for u in us if u[0] != 'broken']
    missing = [c for c in miss if prop in c.props]
    # heavy instances first
    cost = load_cost()
    def uname(u): return by[u[1]].sig + str(u[2]) if u[0] == 'contract' else LEMMAS[u[1]]['name']
    us.sort(key=lambda u: -cost.get(uname(u), 1.0))
    if any(True for _ in us):
        try:
            from . import replay
            replay.build(prog, by)
            CTX.nodrv = None
        except program.ToolError as e:
            CTX.nodrv = str(e)
    results = []
    end = []
    known = known_findings(prop)

    def took(r):
        results.append(r)
        # a concrete failing input decides the run: what is still open gets a little more time, no more
        f = r.get('fails')
        if f and not end and not any(matches_known(k, None, r['name'] + ' ' + ' '.join(o['name'] for o in r['obs'] if o['status'] != 'proved') + ' ' + f[0]['why']) for k in known):
            end.append(time.time() + (45 if tier == 'quick' else 300))
        if a.v:
            nb = [o for o in r['obs'] if o['status'] != 'proved']
            print('%-70s obs=%d open=%d tested=%d fails=%d %.1fs' % (r['name'][:70], len(r['obs']), len(nb), r['tested'], len(r.get('fails', [])), r['wall']), flush=True)
            for o in nb[:3]: print('     ', o['name'], o['status'], o['detail'][:900].replace('\n', '\n        '), {k: round(v, 6) for k, v in (o['env'] or {}).items()} if o.get('env') else '')
            for f in r.get('fails', []): print('   FAIL', f['why'][:800], f.get('inst'))
    farm(us, min(a.j, len(us)), took, 240 * CTX.scale, t0 + (720 if tier == 'quick' else 7200), lambda: end[0] if end else None)
    return report(prop, tier, seed, results, missing, broken, t0, a)


def load_cost():
    try:
        return json.load(open(os.path.join(VERIF, 'engine', 'cost.json')))
    except Exception:
        return {}


# obligations whose refutation needs no concrete input: the outcome is decided symbolically and exactly
HARD = ('ub', 'frame')


def report(prop, tier, seed, results, missing, broken, t0, a):
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    known = known_findings(prop)
    viol = []
    knownhit = set()
    bounded = []
    obligations = discharged = 0
    backs = {}
    functions, inlined, used = set(), set(), set()
    evals = 0
    scoped = {}
    for r in results:
        open_ = [o for o in r['obs'] if o['status'] != 'proved']
        if r.get('scope'):
            q = scoped.setdefault(r['scope'], dict(obligations=0, discharged=0, instances=0))
            q['instances'] += 1
            q['obligations'] += len(r['obs'])
            q['discharged'] += len(r['obs']) - len(open_)
        else:
            obligations += len(r['obs'])
            discharged += len(r['obs']) - len(open_)
        for o in r['obs']:
            if o['status'] == 'proved' and not r.get('scope'): backs[o['back'] or 'nf'] = backs.get(o['back'] or 'nf', 0) + 1
        if r.get('sig'): functions.add(r['sig'])
        inlined.update(r.get('inlined', ()))
        used.update(r.get('used', ()))
        evals += r['tested']
        names = sorted({o['name'] for o in open_})
        v = None
        if r.get('fails'):
            f = r['fails'][0]
            v = dict(unit=r['name'], obligation=names or [r['name'] + '#concrete'], why=f['why'], failing=f, input=True)
        else:
            hard = [o for o in open_ if o['status'] == 'refuted']
            if hard:
                o = hard[0]
                v = dict(unit=r['name'], obligation=[o['name']], why=o['detail'], env=o.get('env'), input=False)
        if v is not None:
            text = v['unit'] + ' ' + ' '.join(v['obligation']) + ' ' + v['why']
            k = next((k for k in known if matches_known(k, v['unit'], text)), None)
            if k:
                knownhit.add(k['id'])
                bounded.append(dict(unit=r['name'], reason='known finding ' + k['id']))
            else:
                v['obs'] = [dict(name=o['name'], status=o['status'], detail=o['detail'][:4000]) for o in open_][:20]
                viol.append(v)
        elif open_:
            bounded.append(dict(unit=r['name'], open=names[:6], reason=open_[0]['detail'][:300], bound='%d sampled inputs' % r['tested']))
        elif r.get('bounded_by_design'):
            bounded.append(dict(unit=r['name'], reason=r['bounded_by_design'], bound='%d sampled inputs' % r['tested']))
    total_ct = len(functions) + len(missing)
    if missing and len(missing) * 2 > total_ct:
        viol.append(dict(unit='contracts', obligation=['contracts#resolved'], why='functions under contract are gone: ' + ', '.join(m.sig for m in missing[:10]), input=False))
    if not results and not broken and not missing:
        viol.append(dict(unit='contracts', obligation=['contracts#nonempty'], why='no unit to verify', input=False))
    for b in broken: bounded.append(dict(unit=str(b[1]), reason='contract cannot be instantiated: ' + b[2][:300]))
    for m in missing: bounded.append(dict(unit=m.sig, reason='function under contract not found in the current tree'))
    st = {}
    for r in results:
        for k, v in r['stats'].items(): st[k] = st.get(k, 0) + v
    man = manifest_entry(prop)
    ev = dict(property=prop, tier=tier, seed=seed, level=man.get('level', 'proof'),
              coverage=dict(obligations=obligations, discharged=discharged,
                            checker_cmd='python3-vt -m engine.run %s --tier %s' % (prop, tier),
                            trusted_base=TRUST,
                            functions_under_contract=sorted(functions), instances=len([r for r in results if r.get('kind') == 'contract']),
                            lemmas=[r['name'] for r in results if r.get('kind') == 'lemma'],
                            inlined_functions=len(inlined), contracts_assumed_here_and_proved_elsewhere=sorted(used),
                            discharged_by=backs, solver={k: round(v, 2) for k, v in st.items()},
                            bounded_stand_ins=bounded, decided_for_limited_sizes=scoped, cross_check_evaluations=evals,
                            violations=[dict(unit=v['unit'], obligation=v['obligation'][:5]) for v in viol]),
              assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=len(viol))
    evp = os.path.join(VERIF, 'evidence', prop + '.json')
    json.dump(ev, open(evp + '.tmp', 'w'), indent=1, default=str)
    os.rename(evp + '.tmp', evp)
    for k in known:
        if k['id'] in knownhit or k.get('always'): print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for n, v in enumerate(sorted(viol, key=lambda v: not v['input'])[:12]):
        rp = os.path.join(VERIF, 'evidence', 'replay', '%s-%d.json' % (prop, n))
        json.dump(dict(property=prop, **v), open(rp, 'w'), indent=1, default=str)
        print('  %s: %s: %s' % (v['unit'], ', '.join(v['obligation'][:3]), v['why'][:700].replace('\n', '\n    ')))
        if v['input'] and v['failing'].get('inst'): print('    input: ' + '; '.join(v['failing']['inst'])[:800])
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if v['input'] else ' no-failing-input-found'))
    print('%s %s: %d obligations, %d discharged (%s), %d instances, %d bounded, %d concrete evaluations, z3 %d calls %.1fs, wall %.1fs' % (
        prop, tier, obligations, discharged, ', '.join('%s %d' % kv for kv in sorted(backs.items())), len(results), len(bounded), evals, st.get('z3', 0), st.get('z3_time', 0), time.time() - t0))
    ne = [r for r in results if r.get('specerr')]
    if ne: print('  cross-check not run on %d instances, e.g. %s: %s' % (len(ne), ne[0]['name'], ne[0]['specerr'].strip().split('\n')[-1][:200]))
    if a.v and ne: print(ne[0]['specerr'])
    for k, q in scoped.items(): print('  limited to %s: %d of %d obligations discharged' % (k, q['discharged'], q['obligations']))
    for b in bounded[:20]: print('  bounded: %s: %s' % (b['unit'], str(b.get('reason', ''))[:200]))
    if a.v and os.environ.get('CM_COST'): save_cost(results)
    return 1 if viol else 0


def save_cost(results):
    c = load_cost()
    for r in results:
        if r['wall'] > 3: c[(r['sig'] + str(r['inst'])) if r.get('sig') else r['name']] = round(r['wall'], 1)
    json.dump(c, open(os.path.join(VERIF, 'engine', 'cost.json'), 'w'), indent=0, sort_keys=True)


def manifest_entry(prop):
    try:
        m = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
        return next((c for c in m['checks'] if c['property'] == prop), {})
    except Exception:
        return {}


if __name__ == '__main__':
    import engine.run as R
    sys.exit(R.main(sys.argv[1:]))
