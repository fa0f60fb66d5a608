#!/usr/bin/env python3
"""check.py PROP  (VERIF_TIER, VERIF_SEED): decide one property on /repo's current tree.
1. kxtract re-extracts every function from /repo/src; kx.py joins it with contracts/; Verus must discharge every obligation.
2. kxh (harness) runs the real crate: searches a concrete failing input, and is the labelled bounded stand-in for what is not under contract."""
import json, os, re, resource, shutil, signal, subprocess, sys, time
import kx, literals, props
V = kx.V
HB = os.path.join(V, 'harness', 'target', 'release', 'kxh')

def build_harness():
    r = subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=os.path.join(V, 'harness'), capture_output=True, text=True)
    return None if r.returncode == 0 else r.stderr[-3000:]

def limits(): resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def run_harness(prop, seed, secs, tier, out, again=False):
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    t = time.time()
    env = dict(os.environ); env['KXH_DICT'] = literals.dictionary(kx.REPO)
    p = subprocess.Popen([HB, 'run', prop, str(seed), str(secs), tier, out], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=limits, start_new_session=True, env=env)
    try: so, _ = p.communicate(timeout=secs + 150)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate(); so = ''
    try: r = json.loads(so.strip().split('\n')[-1])
    except (ValueError, IndexError): r = None
    if r is None:                       # the process died: find the input that kills it
        r = {'evaluations': 0, 'seconds': time.time() - t, 'failure': None, 'died': p.returncode, 'samples': [], 'known': []}
        for f in sorted(os.listdir(out)):
            if not f.startswith('cur.'): continue
            src = os.path.join(out, f)
            try: q = subprocess.run([HB, 'replay', src], capture_output=True, text=True, timeout=60, preexec_fn=limits); rc = q.returncode
            except subprocess.TimeoutExpired: rc = -1
            if rc != 0:
                dst = os.path.join(out, prop + '.json'); shutil.copy(src, dst)
                r['failure'] = {'replay': dst, 'message': 'the process dies or does not terminate (exit %s)' % rc}
                break
    if r.get('hang') and r['failure']:  # an input took long next to seven others: it is not believed before it has run alone
        src = r['failure']['replay']
        try: rc = subprocess.run([HB, 'replay', src], capture_output=True, text=True, timeout=120, preexec_fn=limits).returncode
        except subprocess.TimeoutExpired: rc = -1
        if rc == 0:
            if again: r['failure'] = None; r.setdefault('samples', []); r.setdefault('known', []); return r
            env_h = os.environ.get('KXH_HANG'); os.environ['KXH_HANG'] = '150'
            try: return run_harness(prop, seed + 1000, secs / 2, tier, out, again=True)
            finally:
                if env_h is None: del os.environ['KXH_HANG']
                else: os.environ['KXH_HANG'] = env_h
    return r

def deductive(P, tier):
    """-> dict with discharged/failed/undecided obligations"""
    D = {'obligations': 0, 'discharged': 0, 'failed': [], 'undecided': [], 'functions': [], 'lemmas': 0, 'time': 0.0, 'cmd': '', 'notes': [], 'trusted': []}
    if not P.get('modules'): return D
    try: R = kx.verify(P['modules'], keep=os.path.join(kx.BUILD, 'v', sys.argv[1]), rlimit=P.get('rlimit', 30), timeout=P.get('vtimeout', 300))
    except Exception as e:
        D['undecided'].append('extraction: ' + str(e)[:300]); return D
    D['time'] = R.time; D['cmd'] = ' '.join(R.cmd); D['trusted'] = R.comp.trusted_list(P['modules'])
    shapes = kx.load_shapes(); fns = R.comp.d['fns']
    D['obligations'] = R.verified + R.errors; D['discharged'] = R.verified
    D['functions'] = R.comp.contracted(P['modules']); D['own'] = [k for k in D['functions'] if re.search(P.get('own', '.'), k)]
    new = set(R.comp.new_fns())
    def changed(k):
        if k not in fns or k not in shapes: return True
        f = kx.shape(fns[k])
        return f != shapes[k]
    D['smt'] = sum(t for _, _, t, _ in R.breakdown) / 1e6
    if R.vir or R.out is None:
        D['undecided'].append('the verifier did not accept the composed text or ran out of time: ' + ' | '.join(R.tool_errors[:3])[:600]); return D
    D['undecided'] += R.comp.guards(P.get('closed', []))
    for k in R.comp.missing:
        if R.comp.cons[k].mod in [m.split('_', 1)[1] for m in P['modules']]: D['undecided'].append(f'{k}: function under contract is gone or renamed')
    for k, why in R.comp.external.items():
        if k in D['functions']: D['undecided'].append(f'{k}: {why}')
    for (kind, key, mod), fs in R.fails.items():
        rl = all('rlimit' in f['message'] or 'Resource limit' in f['message'] for f in fs)
        txt = f"{key}: " + '; '.join(f['message'] + ' @ ' + ' / '.join(f"{a['text']}" for a in f['at'][:2]) for f in fs[:4])
        und = rl or (kind == 'fn' and (changed(key) or key in R.comp.lost or any(calls_new(fns[key], n) for n in new)))
        if kind == 'fn' and not re.search(P.get('own', '.'), key): und = True; txt = 'callee or unrelated function: ' + txt
        elif kind == 'fn' and not any(relevant(P, key, f) for f in fs): und = True; txt = 'obligation about another property: ' + txt
        D['undecided' if und else 'failed'].append(txt)
    if R.errors and not D['failed'] and not D['undecided']: D['undecided'].append(f'{R.errors} obligations failed without a diagnostic')
    return D
def relevant(P, key, f):
    """does this failed obligation speak about property P? (a function's contract usually carries several properties)"""
    t = f['message'] + ' @ ' + ' / '.join(a['text'] for a in f['at'])
    if P.get('panics'):     # only panic freedom and termination: callee preconditions (not those of lemmas), arithmetic, decreases
        return bool(re.search(r'precondition|overflow|underflow|decreases|index|unreachable|divis', f['message'])) and not any(re.match(r'(let ghost|proof|broadcast|assert)\b', a['text']) for a in f['at'])
    for k, r in P.get('only', {}).items():
        if re.search(k, key): return bool(re.search(r, t))
    return True
def calls_new(f, n): return n in f['calls'] or ('.' + n.split('::')[-1]) in f['calls'] or n.split('::')[-1] in [c.split('::')[-1] for c in f['calls']]

def main():
    prop = sys.argv[1]; P = props.PROPS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    rdir = os.path.join(V, 'build', 'replay', prop); os.makedirs(rdir, exist_ok=True)
    err = build_harness()
    D = deductive(P, tier)
    H = None
    if err is None:
        secs = P.get('quick', 25) if tier == 'quick' else P.get('thorough', 300)
        if D['failed'] or D['undecided']: secs = max(secs, 120)
        H = run_harness(prop, seed, secs, tier, os.path.join(V, 'build', 'h', prop))
    asm = None
    if err is None and D['trusted']:    # the contracts assumed for std, compared with the real std on enumerated values
        q = subprocess.run([HB, 'assume'], capture_output=True, text=True, timeout=120)
        asm = f'{q.stdout.strip()} comparisons with the real std, none differs' if q.returncode == 0 else q.stdout.strip()
        if q.returncode != 0: D['undecided'].append('a contract assumed for std does not match the real std: ' + asm[:300])
    smoke = None
    if tier == 'thorough' and P.get('modules') and not D['failed'] and not D['undecided']:
        smoke = kx.smoke(P['modules'])
    viol = None
    if H and H.get('failure'):
        src = H['failure']['replay']; dst = os.path.join(rdir, 'input.json')
        j = open(src).read(); open(dst, 'w').write(j)
        viol = dst
        print(f"{prop}: failing input found on the real code: {H['failure']['message'][:600]}")
        print(f"  replay: {HB} replay {dst}")
        for x in D['failed'] + D['undecided']: print('  obligation:', x[:400])
    elif D['failed']:
        viol = os.path.join(rdir, 'obligation.txt')
        open(viol, 'w').write('\n'.join(['failed obligations:'] + D['failed'] + ['', 'verifier: ' + D['cmd'], '', 'harness: ' + json.dumps(H)[:3000]]))
        for x in D['failed']: print('  failed obligation:', x[:600])
    for x in D['undecided']: print('  undecided (not counted as proved; bounded check decides):', x[:300])
    if err: print('harness does not build:', err[-800:])
    level = P['level']
    cov = {'deciding_method': P['technique'],
           'obligations': D['obligations'], 'discharged': D['discharged'], 'checker_cmd': D['cmd'] or 'none',
           'trusted_base': D['trusted'] + P.get('assume', []),
           'functions_under_contract': D['functions'], 'functions_stating_the_property': D.get('own', []), 'back_end': 'Verus 0.2026.09.13 / Z3', 'solver_seconds': round(D.get('smt', 0), 2), 'verifier_wall_s': round(D['time'], 1),
           'undecided_obligations': D['undecided'], 'failed_obligations': D['failed'],
           'bounded_only': P.get('bounded', []),
           'bounded_check': {'what': 'labelled bounded, not counted as proved: real crate against an independent model on enumerated and seeded inputs', **{k: H.get(k) for k in ('evaluations', 'enumerated', 'enumeration_size', 'random', 'distinct', 'seconds')}} if H else 'not run'}
    if H:
        cov.update({'evaluations': H.get('evaluations', 0), 'distinct_nontrivial': H.get('distinct', 0), 'rule': props.RULES[prop], 'samples': H.get('samples') or ['none']})
    if smoke is not None: cov['smoke'] = smoke
    if asm: cov['assumed_std_contracts_compared'] = asm
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': P.get('assume', []) + P.get('bounded', []), 'wall_s': round(time.time() - t0, 1), 'violations': 1 if viol else 0}
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in (H or {}).get('known', []):
        if props.known(prop, k): print(f'KNOWN-FINDING: property={prop} {k!r}: ' + props.known(prop, k))
        else:
            viol = viol or os.path.join(rdir, 'input.json')
    print(f"{prop}: {D['discharged']}/{D['obligations']} obligations discharged over {len(D['functions'])} functions ({len(D.get('own', []))} of this property) in {D['time']:.1f}s; bounded: {(H or {}).get('evaluations', 0)} evaluations")
    if viol:
        print(f'VIOLATION property={prop} replay={viol}' + ('' if (H and H.get('failure')) else ' no-failing-input-found'))
        sys.exit(1)
    if err and not (P.get('modules') and not D['undecided'] and not D['failed']):
        sys.exit(2)
    sys.exit(0)
if __name__ == '__main__': main()
