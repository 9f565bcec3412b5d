#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of the crate in /repo by bounded symbolic execution of its LLVM IR:
builds the engine, compiles /repo's current tree together with the harness to IR, runs the jobs of
the property, replays what the solver finds against a native build of the same tree and writes
evidence/PROPERTY.json.  Exit 0: held within the bounds.  Exit 1: VIOLATION.  Exit 2: no answer.
"""
import collections, json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
TGT = os.path.join(V, 'target')
SYMEX = os.path.join(TGT, 'engine', 'release', 'symex')
REPLAY = os.path.join(TGT, 'native', 'debug', 'replay')
IR = os.path.join(TGT, 'vh.ll')
STEPS = 4_000_000  # instructions per path; more of them is a hang
LONG = {'C01': 80_000_000, 'C24': 80_000_000, 'C25': 80_000_000}  # properties with texts of hundreds of tokens


def env(**kw):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR'):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', **kw)
    return e


def start(cmd, cwd, log, **kw):
    f = open(log, 'w')
    return subprocess.Popen(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, env=env(**kw))


def forget(target):
    """Makes cargo compile the crate and the harness again, whatever the files' times say."""
    for prof in ('debug', 'release'):
        d = os.path.join(target, prof, '.fingerprint')
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n.startswith('giron-') or n.startswith('vh-'):
                    shutil.rmtree(os.path.join(d, n), ignore_errors=True)


def build(wasm=False):
    """Engine, IR and native replay, all from the current trees, side by side."""
    os.makedirs(TGT, exist_ok=True)
    h = os.path.join(V, 'harness')
    ir_t, nat_t = os.path.join(TGT, 'ir'), os.path.join(TGT, 'native')
    forget(ir_t)
    forget(nat_t)
    for p in (IR, os.path.join(ir_t, 'release', 'deps', 'vh.ll'), REPLAY):
        if os.path.exists(p):
            os.remove(p)
    feat = ['--features', 'wasm'] if wasm else []
    jobs = {
        'engine': start(['cargo', 'build', '--release', '--offline'], os.path.join(V, 'engine'), os.path.join(TGT, 'engine.log'),
                        CARGO_TARGET_DIR=os.path.join(TGT, 'engine')),
        'ir': start(['cargo', 'rustc', '--release', '--offline', '--lib', '--crate-type', 'cdylib'] + feat + ['--', '--emit=llvm-ir'], h,
                    os.path.join(TGT, 'ir.log'), CARGO_TARGET_DIR=ir_t, RUSTFLAGS='-Cno-vectorize-loops -Cno-vectorize-slp'),
        'native': start(['cargo', 'build', '--offline', '--bin', 'replay'] + feat, h, os.path.join(TGT, 'native.log'), CARGO_TARGET_DIR=nat_t),
    }
    for k, p in jobs.items():
        if p.wait() != 0:
            sys.stdout.write(open(os.path.join(TGT, k + '.log')).read()[-3000:])
            die('build of the %s failed' % k)
    shutil.copyfile(os.path.join(ir_t, 'release', 'deps', 'vh.ll'), IR)


def die(why):
    print('NO ANSWER: ' + why)
    sys.exit(2)


def templates():
    out = subprocess.run([REPLAY, 'list'], capture_output=True, text=True, env=env())
    if out.returncode:
        die('list: ' + out.stderr[-500:])
    return [l.split('\t', 5) for l in out.stdout.splitlines()]


def jobs_of(prop, tier):
    deep = tier == 'thorough'
    js, texts = [], {}
    for kind, i, p, m, t, s in templates():
        other = prop == 'C27' and deep and kind == 'tpl' and t == '0' and m in '012' and 'C09' <= p <= 'C23'
        if p != prop and not other or (int(t) > 0 and not deep):
            continue
        mode = {'0': 'script', '1': 'module', '2': 'script or module'}.get(m, m) if kind == 'tpl' else ('module' if m == '1' else 'script')
        if kind == 'tpl':
            j = {'C26': 'h_wasm:', 'C27': 'h_kind:'}.get(prop, 'h_tpl:') + i
            js.append(j)
            texts[j] = '%s: %s' % (mode, json.loads('"' + s + '"'))
        else:
            for k, what in enumerate(('delete a character', 'replace a character', 'insert a character', 'cut short')):
                j = 'h_edit:%s:%d' % (i, k)
                js.append(j)
                texts[j] = '%s, %s: %s' % (mode, what, json.loads('"' + s + '"'))
    if prop in ('C01', 'C26'):
        for n in range((5 if deep else 4) if prop == 'C01' else (4 if deep else 3)):
            for m in (0, 1):
                j = '%s:%d:%d' % ('h_raw' if prop == 'C01' else 'h_wraw', n, m)
                js.append(j)
                texts[j] = '%s: every source of %d ASCII characters' % ('module' if m else 'script', n)
    return js, texts


def replay(line, limit=30):
    """One harness run natively; returns what came of it."""
    try:
        r = subprocess.run([REPLAY, 'run'], input=line + '\n', capture_output=True, text=True, timeout=limit, env=env())
    except subprocess.TimeoutExpired:
        return {'out': 'hang', 'src': [], 'note': ''}
    if r.returncode != 0 or not r.stdout.strip():
        return {'out': 'crash %s' % r.returncode, 'src': [], 'note': ''}
    return json.loads(r.stdout.splitlines()[0])


def explain(src):
    """What the crate and the reference say of a source."""
    try:
        r = subprocess.run([REPLAY, 'src'], input=json.dumps(src)[1:-1].replace('\\"', '"') + '\n', capture_output=True, text=True, timeout=30, env=env())
        return json.loads(r.stdout)
    except Exception as e:
        return {'error': str(e)[:200]}


def known():
    """The recorded findings: (property, input specification, what fails)."""
    fs = []
    p = os.path.join(V, 'known_findings.txt')
    for l in open(p):
        if l.startswith('finding:'):
            f = json.loads(l[len('finding:'):])
            fs.append(f)
    return fs


def deep_findings(prop):
    """Findings given as repeated text: shown natively."""
    for f in known():
        if f['property'] != prop or 'repeat' not in f:
            continue
        text = f.get('before', '') + f['repeat'] * f['times'] + f.get('after', '')
        try:
            r = subprocess.run([REPLAY, 'parse', f.get('mode', 's')], input=text, capture_output=True, text=True, timeout=60, env=env())
            bad = r.returncode < 0 or r.returncode == 134
        except subprocess.TimeoutExpired:
            bad = True
        if bad:
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
        yield f, bad


def main():
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    if sys.argv[1] == 'setup':
        build()
        return
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    build(prop == 'C26')
    tbuild = time.time() - t0
    js, texts = jobs_of(prop, tier)
    if not js:
        die('no jobs')
    out = os.path.join(TGT, 'out.jsonl')
    limit = 300 if tier == 'quick' else 700
    ncpu = os.cpu_count() or 4
    cmd = [SYMEX, '--ir', IR, '--out', out, '--workers', str(ncpu), '--time', str(limit), '--steps', str(LONG.get(prop, STEPS)),
           '--frontier', str(max(300, 3 * len(js))), '--seed', str(seed), '--samples', '30', '--maxviol', '40']
    for j in js:
        cmd += ['--job', j]
    r = subprocess.run(cmd, capture_output=True, text=True, env=env())
    if not os.path.exists(out) or r.returncode not in (0,):
        die('engine: rc %s %s' % (r.returncode, (r.stdout + r.stderr)[-800:]))
    J = collections.OrderedDict()
    S, viols, samples, errs, cov, z3 = collections.Counter(), [], [], [], {}, ''
    for l in open(out, errors='replace'):
        d = json.loads(l)
        t = d['t']
        if t == 'job':
            j = J.setdefault(d['name'], {'c': collections.Counter(), 'r': collections.Counter()})
            for k, x in d.items():
                if isinstance(x, int) and k != 'job':
                    j['c'][k] = max(j['c'][k], x) if k.startswith('max') else j['c'][k] + x
            for k, x in d['reach'].items():
                j['r'][int(k)] += x
        elif t == 'solver':
            for k, x in d.items():
                if k != 't':
                    S[k] += x
        elif t == 'viol':
            viols.append(d)
        elif t == 'sample':
            samples.append(d)
        elif t == 'err':
            errs.append(d)
        elif t == 'cov':
            b = int(d['bits'], 2) if d['bits'] else 0
            cov[d['f']] = (cov.get(d['f'], (0, 0))[0] | b, len(d['bits']))
        elif t == 'end':
            z3 = d['z3']
    T, R = collections.Counter(), collections.Counter()
    for j in J.values():
        for k, x in j['c'].items():
            T[k] = max(T[k], x) if k.startswith('max') else T[k] + x
        R.update(j['r'])

    def line(d):
        return js[d['job']].replace(':', ' ') + ' : ' + ' '.join(map(str, d['inputs']))

    # what the solver found, against the real code
    recorded = {(f.get('mode', 's'), f['source']) for f in known() if f['property'] == prop and 'source' in f}
    bad, unconfirmed, seen_known = [], [], 0
    for d in viols:
        if len(bad) >= 5 or len(unconfirmed) >= 20:
            break
        got = replay(line(d))
        if got['out'] == 'ok' or got['out'] == 'assumed':
            unconfirmed.append((d, got))
            continue
        if all((s[0], s[2:]) in recorded for s in got['src']) and got['src']:
            seen_known += 1
            for s in got['src']:
                print('KNOWN-FINDING: property=%s %s' % (prop, s))
            continue
        bad.append((d, got))
    # sampled paths, against the real code
    same, differ = 0, []
    batch = [line(d) for d in samples]
    if batch:
        r = subprocess.run([REPLAY, 'run'], input='\n'.join(batch) + '\n', capture_output=True, text=True, timeout=300, env=env())
        res = [json.loads(l) for l in r.stdout.splitlines()]
        for d, g in zip(samples, res):
            d['src'] = g['src']
            if g['out'] == 'ok' and g['note'] == d['notes']:
                same += 1
            else:
                differ.append({'run': line(d), 'native': g, 'symbolic': d['notes']})
        if len(res) < len(batch):
            differ.append({'run': batch[len(res)], 'native': 'stopped'})
    fnds = list(deep_findings(prop))

    os.makedirs(os.path.join(V, 'evidence', 'replay'), exist_ok=True)
    for k, (d, got) in enumerate(bad):
        p = os.path.join(V, 'evidence', 'replay', '%s-%d.json' % (prop, k))
        src = got['src'][-1] if got['src'] else ''
        json.dump({'property': prop, 'job': js[d['job']], 'template': texts[js[d['job']]], 'inputs': d['inputs'], 'failed': d['kind'],
                   'code': d['code'], 'code_meaning': {10: 'accepted with a wrong tree', 11: 'accepts what is not a program',
                                                       12: 'rejects a program', 13: 'the tree does not serialize',
                                                       14: 'error on a wrong line', 15: 'error at a wrong column',
                                                       16: 'error names another token',
                                                       17: 'the wrapper gives something else than the parser',
                                                       18: 'an error of the wrong kind', 19: 'an error does not say what it is'}.get(d['code'], d['what']),
                   'native_outcome': got['out'], 'mode_and_source': src, 'crate_and_reference': explain(src) if src else None,
                   'reproduce': "echo '%s' | %s run" % (line(d), REPLAY)}, open(p, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, p))
        print('  %s %s: %r' % (got['out'], d['kind'], src))

    crate = sorted(f for f in cov if 'giron::' in f and 'vh::' not in f)
    blocks = sum(cov[f][1] for f in crate)
    hit = sum(bin(cov[f][0]).count('1') for f in crate)
    pend, nerr = T['pending'], T['errs']
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': T['paths'], 'transitions': T['forks'] + T['asserts'],
            'traces_validated_against_impl': same,
            'samples': [{'template': texts[js[d['job']]], 'inputs': d['inputs'], 'source': d.get('src'), 'instructions': d['steps']}
                        for d in samples[:: max(1, len(samples) // 12)]][:12],
            'exhaustive': pend == 0 and nerr == 0 and S['unknown'] == 0,
            'what_is_counted': 'states: completed symbolic paths (each covers every input that takes it); transitions: branches decided both '
                               'ways by the solver plus assertions discharged; traces: path models run natively with equal trees',
            'jobs': len(js), 'instructions_executed': T['insts'], 'longest_path_instructions': T['maxsteps'],
            'symbolic_variables_max': T['maxvars'],
            'queries_discharged': S['queries'], 'queries_sat': S['sat'], 'queries_unsat': S['unsat'], 'queries_unknown': S['unknown'],
            'queries_answered_from_cache': S['cache_hits'], 'solver_s': round(S['ms'] / 1000.0, 2), 'solver': 'Z3 ' + z3,
            'paths_not_finished': pend, 'paths_with_engine_error': nerr, 'engine_errors': [e['what'] for e in errs[:5]],
            'outcomes': {'tree_equal_to_reference': R[1], 'rejected_as_reference': R[2], 'outside_the_reference': R[3],
                         'rejected_early_error_not_required': R[4], 'place_not_applicable': R[5], 'place_of_error_right': R[6], 'token_named': R[7],
                         'kind_of_error_right': R[8]},
            'functions_encoded': crate, 'functions_encoded_count': len(crate),
            'crate_basic_blocks_reached': hit, 'crate_basic_blocks': blocks,
            'bounds': {'sources': list(texts.values()), 'instructions_per_path': LONG.get(prop, STEPS), 'seconds': limit},
            'sampled_paths': len(samples), 'sampled_paths_differing': len(differ), 'differing': differ[:3],
            'findings_recorded': [dict(f, still_fails=b) for f, b in fnds],
            'build_s': round(tbuild, 1),
        },
        'assumptions': [
            'rustc\'s LLVM IR of the crate at opt-level 1 with overflow checks stands for the crate; allocation succeeds',
            'the reference parser in harness/src/js (same IR, same paths) states the grammar; sources it leaves open are not judged',
            'inputs are those the listed sources stand for; nothing is claimed beyond them',
        ],
        'wall_s': round(time.time() - t0, 2), 'violations': len(bad),
    }
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d jobs, %d paths, %d queries (%.1f s solver), %d sampled paths equal natively, %d differing, %d unfinished, %d engine errors, %.0f s'
          % (prop, tier, len(js), T['paths'], S['queries'], S['ms'] / 1000.0, same, len(differ), pend, nerr, time.time() - t0))
    if bad:
        sys.exit(1)
    if unconfirmed:
        d, got = unconfirmed[0]
        die('the engine reports %s %s on %s, which does not fail natively' % (d['kind'], d['what'], line(d)))
    if differ:
        die('the engine and the native run differ: %s' % differ[0])
    if R[1] + R[6] + R[8] == 0:
        die('no source was judged')
    if T['paths'] == 0 or nerr * 2 > T['paths']:
        die('the engine could not run the code: %s' % [e['what'] for e in errs[:3]])
    if nerr:
        print('WARNING: %d paths not decided: %s' % (nerr, errs[0]['what'] if errs else ''))
    if pend:
        print('WARNING: %d paths not finished within %d s' % (pend, limit))


main()
