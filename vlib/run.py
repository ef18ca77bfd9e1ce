#!/usr/bin/env python3
"""V: verify every function under contract that a property depends on.
python3-vt vlib/run.py PROP TIER OUT.json"""
import sys, os, time, json, glob, importlib, multiprocessing as mp, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
import z3
import mir, core, world, models
import exec as X



def load_specs():
    mods = []
    for f in sorted(glob.glob(os.path.join(HERE, 'spec_*.py'))):
        mods.append(importlib.import_module(os.path.basename(f)[:-3]))
    return mods


MODS = load_specs()
P = D = None


def setup(text):
    global P, D
    P = mir.Program(text, REPO)
    files = [f[len(REPO) + 1:] for f in glob.glob(REPO + '/src/**/*.rs', recursive=True)]
    D = X.Defs(REPO, files)


def make_world(key=None):
    w = getattr(core.CONTRACTS.get(key), 'world', world.World)(P, D, REPO)
    w.hooks = []
    w.early_hooks = []
    w.strlen = lambda st, v: world.strlen(v.t)
    w.opqk = 'bool'
    w.opaque_ret = lambda f, args: w.opqk
    for m in MODS:
        if hasattr(m, 'install'):
            m.install(w)
    return w


def job(a):
    key, tier, part, parts = a          # the obligations part, part + parts, ... of the function
    t0 = time.time()
    tmo = 10000 if tier == 'quick' else 60000
    if key.startswith('lemma:'):
        world.UF = False
        fn = core.LEMMAS[key[6:]]
        obls = []
        try:
            for n, hyps, goal in fn():
                o = X.Obl('lemma %s: %s' % (key[6:], n), hyps, goal, 'lemma')
                obls.append(o)
                sv = z3.Solver()
                sv.set('timeout', 1000)
                sv.add(*hyps)
                if sv.check() == z3.unsat:
                    raise X.Unsupported('VACUOUS: the hypotheses of "%s" contradict each other' % n)
            err = None
        except Exception as e:          # noqa
            err = 'unsupported: %s' % e
        used, inl, tr, paths = [], [], [], 0
    else:
        w = make_world(key)
        ex = X.Exec(P, D, core.CONTRACTS, w)
        ex.deadline = time.time() + (120 if tier == 'quick' else 900)
        r = core.verify(ex, key)
        obls, err, paths = r.obls, r.error, r.paths
        used, inl, tr = sorted(ex.used), sorted(x for x in ex.inlined if x), sorted(w.trusted)
    gen = time.time() - t0
    out = []
    t1 = time.time()
    sig = hash(tuple(o.name for o in obls))         # check.py fixes PYTHONHASHSEED
    for o in obls[part::parts]:
        if time.time() - t0 > (240 if tier == 'quick' else 1800):
            out.append((o.name, o.kind, 'timeout', 'time limit of the function'))
            continue
        try:
            s, info = core.discharge(o, tmo)
        except z3.Z3Exception as e:
            s, info = 'timeout', 'z3: %s' % e
        out.append((o.name, o.kind, s, '' if s == 'discharged' else str(info)[:3000]))
    return {'key': key, 'error': err, 'paths': paths, 'obls': out, 'used': used, 'inlined': inl, 'trusted': tr,
            'gen_s': gen, 'solver_s': time.time() - t1, 'sig': sig}


def merge(key, rs):
    """the parts of one function"""
    r = dict(rs[0])
    if any(x['sig'] != r['sig'] or x['error'] != r['error'] for x in rs):
        r['error'] = r['error'] or 'the parts of the function do not agree on its obligations'
    r['obls'] = [o for x in rs for o in x['obls']]
    r['gen_s'] = max(x['gen_s'] for x in rs)
    r['solver_s'] = sum(x['solver_s'] for x in rs)
    return r


def main():
    prop, tier, outp = sys.argv[1], sys.argv[2], sys.argv[3]
    t0 = time.time()
    if os.environ.get('VERIF_MIR'):
        text = open(os.environ['VERIF_MIR']).read()
    else:
        text = mir.dump(REPO, os.path.join(HERE, '..', 'build', 'mir', prop))
    setup(text)
    t_mir = time.time() - t0
    roots = [k for k, c in core.CONTRACTS.items() if prop in c.props] + \
            ['lemma:' + k for k, f in core.LEMMAS.items() if prop in f.props]
    done = {}
    todo = set(roots)
    assumed = set()
    est, more = {}, set()
    ctx = mp.get_context('fork')
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        pend = {}
        while todo or pend:
            for k in sorted(todo):
                c = core.CONTRACTS.get(k)
                if c is not None and getattr(c, 'trusted_here', False):
                    if getattr(c, 'by', None):
                        est[k] = c.by
                        more |= {u for u in c.by if u not in done and u not in todo}
                    else:
                        assumed.add(k)
                    done[k] = None
                    continue
                n = getattr(c, 'chunks', 1)
                pend[k] = [pool.apply_async(job, ((k, tier, i, n),)) for i in range(n)]
                done[k] = None
            todo = more
            more = set()
            if todo:
                continue
            fin = [k for k, a in pend.items() if all(x.ready() for x in a)]
            if not fin:
                time.sleep(0.02)
                continue
            for k in fin:
                try:
                    r = merge(k, [x.get() for x in pend.pop(k)])
                except Exception as e:      # noqa
                    r = {'key': k, 'error': 'worker: %r' % e, 'paths': 0, 'obls': [], 'used': [], 'inlined': [],
                         'trusted': [], 'gen_s': 0, 'solver_s': 0}
                done[k] = r
                for u in r['used']:
                    if (u in core.CONTRACTS or u[6:] in core.LEMMAS and u.startswith('lemma:')) and u not in done and u not in pend:
                        todo.add(u)
    rs = [r for r in done.values() if r]
    failed, und, nobl, ndis = [], [], 0, 0
    for r in rs:
        if r['error']:
            und.append({'name': r['key'], 'reason': r['error']})
        for n, kd, s, info in r['obls']:
            nobl += 1
            if s == 'discharged':
                ndis += 1
            elif s == 'failed':
                # an obligation of a function that is otherwise outside reach is still a failed obligation
                failed.append({'name': n, 'function': r['key'], 'kind': kd, 'verifier': info})
            else:
                und.append({'name': n, 'reason': 'solver gave no answer: ' + info[:200]})
    trusted = set()
    inl = set()
    for r in rs:
        trusted |= set(r['trusted'])
        inl |= set(r['inlined'])
    funcs = []
    for r in sorted(rs, key=lambda r: r['key']):
        k = r['key']
        funcs.append({'function': k, 'obligations': len(r['obls']), 'discharged': sum(1 for o in r['obls'] if o[2] == 'discharged'),
                      'paths': r['paths'], 's': round(r['gen_s'] + r['solver_s'], 2)})
    res = {'functions': funcs, 'obligations': nobl, 'discharged': ndis, 'failed': failed, 'undecided': und,
           'trusted': sorted(['model of ' + t for t in trusted] + ['assumed contract: ' + k for k in assumed] +
                          ['%s: its contract here is not checked against its body but follows from %s, under the ownership reading that each handle value held is one outside reference' % (k, ' and '.join(v)) for k, v in est.items()]),
           'inlined': sorted(inl),
           'assumptions': ASSUME + extra_assumptions(prop, done),
           'vacuity': {'preconditions shown satisfiable and at least one returning path with a consistent path condition': len([r for r in rs if not r['key'].startswith('lemma:') and not r['error']])},
           'outside': [n for m in MODS for n in getattr(m, 'OUTSIDE', {}).get(prop, [])],
           'secs': round(time.time() - t0, 1), 'mir_s': round(t_mir, 1),
           'solver_s': round(sum(r['solver_s'] for r in rs), 1), 'z3': z3.get_version_string()}
    json.dump(res, open(outp, 'w'), indent=1)
    if os.environ.get('VERIF_PRINT'):
        for f in failed:
            print('FAILED', f['name'])
        for u in und:
            print('UNDECIDED', u['name'], u['reason'][:200])
        print(prop, nobl, ndis, 'functions', len(funcs), 'secs', res['secs'], 'mir', res['mir_s'])


ASSUME = ['rustc lowers the source to the MIR it prints (the verified text is the compiler\'s MIR of /repo, dumped on every run)',
          'std, text-size, hashbrown, rustc-hash and countme behave as modelled (each modelled function is listed in trusted_base)',
          'a caller-supplied closure or predicate is a function of its arguments and terminates',
          'total correctness of termination is not shown; arithmetic is mathematical integers with explicit range checks where rustc emits overflow checks']


def extra_assumptions(prop, done):
    out = []
    for m in MODS:
        out += getattr(m, 'ASSUME', {}).get(prop, [])
    return out


if __name__ == '__main__':
    main()
