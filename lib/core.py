"""Seeded search, statistics, minimisation, replay and evidence: shared by all checks."""
import collections, errno, hashlib, json, multiprocessing, os, random, re, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256('\0'.join(str(p) for p in parts).encode()).digest()[:8], 'little')


class Stop(Exception):
    pass


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.runs = 0
        self.sim_seconds = 0
        self.faults = collections.Counter()
        self.traces = set()
        self.cover = set()
        self.scheds = set()
        self.counts = collections.Counter()
        self.kinds = collections.Counter()
        self.samples = []
        self.edges = 0

    def merge(self, o):
        self.evaluations += o.evaluations
        self.nontrivial |= o.nontrivial
        self.runs += o.runs
        self.sim_seconds += o.sim_seconds
        self.faults.update(o.faults)
        self.traces |= o.traces
        self.cover |= o.cover
        self.scheds |= o.scheds
        self.counts.update(o.counts)
        self.kinds.update(o.kinds)
        self.edges = max(self.edges, o.edges)
        if len(self.samples) < 6:
            self.samples.extend(o.samples[:2])


def load_known():
    """known_findings.txt: 'known: property=<id> sig=<sig> <what>' suppresses, 'fixed: ...' does not."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith('known:'):
                d = dict(p.split('=', 1) for p in l.split()[1:3])
                out.append((d['property'], d['sig'], l.split(None, 3)[3].strip()))
    return out


def errname(e):
    return errno.errorcode.get(e, str(e))


# ---------------------------------------------------------------------
# Workers

_ctx = None


def _worker_init(make_ctx):
    global _ctx
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _ctx = make_ctx()


def _worker_unit(args):
    prop, unit, seed, tier, i, deadline = args
    _ctx.stats = Stats()
    _ctx.found = []
    _ctx.tier = tier
    _ctx.deadline = deadline
    rng = random.Random(seed_of(seed, prop, i))
    err = None
    if time.time() < deadline:
        try:
            unit(_ctx, rng, i)
        except Stop:
            pass
        except Exception:
            err = traceback.format_exc()
        _ctx.stats.counts['units'] += 1
    return _ctx.stats, _ctx.found, err


class Spec:
    """What core needs to know about one property."""

    def __init__(self, prop, unit, evaluate, make_ctx, units_quick, units_thorough, rule, components, assumptions,
                 shrink=None, to_json=None, from_json=None, sample=None, measure='', technique=''):
        self.__dict__.update(locals())


def confirm(spec, case, sig, fresh):
    """The same case must violate identically on a fresh simulator, twice."""
    for _ in range(2):
        ctx = fresh()
        try:
            v = spec.evaluate(ctx, case)
        except Exception:
            v = None
        finally:
            ctx.close()
        if not v or sig not in [s for s, _ in v]:
            return None
    return [m for s, m in v if s == sig][0]


def run_check(spec, tier, seed, budget, jobs=8, verbose=False):
    t0 = time.time()
    # A small warm-up in the parent builds everything once.
    ctx = spec.make_ctx()
    nunits = spec.units_quick if tier == 'quick' else spec.units_thorough
    scale = float(os.environ.get('SIM_SCALE', '1'))
    nunits = max(8, int(nunits * scale))
    deadline = t0 + budget
    stats, found, errors = Stats(), [], []
    args = [(spec.prop, spec.unit, seed, tier, i, deadline) for i in range(nunits)]
    mp = multiprocessing.get_context('fork')
    pool = mp.Pool(jobs, _worker_init, (spec.make_ctx,))
    known = load_known()
    seen_known = {}
    try:
        for st, fnd, err in pool.imap_unordered(_worker_unit, args, 1):
            stats.merge(st)
            if err:
                errors.append(err)
                if len(errors) > 3:
                    break
            for case, sig, msg in fnd:
                k = [w for p, s, w in known if p == spec.prop and s == sig]
                if k:
                    seen_known.setdefault(sig, (k[0], msg))
                else:
                    found.append((case, sig, msg))
            if len(found) >= 4 and os.environ.get('SIM_ALL') != '1':
                break
    finally:
        pool.terminate()
        pool.join()
    if os.environ.get('SIM_SURVEY'):
        c = collections.Counter(sig for _, sig, _ in found)
        for sig, k in c.most_common():
            ex = [(case, m) for case, s, m in found if s == sig][0]
            print('   ', k, sig, '|', ex[1][:300], '|', ex[0]['plan']['phases'][-1]['nodes'][0]['args'] if 'plan' in ex[0] else '')
            json.dump(dict(property=spec.prop, sig=sig, message=ex[1], seed=seed, case=ex[0]), open('/tmp/survey-%s.json' % re.sub(r'\W', '_', sig), 'w'))
        for e in errors[:3]:
            print(e)
        print(spec.prop, stats.evaluations, len(stats.nontrivial), stats.runs, round(time.time() - t0, 1), dict(stats.counts))
        ctx.close()
        return 0
    rc = 0
    # Prefer the smallest case, one per signature.
    reported = []
    if found:
        by_sig = {}
        for case, sig, msg in found:
            c = spec.from_json(case)
            size = len(json.dumps(case))
            if sig not in by_sig or size < by_sig[sig][1]:
                by_sig[sig] = (c, size, msg)
        for sig, (case, _, msg) in sorted(by_sig.items(), key=lambda kv: kv[1][1])[:3]:
            m = confirm(spec, case, sig, spec.make_ctx)
            if m is None:
                errors.append('not reproducible: %s %s' % (sig, msg))
                continue
            if spec.shrink:
                small = spec.shrink(ctx, case, sig, time.time() + (60 if tier == 'quick' else 240))
                m2 = confirm(spec, small, sig, spec.make_ctx)
                if m2 is not None:
                    case, m = small, m2
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%s.json' % (spec.prop, hashlib.sha256(sig.encode()).hexdigest()[:10]))
            with open(path, 'w') as f:
                json.dump(dict(property=spec.prop, sig=sig, message=m, seed=seed, case=spec.to_json(case)), f, indent=1)
            print('%s: %s' % (sig, m))
            print('VIOLATION property=%s replay=%s' % (spec.prop, path))
            reported.append(sig)
            rc = 1
    for sig, (what, msg) in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (spec.prop, what))
    ctx.close()
    wall = time.time() - t0
    if errors:
        sys.stderr.write('\n'.join(errors[:3]) + '\n')
        if rc == 0:
            rc = 2
    cov = dict(
        evaluations=stats.evaluations,
        distinct_nontrivial=len(stats.nontrivial),
        rule=spec.rule,
        samples=stats.samples[:6],
        units=stats.counts['units'],
        units_planned=nunits,
        simulated_runs=stats.runs,
        simulated_runs_per_hour=int(stats.runs / max(wall, 1e-3) * 3600),
        seeds_per_hour=int(stats.counts['units'] / max(wall, 1e-3) * 3600),
        simulated_seconds=int(stats.sim_seconds),
        faults_injected=dict(stats.faults.most_common()),
        kinds=dict(stats.kinds.most_common()),
        distinct_execution_traces=len(stats.traces),
        distinct_schedules=len(stats.scheds),
        distinct_coverage_states=len(stats.cover),
        state_measure=spec.measure,
        counters=dict(stats.counts),
        components=spec.components,
    )
    ev = dict(property=spec.prop, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=spec.assumptions, wall_s=round(wall, 2), violations=len(reported))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', spec.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d evaluations, %d distinct non-trivial, %d simulated runs, %d units in %.1f s%s' % (
        spec.prop, stats.evaluations, len(stats.nontrivial), stats.runs, stats.counts['units'], wall,
        '' if rc == 0 else ' (exit %d)' % rc))
    if verbose:
        for k, v in stats.counts.most_common():
            print('   ', k, v)
        for k, v in stats.kinds.most_common():
            print('   kind', k, v)
        for k, v in stats.faults.most_common():
            print('   fault', k, v)
    if rc == 0 and stats.evaluations == 0:
        print('nothing was evaluated')
        rc = 2
    return rc
