#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [-v]: decide one property by simulation."""
import json, os, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import core


def spec_for(prop):
    if prop.startswith('C'):
        import pctx, props_p as P
        unit, ev, q, t, rule = P.TABLE[prop]

        def make():
            c = pctx.PCtx()
            c.spec = s
            return c
        s = core.Spec(prop, unit, ev, make, q, t, rule, dict(real=P.REAL, simulated=P.STUB), P.PSIM_ASSUME,
                      shrink=pctx.shrink, to_json=pctx.case_json, from_json=pctx.case_from,
                      measure='execution traces: hash over every simulated system call with its operands and result; coverage states: '
                              'hash over the set of basic blocks of lacc executed in the run; schedules: hash over (operation, process) of every switch')
        return s
    import props_g as G
    return G.spec_for(prop)


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None
    verbose = False
    i = 1
    while i < len(a):
        if a[i] == '--tier':
            tier = a[i + 1]; i += 1
        elif a[i] == '--seed':
            seed = int(a[i + 1]); i += 1
        elif a[i] == '--replay':
            replay = a[i + 1]; i += 1
        elif a[i] == '-v':
            verbose = True
        i += 1
    spec = spec_for(prop)
    if replay:
        j = json.load(open(replay))
        case = spec.from_json(j['case'])
        ctx = spec.make_ctx()
        v = spec.evaluate(ctx, case) or []
        ctx.close()
        for sig, msg in v:
            print('%s: %s' % (sig, msg))
        if j['sig'] in [s for s, _ in v]:
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            return 1
        print('the replayed case does not violate %s' % prop)
        return 0
    budget = float(os.environ.get('SIM_BUDGET', 420 if tier == 'quick' else 2400))
    return core.run_check(spec, tier, seed, budget, jobs=int(os.environ.get('SIM_JOBS', '8')), verbose=verbose)


if __name__ == '__main__':
    sys.exit(main())
