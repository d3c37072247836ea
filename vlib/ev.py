"""Event package: C01..C08."""
from .core import Infra, trim

FEED_SRC = ['event/*.go']


TRACE_CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'


def feed_cfg(count, unsub):
    return '''CONSTANTS
  Subs = {1,2,3,4,5,6}
  Chans = {1,2,3,4}
  Vals = {1,2,3,4,5,6,7,8}
  CheckCount = %s
  CheckUnsub = %s
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
''' % (count, unsub)


FEED_MC = '''CONSTANTS
  Subs = %s
  Vals = %s
  Cap <- CapV
  MaxRecv = %d
  AllRecv = %s
SPECIFICATION Spec
INVARIANTS TypeOK TokenOK
PROPERTIES %s
CHECK_DEADLOCK FALSE
'''


def feed_traces(ctx, n, env=None):
    b = ctx.go_build('./drv/feed', instrument=FEED_SRC)
    got = ctx.drive(b, n, env=env)
    tr = []
    for k, evs in sorted(got.items()):
        h, ev = trim(evs)
        tr.append({'id': k, 'kind': h['kind'], 'caps': h['caps'], 'subch': h['subch'], 'ev': ev})
    ctx.note(scenarios=len(tr), events=sum(len(t['ev']) for t in tr))
    if tr:
        t = tr[len(tr) // 2]
        ctx.sample('%s scenario %d: %s' % (t['kind'], t['id'], ' '.join(show(e) for e in t['ev'][:30])))
    return tr


def show(e):
    return e['e'] + '(' + ','.join('%s=%s' % (k, v) for k, v in e.items() if k not in ('e', 'o', 'stack', 'msg')) + ')'


def feed_key(t, bad):
    return '%s refused %s' % (t['kind'], (bad or {}).get('e', 'end'))


def c01(ctx):
    ctx.assumptions += ['schedules are those reachable by the seeded scheduler (a random virtual delay before every statement of package event)',
                        'at most 6 subscriptions, 4 channels and 8 sends per history']
    feed_mc(ctx)
    tr = feed_traces(ctx, ctx.pick(6000, 60000))
    ctx.check_traces('FeedTrace', feed_cfg('TRUE', 'FALSE'), tr, 'exactly-once delivery and count', key=feed_key, timeout=ctx.pick(240, 1800))


def feed_mc(ctx):
    ctx.mc('FeedImplMC', FEED_MC % ('{1,2}', '{1,2}', 1, 'FALSE', 'Refines UnsubReturns'), timeout=600)
    if ctx.thorough:
        ctx.mc('FeedImplMC', FEED_MC % ('{1,2}', '{1,2}', 1, 'TRUE', 'Refines UnsubReturns SendsReturn'), timeout=1200, name='FeedImplMC_receivers_never_stop')
        ctx.mc('FeedImplMC', FEED_MC % ('{1,2,3}', '{1,2}', 1, 'FALSE', 'Refines'), timeout=3000, name='FeedImplMC_3subs', heap='20g')


def attribute(ctx, module, cfg, rejected, control, what):
    """Rejections by a specification that says more than the property count only if the control group (the same programs
    without the operations the property is about) is accepted."""
    if not rejected:
        return False
    _, rej, und = ctx.accept(module, cfg, control, timeout=240)
    ctx.log('%s: control group of %d histories, %d refused' % (what, len(control), len(rej)))
    return not rej


def c02(ctx):
    tr = feed_traces(ctx, ctx.pick(8000, 100000), env={'VDRV_BIG': '3'})
    for t in tr:
        t['ev'] = [e for e in t['ev'] if e['e'] in ('SendCall', 'SendRet', 'RecvRet')]
    ctx.check_traces('FeedOrder', TRACE_CFG, tr, 'common order of sends', key=feed_key, timeout=ctx.pick(240, 1800))


def c03(ctx):
    n = ctx.pick(6000, 60000)
    tr = feed_traces(ctx, n)
    ctx.check_traces('FeedCancel', TRACE_CFG, tr, 'cancellation', key=feed_key, timeout=ctx.pick(200, 1800))
    cfg = feed_cfg('TRUE', 'TRUE')
    _, rej, _ = ctx.accept('FeedTrace', cfg, tr, timeout=ctx.pick(240, 1800))
    ctx.log('FeedTrace: %d histories refused' % len(rej))
    if rej and attribute(ctx, 'FeedTrace', cfg, rej, feed_traces(ctx, 3000, env={'VDRV_NOUNSUB': '1'}), 'cancellation'):
        ctx.check_traces('FeedTrace', cfg, [tr[k] for k in sorted(rej)], 'cancellation affects other subscriptions', key=feed_key)


def c04(ctx):
    cfg = """CONSTANTS
  Subs = {1,2,3,4}
  Chans = {1,2,3,4}
  Vals = {1,2,3,4,5,6}
  CheckCount = TRUE
  CheckUnsub = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
    b = ctx.go_build('./drv/feedtyped', instrument=FEED_SRC)

    def get(n, env=None):
        tr = []
        for k, evs in sorted(ctx.drive(b, n, env=env).items()):
            h, ev = trim(evs)
            tr.append({'id': k, 'kind': 'typed', 'caps': h['caps'], 'subch': h['subch'], 'sty': h['sty'], 'vty': h['vty'], 'ev': ev})
        return tr
    tr = get(ctx.pick(6000, 60000))
    ctx.note(scenarios=len(tr), rejected_calls=sum(1 for t in tr for e in t['ev'] if e['e'] in ('SubPanic', 'SendPanic')))
    ctx.sample('types %s values %s: %s' % (tr[7]['sty'], tr[7]['vty'], ' '.join(show(e) for e in tr[7]['ev'][:25])))
    _, rej, _ = ctx.accept('FeedTyped', cfg, tr, timeout=ctx.pick(240, 1800))
    ctx.log('FeedTyped: %d histories, %d refused' % (len(tr), len(rej)))
    if rej and attribute(ctx, 'FeedTyped', cfg, rej, get(3000, {'VDRV_NOBAD': '1'}), 'type safety'):
        ctx.check_traces('FeedTyped', cfg, [tr[k] for k in sorted(rej)], 'type safety', key=feed_key)


CHECKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04}


def label(ev, name, field, to, default):
    """Labels each call event with a field of its return event."""
    res = {e['o']: e.get(field, default) for e in ev if e['e'] == name + 'Ret'}
    for e in ev:
        if e['e'] == name + 'Call':
            e[to] = res.get(e['o'], default)


MUX_MC = """CONSTANTS
 Subs = {1,2}
 Posters = %s
 Late = %s
SPECIFICATION Spec
INVARIANTS NoPanic Quiet Gone
PROPERTIES StopReturns PostReturns UnsubReturns NoLateDelivery
CHECK_DEADLOCK FALSE
"""


def c05(ctx):
    ctx.mc('TypeMuxImpl', MUX_MC % ctx.pick(('{1}', '{2}'), ('{1,2}', '{2}')), timeout=ctx.pick(600, 2400))
    b = ctx.go_build('./drv/mux', instrument=FEED_SRC)
    tr = []
    for k, evs in sorted(ctx.drive(b, ctx.pick(6000, 80000)).items()):
        h, ev = trim(evs)
        label(ev, 'Recv', 'v', 'r', -1)
        tr.append({'id': k, 'types': h['types'], 'vty': h['vty'], 'ev': ev})
    ctx.note(scenarios=len(tr), events=sum(len(t['ev']) for t in tr))
    ctx.sample('types %s posts %s: %s' % (tr[5]['types'], tr[5]['vty'], ' '.join(show(e) for e in tr[5]['ev'][:25])))
    ctx.check_traces('TypeMux', TRACE_CFG, tr, 'type multiplexer', key=lambda t, bad: 'mux refused %s' % (bad or {}).get('e'),
                     timeout=ctx.pick(240, 2400))


CHECKS['C05'] = c05


def simple(ctx, drv, module, n, what, instrument=FEED_SRC, prep=None, timeout=None, **drive):
    b = ctx.go_build('./drv/' + drv, instrument=instrument)
    tr = []
    for k, evs in sorted(ctx.drive(b, n, **drive).items()):
        h, ev = trim(evs)
        t = {k: v for k, v in h.items() if k != 'e'}
        t.update(id=k, ev=ev)
        if prep:
            t = prep(t)
        tr.append(t)
    ctx.note(scenarios=len(tr), events=sum(len(t['ev']) for t in tr))
    ctx.sample('%s: %s' % (what, ' '.join(show(e) for e in tr[len(tr) // 3]['ev'][:25])))
    ctx.check_traces(module, TRACE_CFG, tr, what, key=lambda t, bad: '%s refused %s' % (module, (bad or {}).get('e')),
                     timeout=timeout or ctx.pick(240, 2400))
    return tr


def c06(ctx):
    def prep(t):
        label(t['ev'], 'Err', 'v', 'r', -2)
        return t
    simple(ctx, 'producer', 'Producer', ctx.pick(12000, 100000), 'producer subscription', prep=prep)


def c07(ctx):
    def prep(t):
        with_err = next((e['withErr'] for e in t['ev'] if e['e'] == 'Kind'), True)
        t['ev'] = [dict(e) for e in t['ev'] if e['e'] != 'Kind']
        t['witherr'] = 1 if with_err else 0
        return t
    simple(ctx, 'resub', 'Resub', ctx.pick(12000, 100000), 'resubscription', prep=prep)


def c08(ctx):
    def prep(t):
        label(t['ev'], 'Count', 'n', 'n', -2)
        return t
    simple(ctx, 'scope', 'Scope', ctx.pick(10000, 100000), 'subscription scope', prep=prep)


CHECKS.update(C06=c06, C07=c07, C08=c08)
