"""Package log: C11-C14, C23."""
import json

from .ev import simple

LOG_SRC = ['log/*.go']


def c11(ctx):
    def prep(t):
        return t
    simple(ctx, 'logger', 'LogTree', ctx.pick(8000, 80000), 'loggers', instrument=LOG_SRC, prep=prep)


def c12(ctx):
    b = ctx.go_build('./drv/handlers', instrument=LOG_SRC)
    recs = []
    for env, n in (({}, ctx.pick(12000, 150000)), ({'VDRV_ASYNC': '1'}, ctx.pick(6000, 60000))):
        for k, evs in sorted(ctx.drive(b, n, env=dict(env, TMPDIR=ctx.scratch)).items()):
            recs += crash(ctx, evs, 'handlers', k)
    ctx.note(compositions=len(recs), records=sum(len(r['recs']) for r in recs), deliveries=sum(len(r['out']) for r in recs))
    ctx.sample(json.dumps(recs[11])[:600])
    ctx.check_records('Handlers', recs, what='handler composition', chunk=1500, timeout=ctx.pick(300, 2400))


def crash(ctx, evs, what, k):
    """The records of one driver scenario; a crash or hang of the driver is a violation."""
    out = [e for e in evs if e['e'] == 'Rec']
    for e in evs:
        if e['e'] in ('Crash', 'Hang'):
            ctx.violation('%s %s' % (what, e['e']), '%s: scenario %d: %s %s' % (what, k, e['e'], e.get('msg', '')[:800]),
                          {'kind': 'crash', 'scenario': k, 'event': e, 'seed': ctx.seed})
    return out


def c13(ctx):
    simple(ctx, 'glog', 'Glog', ctx.pick(8000, 80000), 'glog filter', instrument=LOG_SRC)


def text(s):
    return bytes(s).decode('latin-1')


def logtext(ctx, mode, n):
    b = ctx.go_build('./drv/logtext')
    recs = []
    for k, evs in sorted(ctx.drive(b, n, env={'VDRV_MODE': mode}).items()):
        recs += crash(ctx, evs, 'log ' + mode, k)
    for r in recs:
        r['str'] = text(r['out'])
    return recs


def c14(ctx):
    recs = logtext(ctx, 'text', ctx.pick(16000, 200000))
    ctx.sample(next(r['str'] for r in recs if r['kind'] == 'logfmt'))
    ctx.sample(next(r['str'] for r in recs if r['kind'] == 'term'))
    ctx.check_records('LogText', recs, what='text format', chunk=2000, timeout=ctx.pick(300, 2400))


def c35(ctx):
    b = ctx.go_build('./drv/logentry')
    recs = []
    for k, evs in sorted(ctx.drive(b, ctx.pick(600, 12000)).items()):
        recs += crash(ctx, evs, 'log entry', k)
    ctx.note(records=len(recs), processes=sum(r['kind'] == 'end' for r in recs), depths=len({r['depth'] for r in recs if r['kind'] == 'entry'}))
    ctx.sample(json.dumps(next(r for r in recs if r['kind'] == 'entry' and r['depth'] > 1)))
    ctx.check_records('LogEntry', recs, what='log entry point', chunk=2500, timeout=ctx.pick(300, 2400))


def c23(ctx):
    recs = logtext(ctx, 'json', ctx.pick(12000, 150000))
    for r in recs:
        for p in r['pairs']:  # text that is not UTF-8 is rendered with replacement characters
            p['lossy'] = 1 if p['tv']['t'] == 'str' and bytes(p['tv']['b']).decode('utf-8', 'replace').encode() != bytes(p['tv']['b']) else 0
    ctx.sample(recs[5]['str'])
    ctx.check_records('LogJson', recs, what='JSON format', chunk=1500, timeout=ctx.pick(300, 2400))


def c29(ctx):
    def prep(t):
        t['media'] = [e for e in t['ev'] if e['e'] == 'Medium']
        t['ev'] = [e for e in t['ev'] if e['e'] != 'Medium']
        t['len'] = len(t['ev'])
        return t
    simple(ctx, 'sinks', 'Sinks', ctx.pick(4000, 40000), 'sinks', instrument=LOG_SRC, prep=prep, env={'TMPDIR': ctx.scratch})
    simple(ctx, 'sinks', 'Sinks', ctx.pick(400, 4000), 'network sinks', instrument=(), prep=prep, env={'TMPDIR': ctx.scratch}, test='TestNet')


CHECKS = {'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14, 'C23': c23, 'C29': c29, 'C35': c35}
