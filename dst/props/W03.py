"""W03: concurrent saves and loads see whole wallets (an atomic register)."""
from .wcommon import *
from .W01 import real_path

NODE = False
loader.PREEMPT = ('wallet/__init__.py', 'wallet/hdwallet.py', 'wallet/address.py')
PATHS = ('/home/u/real/a.json', 'link.json', 'real/a.json', './real/../real/a.json')


def gen(r, tier, i):
    th = []
    heavy = r.random() < 0.05
    made = [gen_wallet(r)]
    again = r.choice((0, 0, 0.3, 0.7))          # saves of a wallet that was saved before
    for t in range(r.choice((2, 2, 3, 3, 4, 5))):
        ops = []
        for j in range(r.choice((1, 2, 2, 3, 4))):
            made.append(gen_wallet(r, light=not heavy) if r.random() >= again else r.choice(made))
            o = dict(k=r.choice(('save', 'save', 'load')), w=made[-1], p=r.randrange(len(PATHS)),
                     gap=round(r.choice((0, 0, 0, 0.0005, 0.01, 1)) * r.random(), 5), f=[])
            x = r.random()
            if x < 0.06:
                o['f'] = gen_faults(r, False, 1)
                o['f'][0]['nostat'] = True
            elif x < 0.10:
                f = gen_faults(r, True, 1)[0]
                f['act'] = f['act'].replace('power', 'kill')
                o['f'] = [f]
            ops.append(o)
        th.append(dict(proc=r.randrange(3), ops=ops))
    return dict(threads=th, exist=r.random() < 0.8, old=made[0], pw=gen_pw(r), pre=r.choice((0.05, 0.2, 0.5)), pre2=r.choice((0.0, 0.02, 0.1)),
                crash=round(r.uniform(0, 0.3), 4) if r.random() < 0.12 else None, meta=r.choice(('ordered', 'loose')))


SHRINK = ('threads',)


def simplify(plan):
    for i, t in enumerate(plan['threads']):
        for j in range(len(t['ops'])):
            if len(t['ops']) > 1:
                yield dict(plan, threads=plan['threads'][:i] + [dict(t, ops=t['ops'][:j] + t['ops'][j + 1:])] + plan['threads'][i + 1:])


def linearizable(init, ops):
    """ops: (start, end or None, kind, value, optional).  Is there an order of an atomic
    register that explains them?"""
    n = len(ops)
    seen = set()
    inf = 1 << 60
    full = 0
    for i, o in enumerate(ops):
        if not o[4]:
            full |= 1 << i
    stack = [(0, init)]
    while stack:
        done, val = stack.pop()
        if done & full == full:
            return True
        if (done, val) in seen:
            continue
        seen.add((done, val))
        lim = min([o[1] if o[1] is not None else inf for i, o in enumerate(ops) if not done >> i & 1 and not o[4]] + [inf])
        for i, (s, e, kind, v, opt) in enumerate(ops):
            if done >> i & 1 or s > lim:
                continue
            if kind == 'w':
                stack.append((done | 1 << i, v))
            elif v == val:
                stack.append((done | 1 << i, val))
    return False


def run(ctx):
    plan, k = ctx.plan, ctx.k
    fs = boot(ctx, meta=plan['meta'])
    fs.setup_link('/home/u/link.json', 'real/a.json')
    k.hooks['getpass'] = lambda p: (_ for _ in ()).throw(EOFError())
    pw = b_pw(plan['pw'])
    rp = '/home/u/real/a.json'
    init = None
    ns0 = ctx.ns
    if plan['exist']:
        w = Wal(ns0, plan['old'])
        in_proc(k, fs, lambda p: save(k, ns0, Call('save'), rp, w, pw, None))
        in_proc(k, fs, lambda p: p.fs.sync())
        init = w.id
    nss, procs = {}, {}
    calls, ths = [], []
    for t in plan['threads']:
        if t['proc'] not in procs:
            procs[t['proc']] = fs.proc('p%d' % t['proc'])
            nss[t['proc']] = ns0 if not nss else loader.fresh(False)
        ns = nss[t['proc']]
        todo = []
        for o in t['ops']:
            w = Wal(ns, o['w']) if o['k'] == 'save' else None
            c = Call(o['k'], w)
            c.faults = o['f']
            todo.append((o, c))

        def body(todo=todo, ns=ns):
            for o, c in todo:
                if o['gap']:
                    k.sleep(int(o['gap'] * SEC))
                calls.append(c)
                ctl = Ctl(fs, o['f'])
                if o['k'] == 'save':
                    save(k, ns, c, PATHS[o['p']], c.wal, pw, ctl)
                else:
                    load(k, ns, c, PATHS[o['p']], pw, ctl)
        ths.append(procs[t['proc']].spawn(body))
    k.preempt_p = plan['pre']
    k.preempt_budget = 4000
    crashed = []
    if plan['crash'] is not None:
        def crash():
            k.nevent += 1
            crashed.append(k.nevent)
            fs.crash('power')
        k.after(int(plan['crash'] * SEC), crash)
    if not k.run_until(lambda: all(t.done for t in ths), k.now + 3600 * SEC, SEC):
        raise Violation('stuck', 'concurrent saves and loads did not come back')
    k.preempt_p = 0
    for t in ths:
        if t.error is not None:
            raise t.error
    k.run(k.now + 2 * SEC)
    final = Call('load')
    in_proc(k, fs, lambda p: load(k, ns0, final, rp, pw, None), 'last')
    calls.append(final)
    ops, text = [], []
    for c in calls:
        faulty = bool(c.ctl is not None and [f for f in c.ctl.fired if f[1] != 'short'])
        text.append('%s %s..%s %s' % (c.kind + (' ' + c.wal.name if c.wal else ''), c.start, c.end,
                                      'cut' if c.result is None else 'raised %r' % (c.raised,) if not c.ok else fmt(c.result[1][:2], 60)))
        if c.start is None:
            continue
        if c.kind == 'save':
            if c.ok:
                ops.append((c.start, c.end, 'w', c.wal.id, False))
            else:
                if c.raised is not None and not faulty:
                    raise Violation('save-failed', 'a save raised %r although nothing but other saves and loads went on\n%s' % (c.raised, '\n'.join(text)))
                ops.append((c.start, c.end, 'w', c.wal.id, True))
        else:
            if c.ok:
                ops.append((c.start, c.end, 'r', c.result[1], False))
            elif c.raised is not None and not faulty:
                if isinstance(c.raised, FileNotFoundError):
                    ops.append((c.start, c.end, 'r', None, False))
                else:
                    raise Violation('load-failed', 'a load raised %r although nothing but saves and loads went on\n%s' % (c.raised, '\n'.join(text)))
    if crashed:
        # whatever was under way when the power went takes effect before it or never
        ops = [(s, e if e is not None else crashed[0], kind, v, opt) for s, e, kind, v, opt in ops]
    ctx.nontrivial = k.nswitch > 10
    good = linearizable(init, ops)
    if crashed and not good:
        # a load may see a save that is not finished yet, and such a save may still be lost
        # with the power: what is found afterwards is judged by the saves alone
        good = linearizable(init, [o for o in ops if o[0] < crashed[0]]) and \
            linearizable(init, [o for o in ops if o[2] == 'w' or o[0] > crashed[0]])
    if not good:
        raise Violation('not-atomic', 'no order of the saves explains what the loads returned (file held %s at first)\n%s'
                        % (fmt(init and init[:2], 60), '\n'.join(text)))
