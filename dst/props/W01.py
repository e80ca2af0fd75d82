"""W01: a crash while saving never loses a wallet."""
from .wcommon import *

NODE = False
loader.PREEMPT = ()

TARGETS = ('/home/u/w.json', 'w.json', 'link.json', 'sub/w.json', './w.json', '/home/u/sub/../w.json', 'abs.json', 'chain.json', '../u/w.json')


def gen(r, tier, i):
    ops = []
    n = r.choice((1, 2, 2, 3, 4, 6))
    heavy = r.random() < 0.08
    for j in range(n):
        o = dict(k=r.choice(('save',) * 6 + ('pair', 'pair', 'power')), f=r.randrange(2), w=gen_wallet(r, light=not heavy), w2=gen_wallet(r, light=not heavy),
                 same=r.random() < 0.3, wait=round(r.choice((0, 0.001, 0.5, 5, 40)) * r.random(), 4))
        o['faults'] = gen_faults(r, True, 1) if r.random() < 0.75 else []
        o['faults2'] = gen_faults(r, True, 1) if r.random() < 0.2 else []
        if r.random() < 0.15:
            o['faults'] += gen_faults(r, False, 1)
        o['after'] = r.random() < 0.4
        ops.append(o)
    return dict(ops=ops, files=[r.choice(TARGETS), r.choice(TARGETS)], exist=[r.random() < 0.85, r.random() < 0.7], old=[gen_wallet(r), gen_wallet(r)],
                pw=gen_pw(r), sector=r.choice((16, 64, 512, 4096)), meta=r.choice(('ordered', 'ordered', 'loose')), pre=r.choice((0, 0.1, 0.4)),
                mode=r.choice((0o600, 0o644, 0o400)), s=r.getrandbits(32))


def real_path(p):
    return {'link.json': '/home/u/real/a.json', 'abs.json': '/home/u/real/b.json', 'chain.json': '/home/u/real/b.json'}.get(p) or \
        os.path.normpath(os.path.join('/home/u', p))


def run(ctx):
    plan, k = ctx.plan, ctx.k
    fs = boot(ctx, sector=plan['sector'], meta=plan['meta'])
    fs.setup_link('/home/u/link.json', 'real/a.json')
    fs.setup_link('/home/u/abs.json', '/home/u/real/b.json')
    fs.setup_link('/home/u/chain.json', 'abs.json')
    ns = ctx.ns
    k.hooks['getpass'] = lambda p: (_ for _ in ()).throw(EOFError())
    pw = b_pw(plan['pw'])
    files = {}

    class File(object):
        pass
    for i, path in enumerate(plan['files']):
        rp = real_path(path)
        if rp in files:
            continue
        f = files[rp] = File()
        f.path, f.rp = path, rp
        f.vis = f.dur = None
        if plan['exist'][i]:
            w = Wal(ns, plan['old'][i])
            in_proc(k, fs, lambda p: save(k, ns, Call('save'), rp, w, pw, None))
            in_proc(k, fs, lambda p: p.fs.sync())
            n = fs.peek(rp)
            if n is None:
                raise Violation('not-saved', 'saving returned but there is no file %s' % rp)
            n.mode = n.dmode = plan['mode']
            f.vis, f.dur = {w.id}, {w.id}
        else:
            f.vis = f.dur = {None}
    flist = [files[real_path(p)] for p in plan['files']]
    ids = {}

    def check(f, what, power):
        """A fresh process loads the file; it must be one of the allowed wallets."""
        allowed = f.dur if power else f.vis

        def go(p):
            c = load(k, ns, Call('load'), f.path, pw, None)
            return c
        c = in_proc(k, fs, go, 'boot')
        if c.ok:
            got = c.result[1]
            if got not in allowed:
                raise Violation('wrong-wallet', '%s: %s loads as %s, allowed %s' % (what, f.path, fmt(got), fmt(sorted(map(repr, allowed)))))
            f.vis = {got}
            if power:
                f.dur = {got}
        else:
            if None in allowed and fs.peek(f.rp) is None:
                f.vis = {None}
                if power:
                    f.dur = {None}
                return
            if None in allowed:
                # no wallet existed there: a file that holds nothing usable must still be refused, not crash the check
                if isinstance(c.raised, Exception):
                    raise Violation('unusable-file', '%s: %s exists but does not load: %r' % (what, f.path, c.raised))
            raise Violation('wallet-lost', '%s: %s does not load: %r (file %s)' % (what, f.path, c.raised, fmt(fs.content(f.rp))))

    def allcheck(what, power):
        seen = []
        for f in flist:
            if f not in seen:
                seen.append(f)
                check(f, what, power)

    def power():
        k.at(k.now, lambda: fs.crash('power'))
        k.run(k.now + 1)
        allcheck('after a power loss', True)

    for o in plan['ops']:
        f = flist[o['f']]
        if o['k'] == 'power':
            power()
            ctx.nontrivial = True
            continue
        calls = []
        k.preempt_p = plan['pre'] if o['k'] == 'pair' else 0
        crashes = [0, 0]
        n0 = k.faults.get('power-loss', 0), k.faults.get('kill', 0)
        p = fs.proc('user%d' % len(fs.allprocs))
        specs = [o['w']] if o['k'] == 'save' else [o['w'], o['w2']]
        ths = []
        for j, spec in enumerate(specs):
            w = Wal(ns, spec)
            c = Call('save', w)
            calls.append(c)
            ctl = Ctl(fs, o['faults'] if j == 0 else o['faults2'])
            pr = p if j == 0 or o['same'] else fs.proc('user%d' % len(fs.allprocs))
            ths.append(pr.spawn(lambda c=c, w=w, ctl=ctl: save(k, ns, c, f.path, w, pw, ctl)))
        if not k.run_until(lambda: all(t.done for t in ths), k.now + 3600 * SEC, SEC):
            raise Violation('stuck', 'saving did not come back')
        for t in ths:
            if t.error is not None:
                raise t.error
        k.preempt_p = 0
        crashed = k.faults.get('power-loss', 0) > n0[0]
        killed = k.faults.get('kill', 0) > n0[1]
        for c in calls:
            if c.raised is not None and len(calls) == 1 and not [f for f in c.ctl.fired if f[1] in ('error', 'interrupt-before', 'interrupt-after')]:
                raise Violation('save-failed', 'saving raised %r although nothing failed' % (c.raised,))
        done = [c for c in calls if c.ok]
        pend = [c for c in calls if not c.ok]
        before_v, before_d = set(f.vis), set(f.dur)
        if done:
            # a completed save that another completed save strictly follows cannot be the last
            last = [c for c in done if not any(d.start > c.end for d in done)]
            f.vis = {c.wal.id for c in last} | {c.wal.id for c in pend}
            f.dur = set(f.vis)
        else:
            f.vis |= {c.wal.id for c in pend}
            f.dur |= {c.wal.id for c in pend}
        if crashed or killed:
            ctx.nontrivial = True
        allcheck('after a save %s' % ('cut short by a power loss' if crashed else 'that was killed' if killed else 'that returned'), crashed)
        if done and not pend:
            f.dur = set(f.vis)
        if o['after']:
            if o['wait']:
                k.run(k.now + int(o['wait'] * SEC))
            power()
            ctx.nontrivial = True
    power()
