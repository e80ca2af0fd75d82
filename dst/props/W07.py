"""W07: saving never opens a wallet file to others."""
from .wcommon import *
from .W01 import real_path

NODE = False
loader.PREEMPT = ()
MODES = (0o600, 0o600, 0o600, 0o400, 0o640, 0o644, 0o660, 0o666, 0o700, 0o604, 0o444)


GROUPS = (1000, 1001, 2000, 2001)


def gen(r, tier, i):
    ops = []
    # who saves (user, group, other groups), whose the file is, and what group the directory hands down
    me = r.choice(((1000, 1000, ()), (1000, 1000, ()), (1000, 1000, (2000,)), (1000, 2000, (1000,)), (0, 0, ())))
    own = r.choice((None, None, (1000, 1000), (1000, 2000), (1000, 2000), (1000, 2001), (1001, 1001), (1001, 2000), (0, 0), (0, 2000)))
    for _ in range(r.choice((1, 2, 3, 5))):
        k = r.choice(('save',) * 8 + ('chmod', 'chmod', 'power', 'umask', 'remove'))
        o = dict(k=k, w=gen_wallet(r), s=r.getrandbits(32), mode=r.choice(MODES), umask=r.choice((0, 0o22, 0o22, 0o77, 0o27)), twice=r.random() < 0.15)
        if k == 'save':
            o['f'] = gen_faults(r, r.random() < 0.5) if r.random() < 0.6 else []
            if o['f'] and r.random() < 0.3:
                o['f'] = [dict(op=r.choice(('chmod', 'chmod', 'chown', 'chown', 'stat', 'rename', 'open')), nth=r.choice((1, 1, 2, 3)), act='error', err=r.randrange(8), sticky=r.random() < 0.3)]
        ops.append(o)
    return dict(ops=ops, path=r.choice(WPATHS), exist=r.random() < 0.8, mode=r.choice(MODES), old=gen_wallet(r), umask=r.choice((0, 0o22, 0o22, 0o77)),
                me=me, own=own, sgid=r.choice((None, None, None, None, 2000, 2001)), pw=r.random() < 0.3, meta=r.choice(('ordered', 'loose')), sector=r.choice((512, 64)))


def run(ctx):
    plan, k = ctx.plan, ctx.k
    fs = boot(ctx, meta=plan['meta'], sector=plan['sector'])
    fs.setup_link('/home/u/link.json', 'real/a.json')
    ns = ctx.ns
    k.hooks['getpass'] = lambda p: (_ for _ in ()).throw(EOFError())
    path, rp = plan['path'], real_path(plan['path'])
    ids = {}
    limit = [None]            # what others may do with the content while an operation runs: {principal: bits}
    me = plan.get('me') or (1000, 1000, ())
    others = [(u, frozenset(g for x, g in enumerate(GROUPS) if b >> x & 1)) for u in (1000, 1001, 1002) for b in range(16) if u != me[0]]
    if plan.get('sgid'):
        for d in ('/home/u', '/home/u/sub', '/home/u/real'):
            n = fs.peek(d)
            n.mode, n.gid = 0o2775, plan['sgid']
            n.dmode, n.down = n.mode, (n.uid, n.gid)

    def bits(m, u, g):
        """What each of the others may do with a file."""
        return {o: (m >> 6 if o[0] == u else m >> 3 if g in o[1] else m) & 7 for o in others}
    marks = []                # content to look for
    umask = [plan['umask']]
    pw = b'pass word' if plan['pw'] else None

    def holds(n):
        for d in [bytes(n.data), bytes(n.disk)] + [w[2] for w in n.pend if w[0] == 'w']:
            if any(m in d for m in marks):
                return True
        return False

    def look(when):
        if limit[0] is None:
            return
        for n in fs.all_inodes():
            if n.kind == 'f' and n.mode & 0o077 and holds(n):
                b = bits(n.mode, n.uid, n.gid)
                for o in others:
                    if b[o] & ~limit[0][o]:
                        raise Violation('opened', '%s: a file with the wallet has mode %03o, owner %d and group %d; user %d in groups %s should have %o only' % (
                            when, n.mode, n.uid, n.gid, o[0], sorted(o[1]), limit[0][o]))
    fs.watch = lambda op, p, th: look('during %s %s' % (op, p)) if op in MOD else None

    def mode():
        st = fs.peek(rp)
        return None if st is None else st.mode

    def owner():
        st = fs.peek(rp)
        return None if st is None else (st.uid, st.gid)

    def proc():
        p = fs.proc('u%d' % len(fs.allprocs), uid=me[0], gid=me[1], groups=me[2])
        p.umask = umask[0]
        return p

    def setmode(m, own=None):
        limit[0] = None
        n = fs.peek(rp)
        n.mode = m
        if own is not None:
            n.uid, n.gid = own
        in_proc(k, fs, lambda p: p.fs.sync())
        n.dmode, n.down = n.mode, (n.uid, n.gid)

    def mark(w):
        ids[w.id] = w
        for s in (w.secrets() if pw is None and w.prv is not None else []):
            if len(s) > 20:
                marks.append(s)
        if w.id[0] in ('HD', 'HDpub'):
            marks.append(w.id[2].hex().encode())
        if w.prv is None:
            marks.append((w.id[1] or w.id[2]).hex().encode()[2:66])

    if plan['exist']:
        w = Wal(ns, plan['old'])
        in_proc(k, fs, lambda p: save(k, ns, Call('save'), rp, w, pw, None))
        mark(w)
        setmode(plan['mode'], plan.get('own'))
    for o in plan['ops']:
        if o['k'] == 'power':
            limit[0] = None
            k.at(k.now, lambda: fs.crash('power'))
            k.run(k.now + 1)
            continue
        if o['k'] == 'umask':
            umask[0] = o['umask']
            continue
        if o['k'] == 'chmod':
            if mode() is not None:
                setmode(o['mode'], plan.get('own') if o['s'] & 1 else None)
            continue
        if o['k'] == 'remove':
            if mode() is not None:
                def go(p):
                    os.unlink(rp)
                    p.fs.sync()
                in_proc(k, fs, go)
            marks[:] = []
            continue
        old, owned = mode(), owner()
        w = Wal(ns, o['w'])
        mark(w)
        limit[0] = bits(0o666 & ~umask[0], me[0], plan.get('sgid') or me[1]) if old is None else bits(old, *owned)
        # copies left behind earlier by a crash keep the mode they had then: only what is newly opened counts
        for n in fs.all_inodes(True):
            if n.kind == 'f' and holds(n):
                b, d = bits(n.mode, n.uid, n.gid), bits(n.dmode, *n.down)
                limit[0] = {o: limit[0][o] | b[o] | d[o] for o in others}
        c = Call('save', w)
        ctl = Ctl(fs, [dict(f, nostat=path == 'link.json') for f in o['f']])
        n0 = k.faults.get('power-loss', 0)
        th = proc().spawn(lambda: save(k, ns, c, path, w, pw, ctl))
        if not k.run_until(lambda: th.done, k.now + 3600 * SEC, SEC):
            raise Violation('stuck', 'a save did not come back')
        if th.error is not None:
            raise th.error
        if ctl.fired:
            ctx.nontrivial = True
        what = 'after a save that ' + ('returned' if c.ok else 'raised %r' % c.raised if c.raised is not None else 'was cut short')
        look(what)
        m = mode()
        k.record('mode', old, m, what)
        if c.ok:
            if old is not None and not [f for f in ctl.fired if f[0] == 'stat']:   # then it cannot know the old mode
                now = owner()
                free = bool([f for f in ctl.fired if f[0] == 'chown'])
                lost = now[1] != owned[1]         # then the group's rights are withdrawn
                if m != old and not (lost and m & 0o700 == old & 0o700 and not m & ~old):
                    raise Violation('mode-changed', '%s the wallet file has mode %03o instead of %03o' % (what, m, old))
                if not free and (lost and (me[0] == 0 or owned[1] == me[1] or owned[1] in me[2]) or me[0] == 0 and now[0] != owned[0]):
                    raise Violation('owner-changed', '%s the wallet file belongs to user %d and group %d instead of %d and %d' % ((what,) + now + owned))
                if lost or now != (me[0], me[1]):
                    k.probe('other-owner')
            if old is None and not m & 0o400:
                raise Violation('mode-changed', '%s the owner cannot read the new wallet file (mode %03o)' % (what, m))
        elif c.raised is not None:
            if not ctl.fired and not (old is not None and not old & 0o200):
                raise Violation('save-failed', 'saving raised %r although nothing failed' % (c.raised,))
            if old is not None and m != old and not ctl.fired:
                raise Violation('mode-changed', '%s the wallet file has mode %03o instead of %03o' % (what, m, old))
        if k.faults.get('power-loss', 0) > n0:
            limit[0] = None
