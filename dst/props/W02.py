"""W02: a failed save or load is reported and harms nothing."""
import gc
import json

from .wcommon import *
from .W01 import real_path

NODE = False
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'wrongpw.json')) as _f:
    NEAR = json.load(_f)
loader.PREEMPT = ()
TARGETS = ('/home/u/w.json', 'w.json', 'link.json', 'sub/w.json', 'abs.json', './w.json')
CONDS = ('none',) * 10 + ('full', 'tight', 'readonly', 'nofds', 'dir-readonly', 'strpw', 'badpath', 'isdir', 'badwallet', 'file-readonly')


def gen(r, tier, i):
    ops = []
    heavy = r.random() < 0.06
    for j in range(r.choice((1, 2, 3, 5))):
        k = r.choice(('save',) * 6 + ('load', 'load', 'part', 'wrongpw', 'nearpw', 'missing'))
        o = dict(k=k, power=r.random() < 0.5, w=gen_wallet(r, light=not heavy), cond=r.choice(CONDS), s=r.getrandbits(32), extra=r.randrange(400), retry=r.random() < 0.4)
        if k == 'save':
            o['faults'] = gen_faults(r, False) if o['cond'] == 'none' or r.random() < 0.2 else []
        elif k == 'load':
            o['faults'] = []
            for _ in range(r.choice((1, 1, 2))):
                f = dict(act=r.choice(('error', 'error', 'short', 'short', 'interrupt-before', 'interrupt-after')), err=r.randrange(8))
                if r.random() < 0.5:
                    f['at'] = r.randrange(1, 9)
                else:
                    f.update(op=r.choice(('open', 'read', 'read', 'close', 'fstat')), nth=r.choice((1, 1, 2)))
                o['faults'].append(f)
        elif k == 'part':
            o['part'] = [dict(how=r.choice(('prefix', 'prefix', 'zeros', 'suffix', 'hole', 'empty', 'allzero', 'garbage-tail')), s=r.getrandbits(32)) for _ in range(4)]
        ops.append(o)
    return dict(ops=ops, path=r.choice(TARGETS), exist=r.random() < 0.85, old=gen_wallet(r, light=not heavy), pw=gen_pw(r),
                mode=r.choice((0o600, 0o644)))


def descriptors(p, before, c, ctl, what):
    """Whatever failed, no descriptor stays open once the call is over and its exception forgotten."""
    if any(f[0] == 'close' or f[1].startswith('interrupt') for f in ctl.fired) or ctl.sticky or not set(p.fds) - before:
        return
    e, seen = c.raised, set()
    while isinstance(e, BaseException) and id(e) not in seen:
        seen.add(id(e))
        e.__traceback__ = None
        e = e.__context__
    gc.collect()
    if set(p.fds) - before:
        raise Violation('descriptor-left', '%s %s and left %d descriptor(s) open' % (
            what, 'returned' if c.ok else 'raised %r' % (c.raised,), len(set(p.fds) - before)))


def run(ctx):
    plan, k = ctx.plan, ctx.k
    fs = boot(ctx)
    fs.setup_link('/home/u/link.json', 'real/a.json')
    fs.setup_link('/home/u/abs.json', '/home/u/real/b.json')
    ns = ctx.ns
    k.hooks['getpass'] = lambda p: (_ for _ in ()).throw(EOFError())
    pw = b_pw(plan['pw'])
    path = plan['path']
    ap = os.path.join('/home/u', path)      # follows the link, if it is one
    rp = real_path(path)
    mine = {tuple(os.path.split(real_path(path))), tuple(os.path.split(os.path.normpath(ap)))}
    folder = os.path.dirname(rp)
    st = type('State', (), {})()
    st.cur = None
    st.power = None

    def now(p, what):
        """Loads the file (nothing failing): -> identity or None when there is no file."""
        before = fs.content(ap)
        c = load(k, ns, Call('load'), path, pw, None)
        if fs.content(ap) != before:
            raise Violation('load-changed-file', '%s: loading changed the file' % what)
        if c.ok:
            return c.result[1]
        if fs.peek(ap) is None:
            return None
        return ('unreadable', repr(c.raised), fs.content(ap))

    def snap():
        return {(f, name): bytes(n.ent[name].data) for f, n in
                ((d, fs.peek(d)) for d in ('/home/u', '/home/u/sub', '/home/u/real', '/tmp', '/var/tmp')) for name in n.ent if n.ent[name].kind == 'f'}

    if plan['exist']:
        w = Wal(ns, plan['old'])
        in_proc(k, fs, lambda p: save(k, ns, Call('save'), rp, w, pw, None))
        if fs.peek(ap) is None:
            raise Violation('not-saved', 'saving made no file')
        fs.peek(ap).mode = plan['mode']
        st.cur = w.id
        got = in_proc(k, fs, lambda p: now(p, 'first save'))
        if got != w.id:
            raise Violation('not-saved', 'saving returned but the file loads as %s' % fmt(got))

    def do_save(o, p):
        w = Wal(ns, o['w'])
        cond = o['cond']
        spw, spath, obj = pw, path, w
        undo = []
        if cond == 'full':
            fs.capacity = fs.used()
            k.fault('fs-full')
        elif cond == 'tight':
            fs.capacity = fs.used() + o['extra']
            k.fault('fs-tight')
        elif cond == 'readonly':
            fs.readonly = True
            k.fault('fs-readonly')
        elif cond == 'nofds':
            p.maxfd = len(p.fds) + o['s'] % 2
            k.fault('no-descriptors')
        elif cond == 'dir-readonly':
            d = fs.peek(folder)
            undo.append((d, d.mode))
            d.mode = 0o555
            k.fault('permission')
        elif cond == 'file-readonly' and fs.peek(ap) is not None:
            n = fs.peek(ap)
            undo.append((n, n.mode))
            n.mode = 0o444
            k.fault('permission')
        elif cond == 'strpw':
            spw = 'a str passphrase'
        elif cond == 'badpath':
            spath = ('nosuch/w.json', '/home/u/w.json/x', 'x' * 300)[o['s'] % 3]
        elif cond == 'isdir':
            spath = '/home/u/sub'
        elif cond == 'badwallet':
            obj = Wal.__new__(Wal)
            obj.obj, obj.id = (None, object(), {'type': 'HD'}, 'wallet')[o['s'] % 4], None
        at = []
        ctl = Ctl(fs, o['faults'], lambda: at.append(fs.content(ap)))
        files = snap()
        old = fs.content(ap)
        c = Call('save', w)
        fds = set(p.fds)
        save(k, ns, c, spath, obj, spw, ctl)
        fs.capacity, fs.readonly, p.maxfd = None, False, None
        for n, m in undo:
            n.mode = m
        what = 'save with %s, %s' % (cond, [f[0] + ':' + (f[2] or f[1]) for f in ctl.fired])
        descriptors(p, fds, c, ctl, what)
        if c.ok:
            if obj is not w:
                raise Violation('silent-failure', '%s: saving something that is no wallet returned' % what)
            if spath is not path:
                raise Violation('silent-failure', '%s: saving to %s returned' % (what, spath))
            if cond == 'strpw' and w.prv is not None:
                raise Violation('silent-failure', 'saving with a passphrase that is not bytes returned')
            got = now(p, what)
            if got != w.id:
                raise Violation('not-saved', '%s: saving returned but the file loads as %s instead of %s' % (what, fmt(got), fmt(w.id)))
            st.cur = w.id
            if ctl.fired or k.faults.get('fs-full'):
                ctx.nontrivial = True
            if o['power'] and ctl.fired:
                st.power = what        # a step failed and saving returned all the same: then it must be safe
            return
        ctx.nontrivial = True
        if not ctl.fired and cond in ('none', 'file-readonly'):
            if cond == 'none':
                raise Violation('save-failed', 'saving raised %r although nothing failed' % (c.raised,))
        got = now(p, what)
        allowed = [st.cur]
        if at and at[-1] != old and ctl.fired:
            allowed = [st.cur, w.id]      # the replacement was already complete when the (last) step failed
        if got not in allowed:
            raise Violation('failed-save-harmed', '%s raised %r, and the file now loads as %s instead of %s' % (what, c.raised, fmt(got), fmt(st.cur)))
        st.cur = got
        # nothing half-done stays behind, unless removing it failed as well or the call was interrupted just where it appeared
        fired = ctl.fired
        blind = any(f[0] in ('unlink', 'close') or f[1].startswith('interrupt') and f[0] in ('open', 'fstat', 'stat') for f in fired) or ctl.sticky or cond == 'readonly' or \
            (cond == 'dir-readonly')
        if not blind:
            left = {f: d for f, d in snap().items() if f not in files and f not in mine}
            if left:
                raise Violation('leftover', '%s raised %r and left %s behind' % (what, c.raised, sorted(left)[0]))
        for f, d in files.items():
            if f not in mine and snap().get(f) != d:
                raise Violation('other-file-harmed', '%s changed %s' % (what, f))

    for o in plan['ops']:
        def step(p, o=o):
            if o['k'] == 'save':
                do_save(o, p)
                if o['retry']:
                    o2 = dict(o, cond='none', faults=[])
                    do_save(o2, p)
                return
            if st.cur is None and o['k'] != 'missing':
                return
            before = snap()
            if o['k'] == 'load':
                ctl = Ctl(fs, o['faults'])
                fds = set(p.fds)
                c = load(k, ns, Call('load'), path, pw, ctl)
                what = 'load with %s' % [f[0] + ':' + (f[2] or f[1]) for f in ctl.fired]
                descriptors(p, fds, c, ctl, what)
                if c.ok and c.result[1] != st.cur:
                    raise Violation('wrong-wallet', '%s returned %s instead of %s' % (what, fmt(c.result[1]), fmt(st.cur)))
                if not c.ok and not [f for f in ctl.fired if f[1] != 'short']:
                    raise Violation('load-failed', '%s raised %r' % (what, c.raised))
                ctx.nontrivial = ctx.nontrivial or bool(ctl.fired)
            elif o['k'] == 'wrongpw':
                if pw is None:
                    return
                r = random.Random(o['s'])
                bad = r.choice((b'x', pw + b'!', b'wrong passphrase', pw[:-1], pw[1:], b'\0' + pw, pw.upper() + b'#', b'1', 'str-wrong'))
                c = load(k, ns, Call('load'), path, bad, None)
                k.fault('wrong-passphrase')
                if c.ok and c.result[1] != st.cur:
                    raise Violation('wrong-wallet', 'a wrong passphrase loaded %s instead of %s' % (fmt(c.result[1]), fmt(st.cur)))
            elif o['k'] == 'nearpw':
                prv = bytes.fromhex(NEAR['prv'])
                w = ns.wallet.HDWallet(int.from_bytes(prv, 'big'), b'c' * 32, vcn=7)
                good = NEAR['good'].encode()
                ns.wallet.saveTo('/home/u/near.json', w, good)
                k.fault('wrong-passphrase')
                r = random.Random(o['s'])
                for bad in r.sample(NEAR['wrong'], 3):
                    c = load(k, ns, Call('load'), '/home/u/near.json', bad.encode(), None)
                    if c.ok:
                        raise Violation('wrong-wallet', 'a wrong passphrase loaded a wallet with the key %s' % fmt(c.result[1][1]))
                c = load(k, ns, Call('load'), '/home/u/near.json', good, None)
                if not c.ok or c.result[1][1] != prv:
                    raise Violation('wrong-wallet', 'the right passphrase loaded %s' % fmt(c.result[1]))
                os.unlink('/home/u/near.json')
            elif o['k'] == 'missing':
                c = load(k, ns, Call('load'), '/home/u/none.json', pw, None)
                if c.ok:
                    raise Violation('wrong-wallet', 'a file that does not exist loaded')
            elif o['k'] == 'part':
                good = fs.content(ap)
                for q in o['part']:
                    r = random.Random(q['s'])
                    n = r.randrange(len(good))
                    cut = {'prefix': lambda: good[:n], 'zeros': lambda: good[:n] + b'\0' * (len(good) - n), 'suffix': lambda: good[max(1, n):],
                           'hole': lambda: good[:n] + b'\0' * min(len(good) - n, 1 + r.randrange(40)) + good[n + 1 + r.randrange(40):],
                           'empty': lambda: b'', 'allzero': lambda: b'\0' * len(good),
                           'garbage-tail': lambda: good[:n] + r.randbytes(len(good) - n)}[q['how']]()
                    if cut == good:
                        continue
                    fs.setup_file('/home/u/part.json', cut)
                    k.fault('partial-file')
                    c = load(k, ns, Call('load'), '/home/u/part.json', pw, None)
                    if c.ok:
                        raise Violation('partial-accepted', '%s of a wallet file (%d of %d bytes) loaded as %s' % (q['how'], n, len(good), fmt(c.result[1])))
                    if fs.content('/home/u/part.json') != cut:
                        raise Violation('load-changed-file', 'loading changed a file')
                    fs.peek('/home/u').ent.pop('part.json')
                    fs.peek('/home/u').dent.pop('part.json')
            if snap() != before:
                raise Violation('load-changed-file', 'loading changed a file')
            got = now(p, o['k'])
            if got != st.cur:
                raise Violation('wrong-wallet', 'after %s the file loads as %s instead of %s' % (o['k'], fmt(got), fmt(st.cur)))
        in_proc(k, fs, step, 'user')
        if st.power:
            what, st.power = st.power, None
            k.at(k.now, lambda: fs.crash('power'))
            k.run(k.now + 1)
            got = in_proc(k, fs, lambda p: now(p, what))
            if got != st.cur:
                raise Violation('not-saved', '%s: saving returned, and after a power loss the file loads as %s instead of %s' % (what, fmt(got), fmt(st.cur)))
