"""W04: with a passphrase, no secret touches the disk in clear."""
from .wcommon import *
from .W01 import real_path

NODE = False
loader.PREEMPT = ()
TARGETS = ('/home/u/w.json', 'w.json', 'link.json', 'sub/w.json')


WARM = ('plain', 'plain', 'other', 'str', 'export', 'reload')


def gen(r, tier, i):
    ops = []
    heavy = r.random() < 0.06
    for j in range(r.choice((1, 2, 3, 4))):
        k = r.choice(('save',) * 5 + ('prompt', 'prompt', 'load', 'power'))
        o = dict(k=k, warm=[r.choice(WARM) for _ in range(r.choice((0, 0, 0, 1, 2)))], w=gen_wallet(r, light=not heavy), pw=r.randrange(9), s=r.getrandbits(32), f=[])
        if r.random() < 0.6 and k == 'save':
            o['f'] = gen_faults(r, r.random() < 0.5)
        ops.append(o)
    return dict(ops=ops, path=r.choice(TARGETS), plain=r.random() < 0.5, old=gen_wallet(r), s=r.getrandbits(32), meta=r.choice(('ordered', 'loose')),
                sector=r.choice((16, 64, 512)), trim=r.random() < 0.3)


def use(w, what, pw):
    """What the user did with the wallet object before saving it."""
    o = w.obj
    if what == 'plain':
        o.dump_to_cfg()
    elif what == 'other':
        o.dump_to_cfg(b'another ' + pw)
    elif what == 'str':
        str(o)
    elif what == 'export' and hasattr(o, 'to_extended_key'):
        o.to_extended_key(w.prv is not None)
    elif what == 'reload':
        w.obj = type(o).load_from_cfg(o.dump_to_cfg(b'another ' + pw), b'another ' + pw)


def passphrase(r, kind):
    """bytes, 6 or more, distinctive"""
    n = r.choice((6, 8, 12, 15, 16, 17, 20, 32, 33, 64, 200))
    body = bytes(r.choice(b'abcdefghjkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789!#%&/()=?-_.:;') for _ in range(n))
    if kind == 1:
        return bytes(r.randrange(1, 256) for _ in range(n))
    if kind == 2:
        return 'p\u00e4\u00df-\u5bc6\u7801'.encode('utf-8') + body
    if kind == 3:
        return b'"quote\\' + body
    if kind == 4:
        return body[:8] + b' ' + body[8:] + b'x'
    if kind == 5:
        return body + b'\0\0'
    return body


def run(ctx):
    plan, k = ctx.plan, ctx.k
    fs = boot(ctx, meta=plan['meta'], sector=plan['sector'])
    fs.setup_link('/home/u/link.json', 'real/a.json')
    ns = ctx.ns
    path = plan['path']
    rp = real_path(path)
    r0 = random.Random(plan['s'])
    secrets = []            # (bytes to look for, what it is)
    known = {}              # identity -> passphrase

    def windows(b, n):
        if len(b) <= n:
            return [b]
        return [b[i:i + n] for i in range(0, len(b) - n + 1, max(1, n // 4))] + [b[-n:]]

    def add(wal, pw):
        if wal.prv is not None:
            for e in wal.secrets():
                for x in windows(e, 11 if e == wal.prv else 20):
                    if len(x.strip(b'0\0')) > 8:
                        secrets.append((x, 'the private key (%s)' % (e[:4].hex() + '..',)))
        import base64
        bare = pw.rstrip(b'\0')
        for b in {bare, bare[:16]}:
            if len(b) < 6:
                continue
            for e in (b, b.hex().encode(), b.hex().upper().encode(), base64.b64encode(b).rstrip(b'=')[:-1], b[::-1]):
                secrets.append((e, 'the passphrase'))
            try:
                secrets.append((json_str(b.decode('latin-1')), 'the passphrase'))
                secrets.append((json_str(b.decode('utf-8')), 'the passphrase'))
            except UnicodeDecodeError:
                pass

    def scan(data, where):
        low = data.lower()
        for x, what in secrets:
            if x in data:
                raise Violation('secret-on-disk', '%s contains %s in clear: %s' % (where, what, fmt(data, 400)))

    def watch(op, opath, th):
        if op in ('write', 'rename', 'link', 'truncate', 'open', 'symlink'):
            if op == 'write':
                n = None
                for p in fs.procs:
                    for o in p.fds.values():
                        if o.path == opath and o.flags & 3:
                            scan(bytes(o.inode.data), opath)
                            for w in o.inode.pend:
                                if w[0] == 'w':
                                    scan(w[2], opath)
            scan(opath.encode('utf-8', 'surrogateescape') if isinstance(opath, str) else b'', 'the name of ' + str(opath))
    fs.watch = watch

    def sweep(what):
        for n in fs.all_inodes():
            if n.kind == 'f':
                scan(bytes(n.data), what)
                scan(bytes(n.disk), what)
            elif n.kind == 'd':
                for name in n.ent:
                    scan(name.encode('utf-8', 'surrogateescape'), what)

    def expect_load(p, allowed, what):
        before = fs.content(rp)
        for ident in allowed:
            if ident is None:
                if before is None:
                    return None
                continue
            c = load(k, ns, Call('load'), path, known[ident], None)
            if c.ok and c.result[1] == ident:
                return ident
        raise Violation('does-not-load', '%s: the file does not load with its passphrase (last result %r)' % (what, c.result))

    k.hooks['getpass'] = lambda p: (_ for _ in ()).throw(EOFError())
    allowed = [None]
    dur = [None]
    if plan['plain']:
        w = Wal(ns, plan['old'])
        in_proc(k, fs, lambda p: save(k, ns, Call('save'), rp, w, None, None))
        in_proc(k, fs, lambda p: p.fs.sync())
        known[w.id] = None
        allowed = [w.id]
        dur = [w.id]
    for o in plan['ops']:
        r = random.Random(o['s'])
        if o['k'] == 'power':
            k.at(k.now, lambda: fs.crash('power'))
            k.run(k.now + 1)
            sweep('after a power loss, a file')
            got = in_proc(k, fs, lambda p: expect_load(p, dur, 'power loss'))
            allowed = dur = [got]
            continue
        if o['k'] == 'save':
            w = Wal(ns, o['w'])
            pw = passphrase(r, o['pw'])
            add(w, pw)
            known[w.id] = pw
            for x in o['warm']:
                use(w, x, pw)
            c = Call('save', w)
            ctl = Ctl(fs, o['f'])
            pr = fs.proc('u%d' % len(fs.allprocs))
            n0 = k.faults.get('power-loss', 0)
            th = pr.spawn(lambda: save(k, ns, c, path, w, pw, ctl))
            if not k.run_until(lambda: th.done, k.now + 3600 * SEC, SEC):
                raise Violation('stuck', 'a save did not come back')
            if th.error is not None:
                raise th.error
            what = 'after a save that %s, a file' % ('returned' if c.ok else 'raised %r' % c.raised if c.raised is not None else 'was cut short')
            sweep(what)
            if ctl.fired:
                ctx.nontrivial = True
            if c.ok:
                allowed = dur = [w.id]
            else:
                if c.raised is not None and not ctl.fired:
                    raise Violation('save-failed', 'saving with a passphrase raised %r although nothing failed' % (c.raised,))
                allowed = allowed + [w.id]
                dur = dur + [w.id]
            power = k.faults.get('power-loss', 0) > n0
            got = in_proc(k, fs, lambda p: expect_load(p, dur if power else allowed, what))
            allowed = [got]
            if power or c.ok:
                dur = [got]
            continue
        cur = allowed[0]
        if cur is None:
            continue
        if o['k'] == 'load':
            in_proc(k, fs, lambda p: expect_load(p, allowed, 'load'))
            continue
        # the prompt
        pw = known[cur]
        typed, interrupt = [], None
        blanks = [r.choice(('', '', ' ', '\t', '  \n', '\r')) for _ in range(r.choice((0, 0, 1, 2, 5)))]
        good = None
        try:
            good = pw.decode('latin-1') if pw is not None else None
            if good is not None and (good.strip() != good or not good):
                good = None
        except UnicodeDecodeError:
            pass
        how = r.choice(('good', 'good', 'wrong', 'interrupt', 'eof', 'ttyerror'))
        if how == 'good' and good is None:
            how = 'interrupt'
        seq = list(blanks)
        if how == 'good':
            seq.append(r.choice((good, good, ' ' + good, good + ' \t')))
        elif how == 'wrong':
            seq.append('not it %d' % r.randrange(100))
        asked = []

        def getpass(prompt):
            asked.append(prompt)
            k.fault('prompt')
            if len(asked) <= len(seq):
                return seq[len(asked) - 1]
            if len(asked) > len(seq) + 3:
                raise Violation('prompt-loop', 'asked for the passphrase %d times although %r was typed' % (len(asked), seq[-1]))
            raise {'interrupt': KeyboardInterrupt, 'eof': EOFError, 'ttyerror': OSError}.get(how, EOFError)()
        k.hooks['getpass'] = getpass
        before = fs.content(rp)
        nofile = sorted(fs.listing(os.path.dirname(rp)))
        res = []

        def go(p):
            c = load(k, ns, Call('load'), path, r.choice((None, b'', '')), None)
            res.append(c)
        in_proc(k, fs, go)
        c = res[0]
        k.hooks['getpass'] = lambda p: (_ for _ in ()).throw(EOFError())
        enc = pw is not None and cur[1] is not None and cur[0] in ('HD', 'A')
        ctx.nontrivial = True
        what = 'prompt answered with %r then %s' % (seq, how)
        if not enc:
            if not c.ok or c.result[1] != cur:
                raise Violation('does-not-load', 'a wallet that is not encrypted does not load without passphrase: %r' % (c.result,))
        else:
            if not asked:
                raise Violation('not-asked', 'an encrypted wallet was loaded without passphrase and nobody was asked')
            if how == 'good':
                if not c.ok or c.result[1] != cur:
                    raise Violation('does-not-load', '%s: %r' % (what, c.result))
                if len(asked) != len(seq):
                    raise Violation('prompt-count', '%s: asked %d times' % (what, len(asked)))
            elif c.ok and c.result[1] != cur or (how != 'wrong' and c.ok):
                raise Violation('prompt-result', '%s: loading returned %s' % (what, fmt(c.result[1])))
            elif how != 'wrong' and len(asked) != len(seq) + 1:
                raise Violation('prompt-count', '%s: asked %d times' % (what, len(asked)))
        if fs.content(rp) != before or sorted(fs.listing(os.path.dirname(rp))) != nofile:
            raise Violation('prompt-changed-file', '%s: the file changed' % what)


def json_str(s):
    import json
    return json.dumps(s)[1:-1].encode()
