"""U01: the height poll is bounded, complete and isolated."""
import http.client
import io
import json
import random
import socket
import sys
import urllib.error

from .common import *
from .. import loader
from ..errors import SimKill

NODE = False
OUTS = (None, None, None, 'pipe', 'closed', 'ascii', 'value', 'sometimes')   # what becomes of standard output
loader.PREEMPT = ('util/__init__.py', 'util/bootstrap.py')
GOOD = ('int', 'int', 'int', 'str', 'space')
BAD = ('nojson', 'missing', 'null', 'empty', 'text', 'dict', 'list', 'trunc', 'nonutf8', 'shortlist', 'html', 'deep', 'scalar')
FAIL = ('urlerror', 'http', 'timeout', 'incomplete', 'reset', 'hang', 'hangread', 'oserror', 'valueerror')
REAL = {'https://blockchain.info/latestblock': 'height', 'https://blockexplorer.com/q/getblockcount': None,
        'http://btc.blockr.io/api/v1/coin/info': 'data/last_block/nb', 'https://chain.so/api/v2/get_info/BTC': 'data/blocks'}
REAL_NAMES = {'https://blockchain.info/latestblock': 'blockchain.info', 'https://blockexplorer.com/q/getblockcount': 'blockexplorer.com',
              'http://btc.blockr.io/api/v1/coin/info': 'blockr.io', 'https://chain.so/api/v2/get_info/BTC': 'chain.so'}


def gen(r, tier, i):
    def source(j, hang=0):
        v = r.random()
        what = r.choice(GOOD) if v < 0.55 else r.choice(BAD) if v < 0.75 else r.choice(FAIL)
        if r.random() < hang:
            what = r.choice(('hang', 'hangread'))
        return dict(name=r.choice(('a.info', 'b.com', 'c.io', 'd')) + str(j), kind=r.choice(('json', 'json', 'int', 'func')),
                    path=r.choice(('height', 'data/blocks', 'data/last_block/nb', '0', '2', '0/height', 'data/1/x/2', 'chain/0', 'chain/3/nb')),
                    what=what, delay=round(r.choice((0, 0.001, 0.1, 1, 4, 4.9, 5.1, 20, 300)) * r.uniform(0.7, 1.1), 4),
                    slow=r.choice((0, 0, 0, 3)), value=r.choice((0, 1, 350000, 2 ** 31, 2 ** 63, r.getrandbits(22), -1)),
                    s=r.getrandbits(32))
    polls = []
    for p in range(r.choice((1, 1, 1, 2, 3))):
        real = r.random() < 0.25
        n, hang = r.choice((0, 1, 2, 4, 8)), 0
        if r.random() < 0.05:
            n, hang = r.choice((20, 45, 80)), r.choice((0, 0.5, 0.9))
        polls.append(dict(t=round(r.choice((0, 0, 1, 8)) * r.random(), 3), timeout=r.choice((None, None, 0, 0.05, 1, 5.0, 30, 100)),
                          real=real, src=[source(j, hang) for j in range(4 if real else n)]))
    clock = [dict(t=round(r.uniform(0, 20), 3), delta=r.choice((-86400, -10, -3, 3, 10, 86400, 4 * 10 ** 8)))
             for _ in range(r.choice((0, 0, 1, 3)))]
    nostart = []                           # threads that can not be started
    if r.random() < 0.2:
        nostart = sorted(set(int(r.choice((4, 10, 40)) * r.random()) for _ in range(r.choice((1, 1, 2, 6)))))
    return dict(polls=polls, clock=clock, pre=r.choice((0, 0, 0.02, 0.2)), nap=r.random() < 0.5, nostart=nostart, out=r.choice(OUTS), s=r.getrandbits(32))


SHRINK = ('polls', 'clock', 'nostart')


def simplify(plan):
    for a, p in enumerate(plan['polls']):
        for b in range(len(p['src'])):
            if p['real']:
                break
            q = dict(plan, polls=[dict(x) for x in plan['polls']])
            q['polls'][a]['src'] = p['src'][:b] + p['src'][b + 1:]
            yield q
    if plan.get('out'):
        yield dict(plan, out=None)
    if plan['pre']:
        yield dict(plan, pre=0)


def place(path, value, r):
    """A JSON answer with `value` at `path` and other numbers elsewhere."""
    parts = path.split('/')

    def build(i):
        if i == len(parts):
            return value
        c = parts[i]
        if c.isdigit() and r.random() < 0.75:
            xs = [r.randrange(1000) for _ in range(int(c))] + [build(i + 1)] + [r.randrange(1000) for _ in range(r.randrange(3))]
            return xs
        d = {c: build(i + 1)}
        for x in ('height', 'nb', 'blocks', 'x', 'time', 'data', '1'):
            if x not in d and r.random() < 0.6:
                d[x] = r.choice((r.randrange(10 ** 6), {'nb': 5, 'blocks': 6}, [1, 2, 3], 'x'))
        return d
    return build(0)


def dumps(x, src, **kw):
    """Answers come in all sizes, and in UTF-8 or plain ASCII."""
    r = random.Random(src['s'] ^ 0x5a5a)
    if isinstance(x, dict) and r.random() < 0.3:
        more = {r.choice(('name', 'txid', '')): r.choice(('Łódź', 'naïve', '比特币', 'plain'))}
        if r.random() < 0.3:
            more['txIndexes'] = [r.randrange(10 ** 9) for _ in range(r.choice((100, 1000, 8000)))]
        x = dict(more, **x) if r.random() < 0.5 else dict(x, **more)
    return json.dumps(x, ensure_ascii=r.random() < 0.5, **kw).encode('utf-8')


def body(src, path, json_like):
    r = random.Random(src['s'])
    w, v = src['what'], src['value']
    if not json_like:
        if w in ('int', 'str'):
            return b'%d' % v
        if w == 'space':
            return b' %d\n' % v
        return {'empty': b'', 'text': b'unknown', 'null': b'null', 'nonutf8': b'\xff\xfe\xfd', 'dict': b'{"height": 5}', 'list': b'[5]',
                'html': b'<html>503 at 12:00</html>', 'trunc': b'{"a":', 'deep': r.choice((b'5 6', b'350000\n350001', b'350000 blocks', b'350,000', b'350000;')),
                'scalar': r.choice((b'4.5.6', b'350000.5', b'3.5e5', b'1e3', b'inf', b'nan')), 'missing': b'x5',
                'shortlist': b'--5', 'nojson': b'0x1G'}[w]
    if w == 'int':
        return dumps(place(path, v, r), src)
    if w == 'str':
        return dumps(place(path, str(v), r), src)
    if w == 'space':
        return b'\n ' + dumps(place(path, v, r), src, indent=2) + b'\r\n'
    if w == 'null':
        return dumps(place(path, None, r), src)
    if w == 'text':
        return dumps(place(path, r.choice(('n/a', '12abc', '12.5', '', ' ', '1,000', '0x1f')), r), src)
    if w == 'dict':
        return dumps(place(path, {'value': 5}, r), src)
    if w in ('list', 'deep'):
        return dumps(place(path, [5], r), src)
    if w == 'missing':
        if r.random() < 0.3:
            return b'{"status": "ok", "other": 5}'
        parts = path.split('/')          # everything is there but the last step
        n = r.randrange(len(parts))
        end = r.choice(({}, {'other': 5, 'time': 7}, {'count': v}))
        return dumps(place('/'.join(parts[:n]), end, r) if n else end, src)
    if w == 'shortlist':
        parts = path.split('/')          # a list that ends before the place, or stands where an object should
        n = r.randrange(len(parts))
        inner = place('/'.join(parts[n + 1:]), v, r) if n + 1 < len(parts) else v
        if parts[n].isdigit():
            end = [r.choice((inner, v, 7)) for _ in range(int(parts[n]))]
        else:
            end = r.choice(([], [inner], [v, inner, v]))
        return dumps(place('/'.join(parts[:n]), end, r) if n else end, src)
    if w == 'scalar':
        parts = path.split('/')          # a bare value where more was expected
        n = r.randrange(len(parts))
        x = r.choice((None, v, v, 404, str(v), 'x', True))
        return dumps(place('/'.join(parts[:n]), x, r) if n else x, src)
    if w == 'trunc':
        return dumps(place(path, v, r), src)[:-1]
    return {'nojson': b'height: 5', 'empty': b'', 'nonutf8': b'{"height": "\xff\xfe"}', 'html': b'<html>5</html>'}[w]


class Answer(io.BufferedIOBase):
    def __init__(self, srv, src, data, timeout):
        self.srv, self.src, self.data, self.timeout = srv, src, data, timeout
        self.pos = 0
        self.status = self.code = 200
        self.reason = self.msg = 'OK'
        self.url = src['url']
        self.headers = http.client.HTTPMessage()
        self.headers['Content-Type'] = ('application/json', 'text/plain; charset=utf-8')[src['s'] & 1]
        self.headers['Content-Length'] = '%d' % len(data)
        self.waited = False

    def readable(self):
        return True

    def getcode(self):
        return 200

    def info(self):
        return self.headers

    def geturl(self):
        return self.src['url']

    def read(self, n=-1):
        k, src = self.srv, self.src
        k.syscall()
        if not self.waited:
            wait(k, 10 ** 6 if src['what'] == 'hangread' else src['slow'], self.timeout)
            self.waited = True
        if src['what'] == 'incomplete':
            raise http.client.IncompleteRead(b'12', 5)
        d = self.data[self.pos:] if n is None or n < 0 else self.data[self.pos:self.pos + n]
        self.pos += len(d)
        if self.pos == len(self.data):
            src['answered'] = k.now
        return d

    def read1(self, n=-1):
        return self.read(n)

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


def wait(k, seconds, timeout):
    """The answer takes so long; a caller that set a time limit hears of that instead."""
    if timeout is not None and seconds > timeout:
        k.sleep(int(timeout * SEC))
        raise socket.timeout('timed out')
    if seconds:
        k.sleep(int(seconds * SEC))


def run(ctx):
    real = sys.stdout
    if ctx.plan.get('out'):
        sys.stdout = Stream(ctx.plan['out'], ctx.k)
    try:
        run_out(ctx)
    finally:
        sys.stdout = real


def run_out(ctx):
    plan, k = ctx.plan, ctx.k
    host = k.host('box', '10.0.0.1')
    ns = ctx.ns
    util, coins = ns.util, ns.coins
    by_url = {}
    k.preempt_p = plan['pre']
    if plan['pre']:
        k.preempt_budget = 400

    starts = [0, 0]

    def start_fails(th):
        n = starts[0]
        starts[0] += 1
        if n in plan.get('nostart', ()):
            starts[1] += 1
            k.fault('thread-start-fails')
            return True
    k.hooks['thread_start'] = start_fails

    def serve(src, timeout=None):
        src['asked'] = True
        w = src['what']
        if w in FAIL:
            k.fault('source-' + ('hangs' if w.startswith('hang') else 'fails'))
        try:
            wait(k, 10 ** 6 if w == 'hang' else src['delay'], timeout)
        except socket.timeout as e:
            raise urllib.error.URLError(e)
        if w == 'urlerror':
            raise urllib.error.URLError('injected')
        if w == 'http':
            raise urllib.error.HTTPError(src['url'], 503, 'injected', {}, None)
        if w == 'timeout':
            raise socket.timeout('timed out')
        if w == 'reset':
            raise ConnectionResetError(104, 'injected')
        if w == 'oserror':
            raise OSError(24, 'Too many open files')
        if w == 'valueerror':
            raise ValueError('injected')

    def urlopen(req, data=None, timeout=None, **kw):
        url = req if isinstance(req, str) else req.full_url
        src = by_url.get(url)
        if src is None:
            raise urllib.error.HTTPError(url, 404, 'not here', {}, None)
        k.probe('requests')
        k.record('get', url)
        if timeout is None:
            timeout = socket.getdefaulttimeout()
        serve(src, timeout)
        if src['what'] in BAD:
            k.fault('source-malformed')
        d = body(src, src['path'], src['kind'] == 'json') if src['what'] not in FAIL else b'12'
        return Answer(k, src, d, timeout)
    k.hooks['urlopen'] = urlopen

    def func(src):
        def f():
            serve(src)
            if src['what'] == 'hangread':
                k.sleep(10 ** 6 * SEC)
            if src['what'] in BAD:
                k.fault('source-malformed')
                if src['s'] % 2:
                    raise KeyError('injected')
                return None
            if src['what'] == 'incomplete':
                raise EOFError('injected')
            src['answered'] = k.now
            return src['value']
        return f
    polls = []
    for a, pd in enumerate(plan['polls']):
        srcs = [dict(x) for x in pd['src']]
        if pd['real']:
            if any(p['real'] for p in polls):
                continue
            for s, url in zip(srcs, sorted(REAL)):
                s.update(url=url, path=REAL[url], kind='json' if REAL[url] else 'int', name=REAL_NAMES[url])
                by_url[url] = s

            coin = coins.Newbitcoin
        else:
            guess = []
            for b, s in enumerate(srcs):
                s['url'] = 'http://%s/%d/%d' % (s['name'], a, b)
                s['name'] = '%s-%d' % (s['name'], b)
                by_url[s['url']] = s
                f = util.fetch_url_json_path_int(s['url'], s['path']) if s['kind'] == 'json' else \
                    util.fetch_url_int(s['url']) if s['kind'] == 'int' else func(s)
                guess.append((s['name'], f))

            class coin(ns.coins.Newbitcoin):
                block_height_guess = guess
        polls.append(dict(real=pd['real'], srcs=srcs, coin=coin, pd=pd, ret=None))

    def poll(p):
        kw = {} if p['pd']['timeout'] is None else dict(timeout=p['pd']['timeout'])
        p['t0'] = k.now
        failed0 = starts[1]
        nap0 = k.napped_done
        try:
            r = util.guess_block_height(p['coin'], **kw)
        except SimKill:
            raise
        except Exception as e:
            raise Violation('poll-raises', 'the poll raised %r%s' % (e, ' (%d threads could not be started)' % (
                starts[1] - failed0) if starts[1] > failed0 else ''))
        p['t1'] = k.now
        p['ret'] = r
        try:
            p['snap'] = dict(r)
        except Exception as e:
            raise Violation('bad-result', 'the result is %r' % (r,))
        naps = k.napped - nap0
        limit = 5.0 if p['pd']['timeout'] is None else p['pd']['timeout']
        took = p['t1'] - p['t0']
        if took > limit * SEC + naps + 50 * MS:
            raise Violation('poll-too-long', 'a poll with timeout %s s took %.3f s' % (limit, took / 1e6))
        k.probe('polls')
        spare = starts[1] - failed0       # that many sources may not have been asked at all
        for s in p['srcs']:
            if not p['real'] and s['name'] not in dict(p['coin'].block_height_guess):
                continue
            v = p['snap'].get(s['name'])
            ans = s.get('answered')
            good = s['what'] in GOOD
            is_int = isinstance(v, int) and not isinstance(v, bool)
            if spare and not s.get('asked') and v is None:
                spare -= 1
                k.probe('not-asked')
                continue
            if v is not None and not is_int:
                raise Violation('not-an-integer', 'source %s: the result holds %r' % (s['name'], v))
            if is_int and (not good or ans is None):
                raise Violation('integer-from-nothing', 'source %s (%s) gave no integer, the result holds %r' % (s['name'], s['what'], v))
            if is_int and v != s['value']:
                raise Violation('wrong-integer', 'source %s answered %r at %r, the result holds %r' % (s['name'], s['value'], s['path'], v))
            if good and ans is not None and ans + naps + 20 * MS < p['t0'] + limit * SEC and ans < p['t1'] - 20 * MS - naps and not is_int \
                    or good and took < limit * SEC - 50 * MS - naps and not is_int:
                raise Violation('answer-lost', 'source %s answered %r %s within the timeout of %s s, the result (after %.3f s) holds %r' % (
                    s['name'], s['value'], 'at %.3f s' % ((ans - p['t0']) / 1e6) if ans is not None else 'or would have answered', limit,
                    took / 1e6, v))
            due = s['delay'] + (0 if s['kind'] == 'func' else s['slow'])
            if good and ans is None and not is_int and due + 1 + naps / SEC < limit:
                raise Violation('answer-lost', 'source %s answers within %.3f s when it is asked; it did not in %s s' % (s['name'], due, limit))
        extra = set(p['snap']) - set(s['name'] for s in p['srcs'])
        if extra and not p['real']:
            raise Violation('unknown-source', 'the result names %s' % sorted(extra))
    for p in polls:
        k.at(int(p['pd']['t'] * SEC), lambda p=p: k.spawn(lambda: poll(p), host, 'poll'))
    for c in plan['clock']:
        def step(c=c):
            host.offset += int(c['delta'] * SEC)
            k.fault('clock-jump')
        k.at(int(c['t'] * SEC), step)
    k.run(300 * SEC)
    k.run(3000 * SEC)
    for p in polls:
        if p['ret'] is None:
            raise Violation('poll-too-long', 'a poll with timeout %s has not returned after 3000 s' % p['pd']['timeout'])
        if k.holding():
            raise Violation('holds-program', 'a source that hangs keeps the program from ending (%s)' % k.holding()[0].name)
        if dict(p['ret']) != p['snap']:
            raise Violation('result-changes', 'after the return the result changed from %s to %s' % (p['snap'], dict(p['ret'])))
    ctx.nontrivial = ctx.nontrivial or k.nswitch > 3
