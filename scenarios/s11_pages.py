"""S11 - The page service delivers current pages, and only where this is permitted."""
import contextlib
import hashlib
import io
import json
import re

from dst import fs, kernel
from scenarios import srv
from scenarios.c03_singletons import reset as reset_threads
from scenarios.parsing import Injector, stable_hashes

RULE = ('a request for a page is answered with the content that the page has at that time (html-pages: with the checksum in the '
        'body-tag), with the empty string if and only if the checksum in the request is that of this content, or with an error '
        'page if the page does not exist or its directory has not been released; faults may lead to an error, but never to '
        'outdated or incomplete pages, the list of checksums remains complete, and requests succeed again when the faults are gone')
REAL = ['DHParser/server.py: Server.rpc_serve_page, handling of plain-data, http and json-rpc requests, service calls',
        'DHParser/toolkit.py: write_atomically, md5']
STUB = ['disk (scratch directory; errors, full disk, denied access, short reads and writes, crashes, interrupts)', 'network',
        'scheduling of concurrent servers']
ASSUMPTIONS = ['pages are changed by others between the accesses of the server to the file system',
               'completed writes survive a crash of the process in the order in which they were made']
RUNS = {'quick': 4000, 'thorough': 40000}

PAGES = ('index.html', 'about.htm', 'style.css', 'script.js', 'picture.png')
TYPES = {'html': 'text/html', 'htm': 'text/html', 'css': 'text/css', 'js': 'text/javascript'}
CONTENTS = ('<html><body>one</body></html>', '<html><head></head><body class="x">two</body></html>', '', 'no body',
            '<html><body>äöü €</body></html>', '<html><body>' + 'long ' * 500 + '</body></html>', '<body>one</body>\n<p>\\1 \\g<0></p>') \
    + tuple('<html><body>%s%s%s</body></html>' % ('<p>line</p>\n' * (n // 2), x, '<p>line</p>\n' * (n // 2))
            for n in (1900, 9000) for x in ('one', 'two'))
BINARY = b'\x89PNG\xff\xfe\x00body<body>'
ALLOW = ('', 'index.html=0123\n', 'garbage\n=\n==\n  \nabout.htm = 9\n', 'other.html=77\nindex.html=\n', 'a=b=c\n')


def warmup():
    stable_hashes()
    from DHParser.configuration import get_config_value
    import DHParser.server
    get_config_value('max_rpc_size')
    with contextlib.redirect_stdout(io.StringIO()):
        DHParser.server.Server({})


def digest(text):
    return hashlib.md5(text.encode('utf8')).hexdigest()


def answer(name, data, checksum):
    """-> expected answer if the page has the content data (bytes)"""
    try:
        text = data.decode('utf-8')
    except UnicodeDecodeError:
        return data
    if checksum == digest(text):
        return ''
    if name.endswith(('.html', '.htm')):
        return re.sub('<body.*?>', '<body chksum="%s">' % digest(text), text)
    return text


class Site:
    """a directory with pages that are changed by others"""

    def __init__(self, ctx, disk, where):
        self.ctx, self.disk, self.where = ctx, disk, where
        self.current = {}
        self.past = {n: [] for n in PAGES}
        self.released = True

    def path(self, name):
        return self.disk.path(self.where, name)

    def edit(self, name):
        ch = self.ctx.ch
        data = BINARY if name == 'picture.png' else ch.pick(CONTENTS).encode()
        self.disk.write('%s/%s' % (self.where, name), data)
        self.current[name] = data
        self.past[name].append(data)

    def change(self):
        ch = self.ctx.ch
        name = ch.pick(PAGES)
        if name in self.current and ch.chance(15):
            self.remove(name)
            del self.current[name]
            return 'removed ' + name
        self.edit(name)
        return 'changed ' + name

    def remove(self, name):
        fs.REAL['remove'](self.path(name))

    def release(self, text):
        self.disk.write(self.where + '/DHParser.allow', text)
        self.released = True

    def withdraw(self):
        if self.released:
            self.remove('DHParser.allow')
        self.released = False

    def checksum(self, name):
        """a checksum a client might still have"""
        ch = self.ctx.ch
        texts = [d for d in self.past[name] if d != BINARY]
        kind = ch.weighted([(3, 'none'), (3, 'last'), (3, 'older'), (1, 'wrong')])
        if kind == 'none' or not texts and kind != 'wrong':
            return ''
        return digest((texts[-1] if kind == 'last' else ch.pick(texts)).decode()) if kind != 'wrong' else '0123'

    def want(self, name, checksum):
        """-> (kind, expected answer)"""
        if not self.released:
            return 'forbidden', None
        if name not in self.current:
            return 'not found', None
        return 'page', answer(name, self.current[name], checksum)

    def entries(self):
        text = self.disk.text(self.where + '/DHParser.allow')
        if text is None:
            return None
        return {l.split('=')[0].strip(): l.split('=')[1].strip() for l in text.split('\n') if l.count('=') == 1}

    def verify(self, msg, before):
        """the list of checksums is complete"""
        after = self.entries()
        self.ctx.check((after is None) == (not self.released), 'list', lambda: msg + ': list of checksums has vanished or come into being')
        for n, c in (before or {}).items():
            if after is not None and after.get(n) != c:
                self.ctx.check(n in self.current and after.get(n) == digest_of(self.current[n]), 'list',
                               lambda: '%s: checksum of %s is %r' % (msg, n, after.get(n)))
        for n, c in (after or {}).items():
            self.ctx.check((before or {}).get(n) == c or n in self.current and c == digest_of(self.current[n]), 'list',
                           lambda: '%s: wrong checksum of %s: %r' % (msg, n, c))


def digest_of(data):
    try:
        return digest(data.decode())
    except UnicodeDecodeError:
        return None


def judge(ctx, msg, site, name, want, res, disturbed, visible=''):
    kind, expected = want
    show = lambda x: repr(x)[:150]
    if kind == 'page':
        if disturbed and isinstance(res, str) and ('forbidden' in res or 'not found' in res) and res != expected:
            return
        ctx.check(res == expected, 'page', lambda: '%s: %s instead of %s' % (msg, show(res), show(expected)))
    else:
        # a disturbed existence-check may fail for the other reason
        ctx.check(isinstance(res, str) and (kind in res or disturbed and 'forbidden' in res) and '<h1>' in res, 'error',
                  lambda: '%s: %s instead of an error page (%s)' % (msg, show(res), kind))


def attempt(ctx, disk, fault, fn):
    """-> (answer, what, disturbed)"""
    before = sum(ctx.faults.values())
    inj, res = None, None
    try:
        if fault == 'line':
            inj = Injector(ctx, ('server.py', 'toolkit.py'))
            res = inj.run(fn, ctx.ch.rint(1, 40), KeyboardInterrupt('injected'))
        else:
            res = fn()
        what = 'ok'
    except fs.SimCrash:
        what = 'crash'
        disk.restart()
        reset_threads()
    except KeyboardInterrupt:
        what = 'interrupted'
    except Exception as e:
        what = '%s: %s' % (type(e).__name__, str(e)[:200])
    disk.disarm()
    if inj is not None and inj.hit:
        ctx.fault('interrupt at line')
    return res, what, sum(ctx.faults.values()) > before


def histories(ctx):
    from DHParser.server import Server
    ch = ctx.ch
    disk = fs.FS(ctx)
    with disk:
        disk.step = 1.0
        disk.bufsize = ch.pick((16, 512, io.DEFAULT_BUFFER_SIZE))
        site = Site(ctx, disk, 'www')
        for n in PAGES:
            if ch.chance(70):
                site.edit(n)
        site.release(ch.pick(ALLOW))
        server = Server({})
        ctx.case = []
        for _ in range(ch.rint(2, 8)):
            if ctx.violations:
                return
            if ch.chance(50):
                ctx.case.append(site.change())
            if ch.chance(8):
                if site.released:
                    site.withdraw()
                else:
                    site.release(ch.pick(ALLOW))
                ctx.case.append('released' if site.released else 'withdrawn')
            name = ch.pick(PAGES)
            checksum = site.checksum(name)
            fault = ch.weighted([(6, ''), (3, 'crash'), (3, 'error'), (2, 'full'), (2, 'denied'), (1, 'interrupt'), (1, 'torn'), (2, 'line')])
            if fault not in ('', 'line'):
                kw = {}
                if ch.chance(50):
                    where = ch.pick(('DHParser.allow', name))
                    kw['paths'] = lambda p: where in p
                if fault == 'error':
                    kw['times'] = ch.pick((1, 2, 100))
                disk.arm(fault, ch.rint(0, 8), **kw)
                if fault not in ('full', 'crash') and ch.chance(20):
                    disk.short_io = 50
            before = site.entries()
            want = site.want(name, checksum)
            request = (checksum + ':' if checksum or ch.chance(10) else '') + site.path(name)
            res, what, disturbed = attempt(ctx, disk, fault, lambda: server.rpc_serve_page(request))
            if what in ('crash', 'interrupted'):
                server = Server({})
            msg = 'request %s:%s%s -> %s %s' % (checksum[:6], name, ' [%s]' % fault if fault else '', what, repr(res)[:60])
            ctx.case.append(msg)
            ctx.ev('call', msg)
            ctx.nontrivial = True
            if what == 'ok':
                judge(ctx, msg, site, name, want, res, disturbed)
            else:
                ctx.check(disturbed, 'raised', msg)
            site.verify(msg, before)


def servers(ctx):
    """several servers deliver pages from the same directory, which is edited at the same time"""
    from DHParser.server import Server
    ch = ctx.ch
    w = kernel.World(ctx, preempt=True)
    disk = fs.FS(ctx)
    with disk:
        disk.step = 1.0
        disk.bufsize = ch.pick((16, 512, io.DEFAULT_BUFFER_SIZE))
        site = Site(ctx, disk, 'www')
        for n in PAGES:
            site.edit(n)
        site.release(ch.pick(ALLOW))
        n = ch.rint(2, 3)
        plan = [[(ch.pick(PAGES[:4]), ch.chance(50)) for _ in range(ch.rint(1, 4))] for _ in range(n)]
        edits = ch.rint(0, 4)
        ctx.case = '%s, %d edits' % (plan, edits)
        editing = ch.chance(70)

        def serve(i):
            server = Server({})
            known = {}
            for name, with_checksum in plan[i]:
                checksum = known.get(name, '') if with_checksum else ''
                k = len(site.past[name]) - 1
                res = server.rpc_serve_page((checksum + ':' if checksum else '') + site.path(name))
                possible = [answer(name, d, checksum) for d in site.past[name][k:]]
                ctx.check(res in possible, 'page', lambda: 'server %d, %s:%s: %r is not one of %s' % (
                    i, checksum, name, res[:200], [p[:200] for p in possible]))
                m = re.search('chksum="(.*?)"', res)
                if m:
                    known[name] = m.group(1)
                ctx.ev('answer', i, name, len(res))

        def edit():
            for _ in range(edits):
                w.sleep(ch.pick((0.0, 0.1)))
                for _ in range(ch.rint(0, 3)):
                    w.yield_()
                site.edit(ch.pick(PAGES[:4]))

        def main():
            actors = [w.spawn(lambda i=i: serve(i), 'S%d' % i) for i in range(n)]
            if editing:
                actors.append(w.spawn(edit, 'editor'))
            w.block(lambda: all(a.state == kernel.DONE for a in actors), 1000.0)
            for a in actors:
                ctx.check(a.state == kernel.DONE and a.exc is None, 'failed', lambda: '%s %s %r' % (a.name, a.state, a.exc))
        kernel.instrument(files=('server.py', 'toolkit.py'))
        try:
            w.run(main)
        finally:
            kernel.uninstrument()
        ctx.nontrivial = True
        entries = site.entries()
        for name, c in (entries or {}).items():
            if name in PAGES:
                ctx.check(c in [digest_of(d) for d in site.past[name]] or any('%s=%s\n' % (name, c) in a.replace(' ', '') for a in ALLOW),
                          'list', lambda: 'wrong checksum of %s: %r' % (name, c))
        leftover = [p for p in disk.files() if p.endswith('.tmp')]
        ctx.check(not leftover, 'leftover', lambda: str(leftover))


def wire(ctx):
    """pages over the network: as plain data, http- and json-rpc-request, from the first and from further connections"""
    ch = ctx.ch
    disk = fs.FS(ctx)
    with disk:
        disk.step = 0.0
        site = Site(ctx, disk, 'www')
        for n in PAGES:
            if ch.chance(80):
                site.edit(n)
        if ch.chance(90):
            site.release(ch.pick(ALLOW))
        else:
            site.released = False
        plan = [(ch.pick(PAGES), ch.pick(('plain', 'http', 'http', 'rpc')), ch.chance(50)) for _ in range(ch.rint(1, 5))]
        second = ch.chance(40)
        ctx.case = '%s%s' % (plan, ' second connection' if second else '')
        rig = srv.Rig(ctx, {'echo': srv.echo})

        def orch(rig):
            rig.net.window = max(rig.net.window, 16384)     # so that large pages take hours at most
            if second:
                rig.client('main')
                rig.w.sleep(1.0)
            for k, (name, kind, change) in enumerate(plan):
                if change:
                    site.edit(name)
                checksum = site.checksum(name)
                path = (checksum + ':' if checksum else '') + site.path(name)
                want = site.want(name, checksum)
                msg = '%s %s:%s' % (kind, checksum[:6], name)
                c = rig.client()
                c.sock.split, c.sock.window = 1, 4096        # unframed requests arrive in one piece
                if kind == 'http':
                    c.send('GET /serve/%s HTTP/1.1\r\nHost: localhost\r\n\r\n' % path)
                    c.wait(lambda: length(c.data) is not None, 2000.0)
                    res = length(c.data)
                    kinds = re.findall(rb'\nContent-Type: *([a-z/]+)', bytes(c.data).split(b'\r\n\r\n')[0])
                    wanted = TYPES.get(name.split('.')[1])
                    if want[0] == 'page' and wanted:
                        ctx.check(kinds == [wanted.encode()], 'type', lambda: '%s: content type %s' % (msg, kinds))
                elif kind == 'rpc':
                    c.send(srv.frame(srv.rpc('serve', [path], k + 1)))
                    c.wait_rpc_id(k + 1, 2000.0)
                    got = [m for m in c.rpcs() if m.get('id') == k + 1]
                    res = got[0].get('result') if got else None
                    res = res.encode() if isinstance(res, str) else res
                else:
                    c.send(srv.frame('serve("%s")' % path))
                    c.wait(lambda: length(c.data) is not None, 2000.0)
                    res = length(c.data)
                ctx.ev('answer', msg, repr(res)[:100])
                c.close()
                rig.w.sleep(5.0)
                if kind == 'rpc' and want[0] == 'page' and isinstance(want[1], bytes):
                    pass          # binary data is not sent as json
                elif res is None:
                    ctx.violate('silent', msg + ': no answer')
                else:
                    expected = want[1]
                    if isinstance(expected, bytes):
                        judge(ctx, msg, site, name, want, res, False)
                    else:
                        judge(ctx, msg, site, name, want, res.decode(), False)
        with contextlib.redirect_stdout(io.StringIO()):
            rig.run(orch)
        ctx.nontrivial = True


def length(data):
    """-> body of a http-response or None if it is not yet complete"""
    head, end, body = bytes(data).replace(b'\r\n\r\n', b'\n\n', 1).partition(b'\n\n')
    m = re.search(rb'Content-Length:\s*(\d+)', head)
    if not end or m is None or len(body) < int(m.group(1)):
        return None
    return body[:int(m.group(1))]


SCENARIOS = [('histories', histories, 10), ('servers', servers, 3), ('wire', wire, 3)]
