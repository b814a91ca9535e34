"""S04 - the language-server life cycle is enforced for every message history."""
from . import srv
from .srv import frame, rpc

KINDS = ('initialize', 'initialized', 'shutdown', 'exit', 'work', 'slow', 'identify', 'unknown',
         'info', 'badversion_initialize', 'badversion_shutdown', 'badversion_initialized',
         'badid_initialize', 'answer')


class Model:
    """reference model of the life cycle of one connection"""

    def __init__(self):
        self.init = ''          # '', 'initializing', 'initialized'
        self.shut = False
        self.gone = False

    def step(self, kind):
        """-> 'ok' | 'gone' | set of acceptable error codes"""
        if self.gone:
            return 'gone'
        if kind.startswith('badversion') or kind.startswith('badid'):
            return {-32600}
        if kind == 'initialize':
            if self.init or self.shut:
                return {-32002}
            self.init = 'initializing'
            return 'ok'
        if kind == 'initialized':
            if self.init != 'initializing':
                return {-32002}
            self.init = 'initialized'
            return 'ok'
        if kind == 'shutdown':
            self.shut, self.init = True, ''
            return 'ok'
        if kind == 'exit':
            self.gone = True
            return 'ok'
        if kind == 'identify':
            return 'any'            # answered at any time or refused like ordinary calls
        if self.shut:
            return {-32600}
        if self.init != 'initialized':
            return {-32002}
        return {-32601} if kind == 'unknown' else 'ok'


def gen_history(ch, n):
    """mostly sensible histories with arbitrary deviations"""
    hist = []
    straight = ['initialize', 'initialized', 'work', 'shutdown', 'exit']
    k = 0
    for _ in range(n):
        if ch.chance(60) and k < len(straight):
            hist.append(straight[k])
            if straight[k] != 'work' or ch.chance(50):
                k += 1
        else:
            hist.append(ch.weighted([(4, 'work'), (3, 'initialize'), (3, 'initialized'),
                                     (2, 'shutdown'), (1, 'exit'), (2, 'slow'), (1, 'identify'),
                                     (1, 'unknown'), (1, 'info'), (1, 'badversion_initialize'),
                                     (1, 'badversion_shutdown'), (1, 'badversion_initialized'),
                                     (1, 'badid_initialize'), (1, 'answer')]))
    return hist


def lifecycle(ctx):
    ch = ctx.ch
    nconn = ch.pick((1, 1, 2, 3))
    histories = [gen_history(ch, ch.rint(1, 10)) for _ in range(nconn)]
    own = ch.chance(50)         # the server defines its own initialize/shutdown procedures
    ctx.case = ' || '.join(' '.join(h) for h in histories)
    ran = []

    def work(tag='', **kw):
        ran.append(tag)
        return tag

    async def slow(tag='', **kw):
        import asyncio
        ran.append(tag)
        await asyncio.sleep(0.4)
        return tag

    async def initialize(tag='', **kw):
        import asyncio
        await asyncio.sleep(0.2)
        ran.append(tag)
        return {'capabilities': {}}

    def shutdown(tag='', **kw):
        ran.append(tag)
        return None

    table = {'work': work, 'slow': slow}
    if own:
        table.update(initialize=initialize, shutdown=shutdown)

    def orch(rig):
        for ci, hist in enumerate(histories):
            model = Model()
            c = rig.client('C%d' % ci)
            sent = []
            pipelined = ch.chance(60)
            for mi, kind in enumerate(hist):
                tag = 'c%dm%d' % (ci, mi)
                notification = kind in ('initialized', 'exit') and ch.chance(80) or ch.chance(15)
                ID = None if notification else mi + 1
                exp = model.step(kind)
                method = kind.split('_')[-1]
                if kind == 'answer':
                    # the client's answer to a request that nobody has made
                    c.send('' if model.gone else frame('{"jsonrpc": "2.0", "id": 5, "result": 1}'))
                    continue
                if kind.startswith('badversion'):
                    data = rpc(method, {'tag': tag}, ID, jsonrpc='1.0')
                elif kind.startswith('badid'):
                    data, ID = rpc(method, {'tag': tag}, {'bad': 'id'}), None
                else:
                    data = rpc(method, {'tag': tag}, ID)
                ctx.ev('send', tag, kind, ID, exp)
                c.send(frame(data))
                sent.append((tag, kind, ID, exp))
                if not pipelined:
                    rig.net.settle()
                elif ch.chance(40):
                    rig.w.sleep(ch.pick((0.001, 0.1, 0.3, 2.0)))
            rig.net.settle()
            msgs, problem = c.messages()
            after_exit = any(x[3] == 'gone' for x in sent) or 'answer' in hist
            if problem and not (model.gone and after_exit):
                # (the connection is dropped if a client keeps sending after exit, so that
                # responses still under way may be lost)
                ctx.violate('undecodable', problem)
                return
            answers = {}
            for m in msgs:
                if m[0] == 'rpc' and m[1].get('id') is not None:
                    answers.setdefault(m[1]['id'], []).append(m[1])
            for tag, kind, ID, exp in sent:
                info = '%s %s#%s in %s' % (tag, kind, ID, ' '.join(hist))
                calls = ran.count(tag)
                has_proc = kind in ('work', 'slow') or own and kind in ('initialize', 'shutdown')
                if exp == 'gone':
                    ctx.check(not calls and not answers.get(ID) or ID is None and not calls,
                              'after_exit', 'served after exit: ' + info)
                    continue
                ctx.check(calls == (1 if exp == 'ok' and has_proc else 0), 'reach', lambda:
                          '%s has been executed %i time(s), expected %s'
                          % (info, calls, exp))
                if ID is None:
                    continue
                a = answers.get(ID, [])
                if kind in ('exit', 'initialized') and exp == 'ok':
                    continue        # never answered, even if they carry an id
                if len(a) != 1:
                    # answers may be lost if the connection ends while they are under way
                    if not (model.gone and (pipelined or after_exit) and not a):
                        ctx.violate('answer', '%i answers to %s; %s'
                                    % (len(a), info, rig.handler_errors()))
                elif exp == 'any':
                    pass
                elif exp == 'ok':
                    ctx.check('error' not in a[0], 'refused', lambda: '%s refused: %s' % (info, a))
                else:
                    ctx.check('error' in a[0] and a[0]['error']['code'] in exp, 'accepted',
                              lambda: '%s answered by %s, expected error %s' % (info, a, exp))
            if model.gone:
                ctx.check(c.wait_closed(0.1), 'not_closed',
                          lambda: 'connection still open after exit: %s; %s'
                          % (' '.join(hist), rig.handler_errors()))
            else:
                ctx.check(not c.closed_by_server, 'closed', lambda: 'connection closed without '
                          'exit: %s; %s' % (' '.join(hist), rig.handler_errors()))
                if ch.chance(50):
                    c.close()
                else:
                    c.reset()
                rig.net.settle()

    rig = srv.Rig(ctx, table, strict=True)
    rig.run(orch)


SCENARIOS = [('lifecycle', lifecycle, 1)]
RUNS = {'quick': 4000, 'thorough': 80000}
RULE = ('One run: up to three successive connections, each with a history of up to 10 messages, '
        'compared message by message with a reference model of the life cycle.')
REAL = ['DHParser.server.Server and Connection', 'asyncio streams, transports and tasks']
STUB = ['TCP sockets and selector', 'clock']
ASSUMPTIONS = ['TCP delivers bytes in order without loss']


def warmup():
    return srv.warmup()
