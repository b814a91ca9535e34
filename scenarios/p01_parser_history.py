"""P01 - the result of a parse does not depend on what the parser object did before."""
import copy
import sys

from dst import kernel
from scenarios import corpus as K
from scenarios.parsing import Injector, Subject, Query, compare, spoil, EXCEPTIONS

RULE = ('after every history of calls on a grammar object, a parse yields the tree, the errors, the source and '
        '(with tracing) the parsing history that a brand-new object of a brand-new class yields; results returned '
        'earlier do not change any more')
REAL = ['DHParser/parse.py: Grammar, all parsers', 'DHParser/trace.py', 'DHParser/nodetree.py: RootNode',
        'DHParser/ebnf.py: compilation of the grammars']
STUB = ['asynchronous exceptions (raised by the simulator at the n-th executed line)', 'the cancel-query']
ASSUMPTIONS = ['exceptions arrive between two lines of Python code', 'one thread per grammar object']
RUNS = {'quick': 8000, 'thorough': 60000}


def warmup():
    import DHParser.trace
    K.load()
    for name in K.GRAMMARS:
        for d in K.documents(name)[:3]:
            K.parse_outcome(K.grammar_class(name)(), d, 'root_parser__')


def history(ctx):
    from DHParser.trace import resume_notices_on, resume_notices_off
    from DHParser.parse import CANCEL_QUERY_INTERVAL
    from DHParser.error import CANCELED
    ch = ctx.ch
    name = ch.pick(list(K.GRAMMARS))
    sub = Subject(ctx, name)
    grs = [sub.grammar()]
    if ch.chance(30):
        grs.append(sub.grammar())
    steps = []
    ctx.case = [name]
    inj = Injector(ctx)
    keep = []
    traced = {}

    def settle(gr):
        """puts the settings of a grammar object to their defaults (as a user would)"""
        if traced.pop(id(gr), False):
            resume_notices_off(gr)
        gr.cancel_query__ = None

    for i in range(ch.rint(1, 5)):
        gr = grs[ch.draw(len(grs))]
        case = sub.case()
        act = ch.weighted([(4, 'parse'), (4, 'exception'), (2, 'cancel'), (2, 'trace'), (1, 'query'),
                           (1, 'recursion'), (1, 'match'), (1, 'spoil'), (1, 'copy'), (1, 'trace_exception'),
                           (1, 'query_fails'), (1, 'trace_cancel')])
        steps.append((act,) + case)
        ctx.case = '%s %s' % (name, steps)
        ctx.ev('STEP', act, repr(case))
        if act.startswith('trace'):
            if not traced.get(id(gr)):
                if ch.chance(50):
                    settle(gr)      # otherwise the tracer comes on top of a cancel-query
                resume_notices_on(gr)
                traced[id(gr)] = True
            gr.cancel_query__ = None
        else:
            settle(gr)
        if act in ('parse', 'trace'):
            compare(ctx, sub, gr, case, 'step %d (%s)' % (i, act), tracing=act == 'trace', keep=keep)
        elif act in ('exception', 'trace_exception'):
            other = sub.grammar(fresh_class=True)
            tracing = act.startswith('trace')
            if tracing:
                resume_notices_on(other)
            inj.run(lambda: sub.parse(other, case))
            total = inj.lines
            at = ch.rint(1, max(1, total))
            exc = ch.pick(EXCEPTIONS)
            try:
                inj.run(lambda: gr(case[0], case[1], complete_match=case[2]), at, exc('injected'))
                ctx.ev('swallowed' if inj.hit else 'not reached')
            except BaseException as e:
                ctx.ev('raised', type(e).__name__, at)
            if inj.hit:
                ctx.fault(exc.__name__)
        elif act in ('cancel', 'query', 'query_fails', 'trace_cancel'):
            q = Query(0 if act == 'query' else ch.rint(1, 12), ch.chance(50),
                      KeyError('query') if act == 'query_fails' else None)
            gr.cancel_query__ = q
            gr.cancel_interval__ = ch.pick((0, 1, 3, 10, CANCEL_QUERY_INTERVAL))
            got = sub.parse(gr, case)
            if q.granted:
                ctx.fault('cancelled')
                ctx.check(got[0] == 'ok' and any(e[1] == CANCELED for e in got[1][1]), 'cancel',
                          lambda: 'cancelled parse (%s): %s' % (case, K.show(got)))
            elif q.fail is not None and q.polls >= q.n:
                ctx.fault('cancel_query_fails')
            elif act != 'trace_cancel':
                want = sub.ref(case)
                ctx.check(got == want, 'query', lambda: 'cancel-query without cancellation %s: %s' % (
                    case, K.diff(got, want)))
            if ch.chance(50):
                gr.cancel_query__ = None
        elif act == 'recursion':
            limit = sys.getrecursionlimit()
            depth = 0
            f = sys._getframe()
            while f:
                depth, f = depth + 1, f.f_back
            sys.setrecursionlimit(depth + 12 + 3 * ch.draw(40))
            try:
                try:
                    gr(case[0], case[1], complete_match=case[2])
                finally:
                    sys.setrecursionlimit(limit)
            except BaseException as e:
                ctx.ev('recursion limit:', type(e).__name__)
            ctx.fault('recursion_limit')
        elif act == 'match':
            for d in sub.docs[:3]:
                K.outcome(lambda: gr.match__(case[1], d))
                K.outcome(lambda: gr.fullmatch__(case[1], d))
        elif act == 'spoil':
            def consume():
                spoil(gr(case[0], case[1], complete_match=case[2]))
            o = K.outcome(consume)
            ctx.ev('spoiled', o[0])
            ctx.nontrivial = True
        elif act == 'copy':
            grs.append(sub.grammar() if ch.chance(30) else copy.deepcopy(gr))
            if len(grs) > 3:
                del grs[0]
            ctx.nontrivial = True
    ctx.nontrivial = True
    for gr in grs:
        settle(gr)
        for _ in range(ch.rint(1, 3)):
            compare(ctx, sub, gr, sub.case(), 'after %s' % steps, keep=keep)
        if ch.chance(15):
            resume_notices_on(gr)
            compare(ctx, sub, gr, sub.case(), 'traced, after %s' % steps, tracing=True)
            resume_notices_off(gr)
            compare(ctx, sub, gr, sub.case(), 'after tracing, after %s' % steps)
    for case, tree, before in keep:
        now = K.dump_tree(tree)
        ctx.check(now == before, 'earlier_result', lambda: 'the result for %s has changed: %s' % (
            case, K.diff(('ok', now), ('ok', before))))


SCENARIOS = [('history', history, 1)]
