"""P02 - a cancelled parse stops promptly, says so, and leaves the parser object usable."""
import re

from dst import kernel
from scenarios import corpus as K
from scenarios.parsing import Injector, Query, Subject, mutate, EXCEPTIONS

RULE = ('a parse during which cancellation is requested - at any executed line, or granted by any poll - returns '
        'after a bounded number of further lines; its errors contain exactly one cancellation error if and only '
        'if a poll was granted; otherwise tree and errors are those of a parse without a cancel-query; '
        'afterwards the same object parses as a brand-new one')
REAL = ['DHParser/parse.py: Grammar, all parsers, cancel_proxy', 'DHParser/trace.py: tracer with cancel-query',
        'DHParser/nodetree.py: RootNode']
STUB = ['the cancel-query and the moment of the request', 'asynchronous exceptions']
ASSUMPTIONS = ['the bound grows with the length of the document where the grammar needs it (left recursion, '
               'nested rollback); it is about three times what the present code needs']
RUNS = {'quick': 1600, 'thorough': 40000}

SMART = r'''
class SmartGrammar(Grammar):
    """Every terminal symbol is a SmartRE or a custom parser."""
    source_hash__ = "smart"
    static_analysis_pending__ = []
    parser_initialization__ = ["upon instantiation"]
    COMMENT__ = r''
    WHITESPACE__ = r'\s*'
    WSP_RE__ = mixin_comment(whitespace=WHITESPACE__, comment=COMMENT__)
    hexnum = CustomParser(parse_hex)
    pair = SmartRE(r'(?P<key>[x-z]+)=(?P<val>[0-9]+) *', '/[x-z]+=[0-9]+/')
    word = SmartRE(r'([g-w]+) *', '/[g-w]+/')
    doc = ZeroOrMore(Alternative(pair, word, Series(SmartRE(r'#', '`#`'), hexnum, SmartRE(r' *', '~'))))
    root__ = doc
'''

# lines executed after the request: constant part and part per character of the document
BOUND = {'arith': (6000, 160), 'xml': (16000, 80), 'resume': (8000, 40), 'list': (8000, 10), 'indent': (6000, 180),
         'mixed': (8000, 0), 'optimized': (8000, 0), 'brackets': (9000, 25), 'refs': (8000, 20), 'smart': (4500, 3)}
_smart = None


def smart_class():
    from DHParser.ebnf import DHPARSER_IMPORTS
    global _smart
    if _smart is None:
        _smart = compile(DHPARSER_IMPORTS + 'from DHParser.parse import SmartRE, CustomParser\n' + SMART,
                         '<corpus smart>', 'exec')
    env = {'__name__': 'corpus_smart', 'parse_hex': K.parse_hex}
    exec(_smart, env)
    return env['SmartGrammar']


def long_document(ch, name):
    n = ch.rint(1, 10)

    def some(parts):
        return [ch.pick(parts) for _ in range(n * 3)]
    if name == 'arith':
        return ' + '.join(some(['1 * (2 - x)', '3', '((4)) / y', '(1 - 1) - 2']))
    if name == 'xml':
        return '<r>' + ''.join(some(['<a>x</a>', '<a><b>1</b><b k="v">2</b></a>', 't', '<a y="2"><c></c></a>'])) + '</r>'
    if name == 'list':
        return '[' + ', '.join(some(['A', '1', '[1, 2]', '[B, [3], 4]', '[]'])) + ']'
    if name == 'indent':
        return 'a\n' + '\n'.join(some(['  b "1"', '  c\n    d "x"\n    e', '  f\n    g\n      h']))
    if name in ('mixed', 'optimized'):
        return '\n'.join(some(['rec id abc = 1 ! ;', "'quoted' ", 'h 1,2', "''a'b'' 'c'", 'on x .']))
    if name == 'refs':
        return ' '.join(some(['1 + 2 * 3', 'a: 1 + 2 a', 'a: <1> <2> a', '(#12*#12) + (4)']))
    if name == 'brackets':
        return ''.join(some(['({[<a>]})', '[a]', '((a)(b)) x', '<[{a b}] c>']))
    if name == 'smart':
        return ''.join(some(['hello ', 'x=1 ', 'yy=23 ', '#ab1 ', 'w'])) * 16
    return ' '.join(some(K.documents(name)))


class LongSubject(Subject):
    def __init__(self, ctx, name):
        ch = ctx.ch
        if name == 'smart':
            self.ctx, self.name, self.refs, self.dropouts, self.left_recursion = ctx, name, {}, 1, True
            self.cls, self.starts = smart_class(), ['doc', 'word']
            self.docs = []
        else:
            super().__init__(ctx, name, tune=False)
            self.docs = self.docs[:2]
        for _ in range(2):
            d = long_document(ch, name)
            if ch.chance(30):
                d = mutate(ch, d, [d]) if len(d) < 400 else d[:ch.rint(1, len(d))]
            self.docs.append(d)
        if ch.chance(10):
            self.docs.append('')

    def grammar(self, fresh_class=False):
        if self.name != 'smart':
            return super().grammar(fresh_class)
        return (smart_class() if fresh_class else self.cls)()

    def case(self):
        ch = self.ctx.ch
        return (self.docs[-1 - ch.draw(len(self.docs))], ch.pick(self.starts) if ch.chance(20) else 'root_parser__',
                ch.pick(('WSP_RE__', True, False)))


class Request(Query):
    """Cancellation is requested from outside at a certain moment (and withdrawn, maybe)"""

    def __init__(self):
        super().__init__(0)
        self.requested = False
        self.error = None

    def __call__(self):
        self.polls += 1
        if self.requested:
            self.granted += 1
        return self.requested


def warmup():
    K.load()
    smart_class()


def cancel(ctx):
    from DHParser.error import CANCELED
    from DHParser.trace import resume_notices_on, resume_notices_off
    ch = ctx.ch
    name = ch.pick(list(K.GRAMMARS) + ['smart', 'smart'])
    sub = LongSubject(ctx, name)
    gr = sub.grammar()
    inj = Injector(ctx)
    steps = []
    traced = False
    for i in range(ch.rint(1, 3)):
        case = sub.case()
        L = len(case[0])
        a, b = BOUND[name]
        bound = a + b * L
        if traced and ch.chance(50):
            resume_notices_off(gr)
            traced = False
        elif not traced and ch.chance(15):
            resume_notices_on(gr)
            traced = True
        mode = ch.weighted([(5, 'line'), (4, 'poll'), (1, 'flicker'), (1, 'never'), (1, 'before')])
        q = Request() if mode in ('line', 'before', 'never') else Query(ch.rint(1, 30), mode == 'poll')
        if mode == 'before':
            q.requested = True
        # how long does it take without a request?
        free = sub.grammar(fresh_class=True)
        if traced:
            resume_notices_on(free)
            bound *= 8
        calm = Request()
        free.cancel_query__ = calm
        got = inj.run(lambda: sub.parse(free, case))
        total = inj.lines
        want = sub.ref(case, tracing=False) if not traced else None
        if want is not None:
            ctx.check(got == want, 'query', lambda: 'a cancel-query that always declines changes the result of '
                      '%s %s: %s' % (name, case, K.diff(got, want)))
        steps.append((mode, traced) + case[1:] + (case[0][:40], L))
        ctx.case = '%s %s' % (name, steps)
        at = ch.rint(1, max(1, total))
        mark = {}

        def hook(j):
            if mode == 'line' and j.lines == at:
                q.requested = True
                mark['line'] = j.lines
            if q.granted and 'granted' not in mark:
                mark['granted'] = j.lines
        inj.hook = hook
        gr.cancel_query__ = q
        tree = None

        def run():
            nonlocal tree
            tree = gr(case[0], case[1], complete_match=case[2])
            return K.dump_tree(tree)
        try:
            out = inj.run(lambda: K.outcome(run))
        finally:
            inj.hook = None
        ctx.ev('STEP', i, mode, traced, case[1:], L, 'lines', inj.lines, 'polls', q.polls, 'granted', q.granted)
        if out[0] != 'ok':
            # errors of the parser proper (raised without a request, too) are P01's business
            ref = sub.ref(case)
            if ref[0] == 'ok' or q.granted:
                ctx.violate('raised', '%s %s: %s' % (name, steps[-1], K.show(out)))
            continue
        errs = [e for e in tree.errors if e.code == CANCELED]
        if q.granted:
            ctx.fault('cancelled in ' + mode)
            ctx.check(len(errs) == 1, 'error_count', lambda: '%d cancellation errors: %s, %s' % (
                len(errs), name, steps[-1]))
            ctx.check(q.granted == 1, 'polled_again', lambda: 'the query was asked %d times after it had granted '
                      'the cancellation: %s %s' % (q.granted - 1, name, steps[-1]))
            for e in errs:
                nums = [int(x) for x in re.findall(r'\d+', e.message)]
                ctx.check(len(nums) < 2 or 0 <= nums[0] <= nums[1] == L, 'position', lambda: e.message)
            ctx.check(str(tree.source) == case[0], 'source', lambda: 'wrong source in tree %s' % K.show(tree.source))
            spent = inj.lines - mark.get('granted', inj.lines)
            ctx.check(spent <= 3000 + 25 * L, 'slow_stop', lambda: '%d lines after the cancellation was granted: '
                      '%s %s' % (spent, name, steps[-1]))
        else:
            ctx.check(not errs, 'unrequested', lambda: 'cancellation error without cancellation: %s %s' % (
                name, steps[-1]))
            if want is not None:
                ctx.check(out == want, 'query', lambda: 'result differs though nothing was cancelled %s %s: %s' % (
                    name, steps[-1], K.diff(out, want)))
        if 'line' in mark or mode == 'before':
            if not q.granted:
                ctx.fault('request too late')
            spent = inj.lines - mark.get('line', 0)
            ctx.check(spent <= bound, 'not_prompt', lambda: '%d lines (of %d) after the request (bound %d): %s %s' % (
                spent, total, bound, name, steps[-1]))
            ctx.probe('lines after request: %s' % ('<1000' if spent < 1000 else '<4000' if spent < 4000 else '>=4000'))
        ctx.nontrivial = ctx.nontrivial or bool(q.granted)
        polls = q.polls
        # the object is still usable, without and with another query
        gr.cancel_query__ = None if ch.chance(70) else Request()
        if ch.chance(25):
            exc = ch.pick(EXCEPTIONS)
            K_at = ch.rint(1, 3000)
            try:
                inj.run(lambda: sub.parse(gr, case), K_at, exc('injected'))
            except BaseException as e:
                ctx.ev('raised', type(e).__name__)
            if inj.hit:
                ctx.fault(exc.__name__)
        if traced:
            resume_notices_off(gr)
            traced = False
        for _ in range(ch.rint(1, 2)):
            other = sub.case()
            got, ref = sub.parse(gr, other), sub.ref(other)
            ctx.check(got == ref, 'unusable', lambda: 'after %s: %s %s: %s' % (
                steps, name, other, K.diff(got, ref)))
        ctx.check(q.polls == polls, 'stale_query', lambda: 'a query that was removed is still being asked')


SCENARIOS = [('cancel', cancel, 1)]
