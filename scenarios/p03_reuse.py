"""P03 - compilers and transformers are reusable after failures and cancellation."""
from dst import kernel
from scenarios import corpus as K
from scenarios.parsing import Injector, Query, mutate, EXCEPTIONS
from scenarios.p02_cancel_parse import Request

RULE = ('a compiler, a transformation table, a chain parser-transformer-compiler and the EBNF-compiler yield for '
        'every tree or document what brand-new objects yield, whatever they did before (success, error, '
        'exception or interrupt at an arbitrary line, cancellation); a granted cancellation is reported exactly '
        'once and ends the run, an ungranted one leaves no trace, and no query is asked after its call')
REAL = ['DHParser/compile.py: Compiler, compile_source', 'DHParser/transform.py: traverse, transformer',
        'DHParser/parse.py', 'DHParser/ebnf.py: grammar, transformer and compiler for EBNF']
STUB = ['the cancel-query and the moment of the request', 'asynchronous exceptions']
ASSUMPTIONS = ['exceptions arrive between two lines of Python code', 'one thread']
RUNS = {'quick': 3000, 'thorough': 40000}

EBNF = {
    'small': 'doc = { word | num } EOF\nword = /\\w+/~\nnum = /[0-9]+/~\nEOF = !/./\n',
    'directives': '@ whitespace = /\\s*/\n@ comment = /#.*/\n@ literalws = right\n@ ignorecase = True\n'
                  '@ disposable = _\\w+\n@ drop = whitespace, strings\n'
                  'doc = ~ "begin" { _item } § "end"\n_item = key "=" val\nkey = /[a-z]+/~\nval = `x` | `y` | [`z`]\n',
    'resume': '@ doc_resume = /;/\n@ a_skip = /,/\n@ a_error = "", "a expected: {1}"\n'
              'doc = a ";" § b\na = "a" § "b"\nb = "b"\n',
    'macro': '@ disposable = EOF\ndoc = $list(`a`, `,`) EOF\n$list($item, $sep) = $item { $sep $item }\nEOF = !/./\n',
    'macro2': 'doc = $opt(/\\d/) tail\n$opt($x) = [ $x ] "!"\ntail = $opt(`t`)\n',
    'undefined': 'doc = a | b\na = "x" c\n',
    'duplicate': 'doc = a\na = "x"\na = "y"\n',
    'syntax': 'doc = { a | \na = "x" ~ ] \n b = \n',
    'recursive': 'expr = expr `+` term | term\nterm = term `*` fac | fac\nfac = /\\d/ | `(` expr `)`\n',
    'capture': '@ tag_filter = matching_bracket()\ndoc = tag { /\\w/ } ::tag\ntag = /[(<]+/\n',
    'tokens': '@ tokens = BEGIN, END\n@ reduction = merge\ndoc = BEGIN /\\w/ END\n',
    'unused': 'doc = "x"\nother = "y" third\nthird = other\n',
    'keyword': '@ keyword = /if|else/\n@ optimizations = all\ndoc = { "if" | "else" | /[a-z]+/ } &EOF\nEOF = !/./\n',
    'custom': '@ Custom(foo)\ndoc = @Custom(parse_x) { /y/ }\n',
    'empty': '',
    'heuristic': 'doc ::= "a" | <b>\n<b> ::= "c"*\n',
    'flavour': '@ flavor = heuristic\ndoc ::= "a"? b+\nb ::= "c"*\n',
}
_ebnf_ref = {}


def compile_ebnf_fresh(doc, name):
    """-> outcome with new objects (those of this thread are put aside)"""
    from DHParser.configuration import access_thread_locals
    tl = access_thread_locals()
    keys = [k for k in list(tl.__dict__) if 'ebnf' in k.lower()]
    saved = {k: tl.__dict__.pop(k) for k in keys}
    try:
        return ebnf_outcome(doc, name)
    finally:
        for k in [k for k in list(tl.__dict__) if 'ebnf' in k.lower()]:
            del tl.__dict__[k]
        tl.__dict__.update(saved)


def ebnf_outcome(doc, name):
    from DHParser.ebnf import compile_ebnf

    def call():
        r = compile_ebnf(doc + '\n', name, preserve_AST=True)
        return (r.result, K.dump_errors(r.messages), K.dump(r.AST) if r.AST is not None else None)
    return K.outcome(call)


def warmup():
    K.load()
    for name, doc in EBNF.items():
        _ebnf_ref[doc, 'Tst'] = compile_ebnf_fresh(doc, 'Tst')


def parse_tree(name, doc):
    return K.grammar_class(name)()(doc)


class Chain:
    """persistent objects: parser, transformation table, compiler"""

    def __init__(self, name, kind):
        import DHParser.transform as T
        from functools import partial
        self.name, self.kind = name, kind
        self.parser = K.grammar_class(name)()
        self.table = K.table(name)
        self.transformer = partial(T.transformer, transformation_table=self.table, src_stage='CST', dst_stage='AST')
        outline, rewriter = K.compilers()
        self.compiler = outline() if kind[0] == 'outline' else rewriter()
        if kind[1] == 'compiler':
            # a Compiler that transforms the tree
            self.transformer = rewriter()

    def transform(self, tree):
        return self.transformer(tree)

    def source(self, doc, cancel_query=None, preserve=False, start='root_parser__'):
        from DHParser.compile import compile_source
        r = compile_source(doc + '\n', None, self.parser, self.transformer, self.compiler, start_parser=start,
                           preserve_AST=preserve, cancel_query=cancel_query)
        return (K.dump(r.result), K.dump_errors(r.messages),
                K.dump(r.AST) if r.AST is not None else None)


def reuse(ctx):
    from DHParser.error import CANCELED
    ch = ctx.ch
    name = ch.pick(list(K.GRAMMARS))
    kind = (ch.pick(('outline', 'rewriter')), 'table' if ch.chance(80) else 'compiler')
    chain = Chain(name, kind)
    docs = K.documents(name)
    mine = [ch.pick(docs) if ch.chance(70) else mutate(ch, ch.pick(docs), docs) for _ in range(4)]
    inj = Injector(ctx)
    refs = {}
    steps = []
    queries = []

    def thunk(c, what, doc, **kw):
        """-> function that performs one operation on the objects of c and yields something comparable"""
        if what == 'source':
            return lambda: c.source(doc, **kw)
        tree = parse_tree(name, doc)
        if what == 'transform':
            return lambda: K.dump_tree(c.transform(tree))
        if what == 'compile':
            return lambda: (K.dump(c.compiler(tree, **kw)), K.dump_errors(tree.errors))
        if what == 'attribute':     # the query is attached to the object, as compile_source() does
            def run():
                c.compiler.cancel_query = kw.get('cancel_query')
                return K.dump(c.compiler(tree)), K.dump_errors(tree.errors)
            return run
        if what == 'subtree':
            sub = tree.children[0] if tree.children else tree
            return lambda: K.dump(c.compiler(sub))

    def ref(what, doc, **kw):
        key = what, doc, tuple(sorted(kw.items()))
        if key not in refs:
            refs[key] = K.outcome(thunk(Chain(name, kind), what, doc, **kw))
        return refs[key]

    for i in range(ch.rint(2, 6)):
        doc = ch.pick(mine)
        what = ch.weighted([(3, 'source'), (2, 'compile'), (2, 'transform'), (1, 'subtree'), (1, 'attribute')])
        how = ch.weighted([(3, 'plain'), (3, 'exception'), (3, 'cancel')])
        if how == 'cancel' and what in ('transform', 'subtree'):
            how = 'exception'
        kw = {'preserve': ch.chance(30)} if what == 'source' else {}
        if what == 'source' and ch.chance(20):
            kw['start'] = ch.pick(K.starts(name))
        steps.append((what, how, doc))
        ctx.case = '%s %s %s' % (name, kind, steps)
        ctx.ev('STEP', i, what, how, repr(doc), sorted(kw.items()))
        if how == 'plain':
            got, want = K.outcome(thunk(chain, what, doc, **kw)), ref(what, doc, **kw)
            ctx.check(got == want, 'differs', lambda: '%s %s after %s: %s' % (name, kind, steps, K.diff(got, want)))
        elif how == 'exception':
            fn = thunk(Chain(name, kind), what, doc, **kw)
            inj.run(lambda: K.outcome(fn))
            at = ch.rint(1, max(1, inj.lines))
            exc = ch.pick(EXCEPTIONS)
            fn = thunk(chain, what, doc, **kw)
            try:
                inj.run(fn, at, exc('injected'))
                ctx.ev('swallowed' if inj.hit else 'not reached')
            except BaseException as e:
                ctx.ev('raised', type(e).__name__, at)
            if inj.hit:
                ctx.fault(exc.__name__)
        else:
            calm = Request()
            fn = thunk(Chain(name, kind), what, doc, cancel_query=calm, **kw)
            got, want = inj.run(lambda: K.outcome(fn)), ref(what, doc, **kw)
            total = inj.lines
            ctx.check(got == want, 'query', lambda: 'a query that declines changes the result of %s: %s' % (
                steps[-1], K.diff(got, want)))
            mode = ch.pick(('line', 'poll', 'before'))
            q = Query(ch.rint(1, max(1, calm.polls)), ch.chance(70)) if mode == 'poll' else Request()
            if mode == 'before':
                q.requested = True
            queries.append(q)
            at = ch.rint(1, max(1, total))
            if mode == 'line':
                def hook(j):
                    if j.lines == at:
                        q.requested = True
                inj.hook = hook
            fn = thunk(chain, what, doc, cancel_query=q, **kw)
            try:
                got = inj.run(lambda: K.outcome(fn))
            finally:
                inj.hook = None
            ctx.ev('cancel', mode, 'polls', q.polls, 'of', calm.polls, 'granted', q.granted)
            if q.granted:
                ctx.fault('cancelled in %s' % what)
                if ctx.check(got[0] == 'ok', 'raised', lambda: 'cancelled: %s' % K.show(got)):
                    n = sum(1 for e in got[1][1] if e[1] == CANCELED)
                    ctx.check(n == 1, 'error_count', lambda: '%d cancellation errors: %s %s' % (n, steps[-1], K.show(got)))
                    ctx.check(q.granted == 1, 'polled_again', lambda: 'asked again %d times after the cancellation was '
                              'granted: %s' % (q.granted, steps[-1]))
            else:
                ctx.check(got == want, 'query', lambda: 'result differs though nothing was cancelled %s: %s' % (
                    steps[-1], K.diff(got, want)))
            if mode == 'before' and calm.polls:
                ctx.check(q.granted, 'never_asked', lambda: 'requested before the start, but never granted: %s' % (
                    steps[-1],))
            # documents of the corpus are compiled node by node: every node is an opportunity to stop
            if mode in ('line', 'before') and not q.granted:
                rest = inj.lines - (at if mode == 'line' else 0)
                ctx.check(rest <= 4000, 'not_prompt', lambda: '%d lines after the request %s' % (rest, steps[-1]))
            if what in ('compile', 'attribute') and got[0] == 'ok':
                # one query per compiled node, even with the query set from outside
                ctx.check(calm.polls > 0, 'never_asked', lambda: 'the query has not been asked at all: %s' % (steps[-1],))
    ctx.nontrivial = True
    asked = [q.polls for q in queries]
    for _ in range(ch.rint(1, 2)):
        doc = ch.pick(mine)
        what = ch.pick(('source', 'compile', 'transform', 'parse'))
        if what == 'parse':
            got = K.outcome(lambda: K.dump_tree(chain.parser(doc)))
            want = K.parse_outcome(K.grammar_class(name)(), doc, 'root_parser__')
        else:
            got, want = K.outcome(thunk(chain, what, doc)), ref(what, doc)
        ctx.ev('PROBE', what, repr(doc))
        ctx.check(got == want, 'differs', lambda: '%s %s %r after %s: %s' % (name, what, doc, steps, K.diff(got, want)))
    ctx.check(asked == [q.polls for q in queries], 'stale_query', lambda: 'queries of earlier calls are asked: %s' % steps)


def ebnf(ctx):
    ch = ctx.ch
    inj = Injector(ctx)
    texts = list(EBNF.values())
    steps = []

    def pick():
        doc = ch.pick(texts)
        return mutate(ch, doc, texts) if ch.chance(25) else doc

    def ref(doc, name):
        key = doc, name
        if key not in _ebnf_ref:
            _ebnf_ref[key] = compile_ebnf_fresh(doc, name)
        return _ebnf_ref[key]

    from DHParser import ebnf as E
    from DHParser.compile import compile_source
    from DHParser.configuration import get_config_value
    from DHParser.error import CANCELED
    config = [(k, get_config_value(k)) for k in ('syntax_variant', 'optimizations', 'delimiter_set')]
    for i in range(ch.rint(1, 4)):
        doc = pick()
        how = ch.weighted([(3, 'plain'), (4, 'exception'), (2, 'cancel'), (1, 'parse')])
        steps.append((how, doc))
        ctx.case = str(steps)
        ctx.ev('STEP', i, how, repr(doc))
        if how == 'plain':
            got, want = ebnf_outcome(doc, 'Tst'), ref(doc, 'Tst')
            ctx.check(got == want, 'differs', lambda: 'after %s: %s' % (steps, K.diff(got, want)))
        elif how == 'exception':
            # estimate of the length from the number of lines of a first run
            at = ch.rint(1, ch.pick((300, 3000, 12000, 40000)))
            exc = ch.pick(EXCEPTIONS)
            try:
                inj.run(lambda: ebnf_outcome(doc, 'Tst'), at, exc('injected'))
                ctx.ev('swallowed' if inj.hit else 'not reached')
            except BaseException as e:
                ctx.ev('raised', type(e).__name__, at)
            if inj.hit:
                ctx.fault(exc.__name__)
        elif how == 'cancel':
            q = Query(ch.rint(1, ch.pick((5, 30, 200))), ch.chance(70))
            out = K.outcome(lambda: compile_source(doc + '\n', E.get_ebnf_preprocessor(), E.get_ebnf_grammar(),
                                                   E.get_ebnf_transformer(), E.get_ebnf_compiler('Tst', doc + '\n'),
                                                   cancel_query=q))
            want = ref(doc, 'Tst')
            n = sum(1 for e in out[1].messages if e.code == CANCELED) if out[0] == 'ok' else -1
            if q.granted:
                ctx.fault('cancelled')
                ctx.check(n == 1, 'error_count', lambda: '%s %s' % (steps, K.show(out)))
            else:
                ctx.check(out[0] == want[0] and (out[0] != 'ok' or out[1].result == want[1][0]), 'query',
                          lambda: '%s: %s instead of %s' % (steps, K.show(out), K.show(want)))
        else:
            variant = ch.pick(('heuristic', 'dhparser', 'fixed'))
            try:
                inj.run(lambda: E.parse_ebnf(doc, variant), ch.rint(1, 3000) if ch.chance(50) else None,
                        KeyboardInterrupt('injected'))
            except BaseException as e:
                ctx.ev('parse_ebnf', type(e).__name__)
        now = [(k, get_config_value(k)) for k, _ in config]
        ctx.check(now == config, 'config', lambda: 'configuration changed by %s: %s' % (steps[-1], now))
    ctx.nontrivial = True
    for _ in range(ch.rint(1, 2)):
        doc = pick()
        got, want = ebnf_outcome(doc, 'Tst'), ref(doc, 'Tst')
        ctx.ev('PROBE', repr(doc))
        ctx.check(got == want, 'differs', lambda: '%r after %s: %s' % (doc, steps, K.diff(got, want)))


SCENARIOS = [('reuse', reuse, 3), ('ebnf', ebnf, 1)]
