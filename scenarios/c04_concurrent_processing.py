"""C04 - concurrent parsing, transforming and compiling equals sequential processing."""
import sys

from dst import kernel
from scenarios import corpus as K
from scenarios.parsing import mutate, stable_hashes
from scenarios.c03_singletons import reset as reset_threads

RULE = ('every document yields in every thread the tree, result and errors that processing it alone with new '
        'objects yields, and no call raises what the sequential call does not raise')
REAL = ['DHParser/parse.py (construction of grammar objects included)', 'DHParser/transform.py',
        'DHParser/compile.py', 'DHParser/ebnf.py', 'DHParser/dsl.py: create_parser', 'DHParser/pipeline.py: factories',
        'DHParser/nodetree.py', 'DHParser/trace.py', 'DHParser/preprocess.py']
STUB = ['thread scheduling (seeded, preemption at any executed line of DHParser)', 'locks']
ASSUMPTIONS = ['threads are preempted between lines of DHParser-code only (CPython with GIL); calls into the '
               'standard library are atomic',
               'every thread has its own grammar and compiler objects; classes, transformation tables, factories '
               'and module-level state are shared']
RUNS = {'quick': 1300, 'thorough': 40000}
LEVEL_NOTE = ''

_ref = {}
SMALL_EBNF = {
    'word': 'doc = { word } EOF\nword = /\\w+/~\nEOF = !/./\n',
    'macro': '@ disposable = EOF\ndoc = $list(`a`, `,`) EOF\n$list($item, $sep) = $item { $sep $item }\nEOF = !/./\n',
    'undefined': 'doc = a | b\na = "x" c\n',
    'recursive': 'expr = expr `+` fac | fac\nfac = /\\d/ | `(` expr `)`\n',
    'skip': '@ a_skip = /,/\n@ a_error = "", "a expected: {1}"\na = "a" § "b"\n',
    'syntax': 'doc = { a | \na = "x" ~ ] \n',
    'capture': 'doc = tag { /\\w/ } ::tag\ntag = /[(<]+/\n',
    'ignorecase': '@ ignorecase = True\n@ whitespace = /\\s*/\n@ drop = whitespace, strings\ndoc = "a" { "b" ~ }\n',
}


def warmup():
    stable_hashes()
    K.load()
    import DHParser.dsl
    import DHParser.trace
    import DHParser.pipeline
    from DHParser.preprocess import nil_preprocessor
    for name in K.GRAMMARS:
        for doc in K.documents(name):
            for what in ('parse', 'transform', 'source'):
                ref(name, what, doc, 'root_parser__', '')
    for doc in SMALL_EBNF.values():
        ref('', 'ebnf', doc, '', '')
    ref('', 'create', SMALL_EBNF['word'], '', '')


class Shared:
    """what the threads have in common: classes, transformation tables, factories"""

    def __init__(self, names):
        from functools import partial
        import DHParser.transform as T
        from DHParser.toolkit import ThreadLocalSingletonFactory
        self.cls, self.table, self.parser_factory, self.junction = {}, {}, {}, {}
        self.outline, self.rewriter = K.compilers()
        self.compiler_factory = ThreadLocalSingletonFactory(self.outline)
        for name in names:
            self.cls[name] = K.grammar_class(name)
            self.table[name] = K.table(name)
            self.parser_factory[name] = ThreadLocalSingletonFactory(self.cls[name])
            self.junction[name] = ThreadLocalSingletonFactory(partial(
                partial, T.transformer, transformation_table=self.table[name], src_stage='CST', dst_stage='AST'))


def job(sh, name, what, doc, start, mode, own):
    """-> outcome of one job; own: dictionary of the objects of this thread"""
    from DHParser.compile import compile_source
    from DHParser.trace import set_tracer, trace_history
    if what == 'ebnf':
        from DHParser.ebnf import compile_ebnf
        r = compile_ebnf(doc + '\n', 'Tst', preserve_AST=True)
        return K.dump(r.result), K.dump_errors(r.messages), K.dump(r.AST) if r.AST is not None else None
    if what == 'create':
        from DHParser.dsl import create_parser
        g = create_parser(doc + '\n', 'Tst')
        return K.dump_tree(g('ab cd')), g.python_src__

    def parser():
        if mode == 'factory':
            return sh.parser_factory[name]()
        if mode == 'new' or name not in own:
            own[name] = sh.cls[name]()
        return own[name]
    if what == 'construct':
        g = sh.cls[name]()
        return tuple(sorted((p.node_name, p.ptype, str(p)) for p in g.root_parser__.descendants()))
    if what == 'parse':
        return K.dump_tree(parser()(doc, start))
    if what == 'trace':
        g = sh.cls[name]()
        set_tracer(g, trace_history)
        t = g(doc, start)
        return K.dump_tree(t) + (tuple((r.status, r.line_col, r.excerpt) for r in g.history__),)
    if what == 'transform':
        tree = parser()(doc, start)
        tree = sh.junction[name]()(tree)
        return K.dump_tree(tree)
    if what == 'compile':
        tree = parser()(doc, start)
        c = sh.compiler_factory() if mode == 'factory' else sh.rewriter()
        r = c(tree)
        return K.dump(r), K.dump_errors(tree.errors)
    if what == 'source':
        c = sh.compiler_factory() if mode == 'factory' else sh.outline()
        r = compile_source(doc + '\n', None, parser(), sh.junction[name](), c, start_parser=start, preserve_AST=True)
        return K.dump(r.result), K.dump_errors(r.messages), K.dump(r.AST) if r.AST is not None else None
    raise ValueError(what)


def ref(name, what, doc, start, mode):
    key = name, what, doc, start, mode == 'factory'
    if key not in _ref:
        from DHParser.configuration import access_thread_locals
        tl = access_thread_locals()
        keys = [k for k in tl.__dict__ if k.startswith('get_') or 'singleton' in k.lower() or 'ebnf' in k.lower()]
        saved = {k: tl.__dict__.pop(k) for k in keys}
        try:
            _ref[key] = K.outcome(lambda: job(Shared([name] if name else []), name, what, doc, start, mode, {}))
        finally:
            tl.__dict__.update(saved)
    return _ref[key]


def forget():
    """first use of everything that is initialized lazily"""
    from DHParser.toolkit import LazyRE
    for modname in sorted(m for m in sys.modules if m.startswith('DHParser')):
        for key, val in sorted(vars(sys.modules[modname]).items(), key=lambda kv: kv[0]):
            if isinstance(val, LazyRE):
                for k in ('search', 'match', 'fullmatch', 'split', 'findall', 'finditer', 'sub', 'subn'):
                    val.__dict__.pop(k, None)
                val.rx = None
            elif hasattr(val, 'cache_clear') and getattr(val, '__module__', '') == modname:
                val.cache_clear()


def concurrent(ctx, tools=False):
    ch = ctx.ch
    w = kernel.World(ctx, preempt=True)
    w.gap_scale = ch.pick((1, 5, 20, 60))
    n = ch.rint(2, 4 if not tools else 3)
    names = [ch.pick(list(K.GRAMMARS)) for _ in range(ch.pick((1, 1, 2)))]
    docs = {}
    for name in names:
        pool = [d for d in K.documents(name) if len(d) < 60]
        docs[name] = [ch.pick(pool) if ch.chance(75) else mutate(ch, ch.pick(pool), pool) for _ in range(3)]
    plan = []
    for i in range(n):
        jobs = []
        for _ in range(ch.rint(1, 3 if not tools else 2)):
            if tools:
                what = ch.weighted([(6, 'ebnf'), (1, 'create')])
                jobs.append(('', what, ch.pick(list(SMALL_EBNF.values())) if what == 'ebnf' else SMALL_EBNF['word'],
                             '', ''))
            else:
                name = ch.pick(names)
                what = ch.weighted([(3, 'parse'), (2, 'transform'), (2, 'compile'), (3, 'source'), (1, 'trace'),
                                    (1, 'construct')])
                jobs.append((name, what, ch.pick(docs[name]) if what != 'construct' else '',
                             ch.pick(K.starts(name)) if ch.chance(20) else 'root_parser__',
                             ch.pick(('factory', 'new', 'own'))))
        plan.append(jobs)
    early = ch.chance(30)            # objects are created before the threads start
    ctx.case = '%d threads: %s%s' % (n, plan, ' (one parse before)' if early else '')
    want = {(i, k): ref(*jb) for i, jobs in enumerate(plan) for k, jb in enumerate(jobs)}
    sh = Shared(sorted(set(names)) if not tools else [])
    got = {}
    active = set()

    def thread(i):
        own = {}
        for k, jb in enumerate(plan[i]):
            active.add(i)
            if len(active) > 1:
                ctx.probe('overlap')
            got[i, k] = K.outcome(lambda: job(sh, *jb, own))
            active.discard(i)

    def main():
        actors = [w.spawn(lambda i=i: thread(i), 'T%d' % i) for i in range(n)]
        if not w.block(lambda: all(a.state == kernel.DONE for a in actors), 100.0):
            ctx.violate('hang', 'threads do not terminate')
            return
        for a in actors:
            if a.exc is not None:
                import traceback
                ctx.violate('exception', '%s: %s' % (a.name, ''.join(traceback.format_exception(a.exc)[-3:])))

    reset_threads()
    forget()
    from DHParser.parse import Grammar
    Grammar.static_analysis_pending__[:] = [True]
    if early and not tools:
        K.outcome(lambda: job(sh, *plan[0][0], {}))
    kernel.instrument()
    try:
        w.run(main)
    finally:
        kernel.uninstrument()
    ctx.nontrivial = len(plan) > 1
    for key in sorted(want):
        if key in got:
            jb = plan[key[0]][key[1]]
            ctx.check(got[key] == want[key], 'differs', lambda: 'thread %d, job %d %s: %s' % (
                key + (jb, K.diff(got[key], want[key]))))


TREES = (
    '(X (l ",.") (A (O "123") (P "456")) (m "!?") (B (Q "789") (R "abc")) (n "+-"))',
    '(doc (s `(id "1") "Hello, ") (s "world and ") (bold (i "all") (i " the") (em " others")) (s "!"))',
    '(X "one leaf only")',
    '(X (:Text "a") (Y (Y (Y (Y "deep") (Z " down")) (Z " in")) (Z " the")) (:Text " tree"))')
OPERATIONS = ('markup', 'markup', 'markup', 'split', 'insert', 'sxpr', 'xml', 'json', 'unist', 'copy', 'paths', 'ids',
              'html', 'tree')


def canonical(text, seen):
    """chain-IDs depend on the other threads, but which ones are equal does not"""
    import re
    return re.sub(r'#([A-Z]+)#', lambda m: '#%d#' % seen.setdefault(m.group(1), len(seen)), text)


def work_on_tree(seed, operations=OPERATIONS):
    """a random sequence of operations on a tree that belongs to this thread only"""
    import copy
    import random
    import DHParser.nodetree as N
    rnd = random.Random(seed)
    tree = N.parse_sxpr(rnd.choice(TREES))
    out, seen = [], {}

    def mark(nd):
        for d in nd.select_if(lambda n: True, include_root=True):
            if d.has_attr('chain'):
                d.attr['chain'] = '#%s#' % d.attr['chain'].strip('#')

    for _ in range(rnd.randint(1, 6)):
        op = rnd.choice(operations)
        try:
            if op == 'markup':
                cm = N.ContentMapping(tree, greedy=rnd.random() < 0.5, chain_attr_name='chain',
                                      divisibility=rnd.choice((N.DIVISIBLES, {'*': {'A', 'B', 'Y', 's', 'bold', 'l', ':Text'}})))
                length = len(cm.content)
                for _ in range(rnd.randint(1, 3)):
                    a = rnd.randint(0, length)
                    cm.markup(a, rnd.randint(a, length), rnd.choice(('em', 'bf')), {'k': str(a)})
                out.append(cm.content)
            elif op == 'split':
                paths = list(tree.select_path(N.LEAF_PATH))
                path = rnd.choice(paths)
                out.append(N.deep_split(path, rnd.randint(0, len(path[-1].content)), chain_attr_name='chain'))
            elif op == 'insert':
                cm = N.ContentMapping(tree)
                cm.insert_node(rnd.randint(0, len(cm.content)), N.Node('milestone', ''))
            elif op == 'ids':
                ids = [N.gen_chain_ID() for _ in range(rnd.randint(2, 8 if len(operations) > 4 else 40))]
                out.append(['#%s#' % i for i in ids])
            elif op == 'copy':
                tree = copy.deepcopy(tree)
            elif op == 'paths':
                out.append([N.pp_path(p, 1) for p in tree.select_path(lambda p: len(p[-1].name) == 1)])
            else:
                mark(tree)
                if op in ('sxpr', 'xml'):
                    t = tree.as_sxpr(flatten_threshold=rnd.choice((-1, 0, 40))) if op == 'sxpr' else tree.as_xml()
                    out.append(t)
                    out.append((N.parse_sxpr if op == 'sxpr' else N.parse_xml)(t).as_sxpr())
                elif op == 'json':
                    t = tree.as_json()
                    out.append(t)
                    out.append(N.parse_json(t).as_sxpr())
                else:
                    out.append(tree.as_unist() if op == 'unist' else tree.as_html() if op == 'html' else tree.as_tree())
        except Exception as e:
            out.append('%s %s: %s' % (op, type(e).__name__, e))
    mark(tree)
    out.append(tree.as_sxpr())
    return [canonical(str(o), seen) for o in out]


def trees(ctx):
    """every thread works on trees of its own: serializing, reading, splitting, markup"""
    import DHParser.nodetree as N
    ch = ctx.ch
    w = kernel.World(ctx, preempt=True)
    w.gap_scale = ch.pick((1, 3, 10, 40))
    n = ch.rint(2, 4)
    plan = [[ch.rint(0, 100000) for _ in range(ch.rint(1, 3))] for _ in range(n)]
    fine = ch.chance(40)
    operations = ('ids', 'ids', 'ids', 'split') if fine and ch.chance(60) else OPERATIONS
    if fine:
        w.gap_scale = 1
        w.gaps = kernel.GAPS + kernel.GAPS[1:] * 9
    ctx.case = 'trees %s %s' % (plan, operations)
    N.reset_chain_ID()
    if ch.chance(25):               # the counter is about to be extended
        N.chain_id = (N.chain_step * (23 ** N.chain_len - ch.rint(0, 12))) % 23 ** N.chain_len
    start = N.chain_id
    want = {}
    for i, seeds in enumerate(plan):
        for k, seed in enumerate(seeds):
            N.reset_chain_ID()
            want[i, k] = K.outcome(lambda: work_on_tree(seed, operations))
    N.reset_chain_ID()
    N.chain_id = start
    got = {}

    def thread(i):
        for k, seed in enumerate(plan[i]):
            got[i, k] = K.outcome(lambda: work_on_tree(seed, operations))

    def main():
        actors = [w.spawn(lambda i=i: thread(i), 'T%d' % i) for i in range(n)]
        if not w.block(lambda: all(a.state == kernel.DONE for a in actors), 100.0):
            ctx.violate('hang', 'threads do not terminate')
            return
        for a in actors:
            ctx.check(a.exc is None, 'exception', lambda: '%s: %r' % (a.name, a.exc))
    forget()
    reset_threads()
    kernel.instrument(*(((), ('nodetree.py',)) if fine else ()))
    try:
        w.run(main)
    finally:
        kernel.uninstrument()
        N.reset_chain_ID()
    ctx.nontrivial = True
    ctx.ev('results', [[plan[i][k], got.get((i, k)) == want[i, k]] for i, k in sorted(want)])
    for key in sorted(want):
        ctx.check(got.get(key) == want[key], 'tree', lambda: 'thread %d, operations %s: %s' % (
            key[0], plan[key[0]][key[1]], K.diff(got.get(key), want[key])))


SCENARIOS = [('concurrent', concurrent, 10), ('ebnf', lambda ctx: concurrent(ctx, True), 2),
             ('trees', trees, 5)]
