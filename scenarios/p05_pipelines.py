"""P05 - pipelines produce the same results in every order, in every thread, after every history."""
import copy

from dst import kernel
from scenarios import corpus as K
from scenarios.parsing import Injector, Query, EXCEPTIONS
from scenarios.p02_cancel_parse import Request
from scenarios.c03_singletons import reset as reset_threads

RULE = ('for every requested target a pipeline yields the result and errors that applying its stages by hand with new '
        'objects yields, for every order and hash order of junctions and targets, together with any other targets, '
        'in any thread and after any earlier runs; stages that do not depend on a failing stage are not affected; a '
        'granted cancellation is reported once, no stage starts afterwards, results reported as reached are complete')
REAL = ['DHParser/pipeline.py', 'DHParser/compile.py: process_tree, compile_source, Compiler', 'DHParser/transform.py',
        'DHParser/toolkit.py: ThreadLocalSingletonFactory', 'DHParser/parse.py', 'DHParser/trace.py']
STUB = ['hash values of the stage names', 'stages (small compilers, transformation tables and functions that may '
        'fail)', 'the cancel-query', 'thread scheduling', 'asynchronous exceptions']
ASSUMPTIONS = ['every target is reached by one path only', 'a stage is a deterministic function of its input tree']
RUNS = {'quick': 8000, 'thorough': 60000}


class Name(str):
    """stage name with a given hash value"""
    h = 0

    def __hash__(self):
        return self.h

    def __deepcopy__(self, memo):
        return self


class Broken(RuntimeError):
    pass


STARTED = []            # names of the stages that have been started


def make_stage(kind, src, dst):
    """-> factory of one stage"""
    from functools import partial
    from DHParser.compile import Compiler
    from DHParser.error import WARNING, ERROR, FATAL
    from DHParser.nodetree import RootNode, Node
    from DHParser.pipeline import create_junction
    import DHParser.transform as T

    def mark(tree):
        for i, nd in enumerate(tree.select_if(lambda nd: True, include_root=True)):
            if i % 3 == 0:
                nd.attr[str(dst)] = str(i)

    def trouble(tree):
        if kind == 'warning':
            tree.new_error(tree, 'warning of %s' % dst, WARNING)
        elif kind == 'error':
            tree.new_error(tree, 'error in %s' % dst, ERROR)
        elif kind == 'fatal':
            tree.new_error(tree, 'fatal error in %s' % dst, FATAL)
        elif kind == 'raise':
            raise Broken('%s' % dst)

    class Stage(Compiler):
        def reset(self):
            super().reset()
            self.seen = []

        def prepare(self, root):
            STARTED.append(str(dst))
            mark(root)
            trouble(root)

        def finalize(self, result):
            if isinstance(result, RootNode):
                result.stage = str(dst)
            if isinstance(result, list):
                result = ''.join(result) + ' ' + ','.join(self.seen)
            return result

        def wildcard(self, node):
            self.seen.append(node.name)
            if kind == 'data':
                out = ['(', node.name]
                for c in node.children:
                    out.extend(self.compile(c))
                if not node.children:
                    out.append(node.content)
                out.append(str(sorted(node.attr.items())) if node.has_attr() else '')
                return out + [')']
            for c in node.children:
                self.compile(c)
            if node.children and len(self.seen) % 4 == 3:
                node.result = node.children + (Node('by_' + str(dst), str(len(self.seen))),)
            return node

    class Nothing(Stage):
        def finalize(self, result):
            return None

    def function(tree):
        STARTED.append(str(dst))
        mark(tree)
        trouble(tree)
        for nd in list(tree.select_if(lambda nd: not nd.children)):
            if len(nd.content) > 2:
                nd.result = nd.content[:2]
        return tree

    def note(path):
        path[-1].attr[str(dst)] = str(len(path))

    def start(path):
        STARTED.append(str(dst))
        trouble(path[0])

    if kind == 'table' or kind == 'table_stage':
        def make():
            table = {'<<<': [start], '<': [note], '*': [T.replace_by_single_child], ':Text, ZOMBIE__': T.remove_anonymous_empty}
            return partial(T.transformer, transformation_table=table,
                           src_stage=str(src) if kind == 'table_stage' else '', dst_stage=str(dst))
        tool = make
    elif kind == 'function':
        def make():
            return function
        tool = make
    elif kind == 'none':
        tool = Nothing
    else:
        tool = Stage
    return create_junction(tool, src, dst)


def chain_to(spec, target, origin):
    """-> junctions [(src, kind, dst) ...] that lead to target, or None"""
    path = []
    while target != origin:
        for s in spec:
            if s[2] == target:
                path.append(s)
                target = s[0]
                break
        else:
            return None
    return path[::-1]


def plain(x):
    from DHParser.nodetree import Node
    return K.dump(x) if isinstance(x, Node) else x


def by_hand(spec, source, target, origin):
    """-> ('ok', (result, errors)), ('missing',), ('raised', ...)"""
    from DHParser.compile import process_tree
    from DHParser.error import is_fatal
    from DHParser.nodetree import RootNode
    del STARTED[:]
    tree = copy.deepcopy(source)
    result, errors = tree, tree.errors_sorted
    path = chain_to(spec, target, origin)
    for i, (src, kind, dst) in enumerate(path):
        if result is None:
            continue
        tree = result
        fn = make_stage(kind, src, dst).factory()
        try:
            result = process_tree(fn, tree)
        except Exception as e:
            return ('raised', type(e).__name__, str(e)[:300])
        errors = tree.errors_sorted
        if is_fatal(tree.error_flag) and i < len(path) - 1:
            return ('missing',)
        if tree.stage == src:
            tree.stage = dst
    return ('ok', (plain(result), K.dump_errors(errors)))


def make_source(ch, origin):
    from DHParser.nodetree import RootNode, parse_sxpr
    from DHParser.error import WARNING, ERROR
    tree = RootNode(parse_sxpr(ch.pick((
        '(doc (a "x") (b (c "1") (d "2222")) (:Text "t"))', '(doc "leaf")', '(doc (a (a (a "deep")) (ZOMBIE__ "z")))',
        '(doc (list (i "1") (i "2") (i "3") (i "4") (i "5") (i "6")) (b "bbbb"))')))).with_pos(0)
    tree.source = tree.content
    tree.stage = str(origin)
    e = ch.weighted([(6, None), (1, WARNING), (2, ERROR)])
    if e is not None:
        tree.new_error(tree, 'from the beginning', e)
    return tree


def make_spec(ch, ctx, origin):
    """-> junctions of a random tree of stages"""
    letters = ch.shuffle(list('abcdefghij'))
    names = [origin]
    spec = []
    for i in range(ch.rint(1, 7)):
        nm = ch.pick(('AST', 'ast')) if i == 0 and ch.chance(30) else letters[i] * ch.rint(1, 2)
        nm = Name(nm)
        nm.h = ch.draw(16)
        if nm.upper() == 'AST':        # will be replaced by a simple string
            nm.h = str.__hash__(nm)
        nonleaf = [n for n in names if n not in [s[2] for s in spec if s[1] in ('data',)]]
        src = nonleaf[-1] if ch.chance(45) else ch.pick(nonleaf)
        kind = ch.weighted([(4, 'tree'), (2, 'table'), (1, 'table_stage'), (2, 'function'), (3, 'data'), (1, 'warning'),
                            (1, 'error'), (1, 'fatal'), (1, 'raise'), (1, 'none')])
        spec.append((src, kind, nm))
        names.append(nm)
    return spec


class Pipe:
    def __init__(self, ctx):
        ch = self.ch = ctx.ch
        self.origin = ch.pick(('cst', 'start', 'CST'))
        origin = Name(self.origin)
        origin.h = str.__hash__(origin) if origin.upper() == 'CST' else ch.draw(16)
        self.origin = origin
        self.spec = make_spec(ch, ctx, origin)
        self.junctions = [make_stage(kind, src, dst) for src, kind, dst in self.spec]
        self.source = make_source(ch, origin)
        self._refs = {}

    def ref(self, target):
        if target not in self._refs:
            self._refs[str(target)] = by_hand(self.spec, self.source, target, self.origin)
        return self._refs[str(target)]

    def targets(self):
        names = [s[2] for s in self.spec]
        n = self.ch.rint(1, len(names))
        return self.ch.shuffle(names)[:n]

    def run(self, targets, query=None):
        from DHParser.pipeline import run_pipeline
        del STARTED[:]
        r = run_pipeline(self.ch.shuffle(self.junctions), {self.origin: copy.deepcopy(self.source)}, targets,
                         cancel_query=query)
        return {str(k): (plain(v[0]), K.dump_errors(v[1])) for k, v in r.items()}

    def check(self, ctx, targets, got, when=''):
        """compares the outcome of a pipeline-run with stages run by hand"""
        want = {str(t): self.ref(t) for t in targets}
        # a stage that raises an exception ends the whole run
        needed = []
        for t in targets:
            for s in chain_to(self.spec, t, self.origin):
                if s not in needed:
                    needed.append(s)
        raising = [w for w in [self.ref(s[2]) for s in needed] if w[0] == 'raised']
        if raising:
            ctx.check(got[0] == 'raised' and any(got[1:] == w[1:] for w in raising), 'exception',
                      lambda: '%s%s: %s instead of %s' % (targets, when, K.show(got), K.show(raising)))
            return
        if not ctx.check(got[0] == 'ok', 'raised', lambda: '%s%s raised %s' % (targets, when, K.show(got))):
            return
        res = got[1]
        for t in sorted(want):
            # normalization of the names AST and CST
            key = t.upper() if t.upper() in ('AST', 'CST') else t
            if want[t][0] == 'missing':
                ctx.check(key not in res, 'unreachable', lambda: 'target %s depends on a failed stage, but is '
                          'reported: %s%s' % (t, K.show(res[key]), when))
            elif ctx.check(key in res, 'missing', lambda: 'target %s of %s is missing in %s%s' % (
                    t, targets, sorted(res), when)):
                ctx.check(('ok', res[key]) == want[t], 'differs', lambda: 'target %s of %s%s: %s instead of %s' % (
                    t, targets, when, K.show(res[key]), K.show(want[t][1])))


def serial(ctx):
    """a history of runs in one thread"""
    from DHParser.error import CANCELED
    ch = ctx.ch
    reset_threads()
    p = Pipe(ctx)
    ctx.case = ' '.join('%s-%s->%s' % s for s in p.spec)
    ctx.ev('SPEC', ctx.case, 'hashes', [s[2].h for s in p.spec if s[2].upper() != 'AST'], [int(e.code) for e in p.source.errors])
    inj = Injector(ctx)
    queries = []
    for i in range(ch.rint(1, 5)):
        targets = p.targets()
        how = ch.weighted([(5, 'plain'), (2, 'cancel'), (2, 'exception'), (1, 'helpers')])
        ctx.ev('STEP', i, how, targets)
        if how == 'plain':
            p.check(ctx, targets, K.outcome(lambda: p.run(targets)), ' in run %d' % i)
        elif how == 'exception':
            inj.run(lambda: K.outcome(lambda: p.run(targets)))
            at = ch.rint(1, max(1, inj.lines))
            exc = ch.pick(EXCEPTIONS)
            try:
                inj.run(lambda: p.run(targets), at, exc('injected'))
            except BaseException as e:
                ctx.ev('raised', type(e).__name__, at)
            if inj.hit:
                ctx.fault(exc.__name__)
        elif how == 'cancel':
            calm = Request()
            got = inj.run(lambda: K.outcome(lambda: p.run(targets, calm)))
            total = inj.lines
            p.check(ctx, targets, got, ' with a query that declines')
            q = Request() if ch.chance(50) else Query(ch.rint(1, max(1, calm.polls)), ch.chance(70))
            queries.append(q)
            at = ch.rint(0, max(1, total))
            starts = []
            if isinstance(q, Request):
                q.requested = at == 0

                def hook(j):
                    if j.lines == at:
                        q.requested = True
                    if q.granted and not starts:
                        starts.append(len(STARTED))
                inj.hook = hook
            try:
                got = inj.run(lambda: K.outcome(lambda: p.run(targets, q)))
            finally:
                inj.hook = None
            ctx.ev('cancel', 'polls', q.polls, 'of', calm.polls, 'granted', q.granted)
            if not q.granted:
                p.check(ctx, targets, got, ' with a query that was not granted')
                continue
            ctx.fault('cancelled')
            if starts:
                ctx.check(len(STARTED) == starts[0], 'not_prompt', lambda: 'stages %s were started after cancellation'
                          % STARTED[starts[0]:])
            if got[0] != 'ok':
                raising = [p.ref(s[2]) for s in p.spec]
                ctx.check(got in raising, 'raised', lambda: 'cancelled: %s' % K.show(got))
                continue
            marked = 0
            for name, (res, errs) in got[1].items():
                n = sum(1 for e in errs if e[1] == CANCELED)
                marked += bool(n)
                ctx.check(n <= 1, 'error_count', lambda: '%d cancellation errors in %s' % (n, name))
                t = [s[2] for s in p.spec if s[2] == name or (s[2].upper() == 'AST' and name == 'AST')]
                if n == 0 and t and t[0] in targets:
                    want = p.ref(t[0])
                    ctx.check(want == ('ok', (res, errs)), 'incomplete', lambda: 'target %s without a cancellation '
                              'error: %s instead of %s' % (name, K.show((res, errs)), K.show(want)))
            ctx.check(marked >= 1, 'not_reported', lambda: 'cancellation granted, but not reported: %s' % K.show(got))
        else:
            helpers(ctx, p)
    ctx.nontrivial = True
    asked = [q.polls for q in queries]
    targets = p.targets()
    ctx.ev('PROBE', targets)
    p.check(ctx, targets, K.outcome(lambda: p.run(targets)), ' at the end')
    ctx.check(asked == [q.polls for q in queries], 'stale_query', 'queries of earlier runs are asked')


def helpers(ctx, p):
    """the results of the functions on sets of junctions do not depend on their order"""
    from DHParser.pipeline import connection, end_points, as_paths, as_graph, pp_paths
    ch = ctx.ch
    t = ch.pick(p.spec)[2]
    seen = set()
    for _ in range(2):
        js = set(ch.shuffle(p.junctions))
        got = (repr([(j.src, j.dst) for j in connection(js, t, p.origin)]), repr(sorted(end_points(js))),
               repr(sorted(as_paths(js).items())), str(as_graph(js)), pp_paths(js))
        seen.add(got)
        path = chain_to(p.spec, t, p.origin)
        ctx.check(got[0] == repr([(s[0], s[2]) for s in path]), 'connection', lambda: '%s instead of %s' % (got[0], path))
        ends = sorted(s[2] for s in p.spec if all(s[2] != r[0] for r in p.spec))
        ctx.check(got[1] == repr(ends), 'end_points', lambda: '%s instead of %s' % (got[1], ends))
        paths = sorted((e, [p.origin] + [s[2] for s in chain_to(p.spec, e, p.origin)]) for e in ends)
        ctx.check(got[2] == repr(paths), 'as_paths', lambda: '%s instead of %s' % (got[2], paths))
    ctx.check(len(seen) == 1, 'order', lambda: 'results depend on the order: %s' % seen)


def threads(ctx):
    """several threads run the same pipeline"""
    ch = ctx.ch
    reset_threads()
    p = Pipe(ctx)
    w = kernel.World(ctx, preempt=True)
    w.gap_scale = ch.pick((1, 5, 20))
    n = ch.rint(2, 3)
    plan = [[p.targets() for _ in range(ch.rint(1, 2))] for _ in range(n)]
    ctx.case = '%s targets %s' % (' '.join('%s-%s->%s' % s for s in p.spec), plan)
    for s in p.spec:
        p.ref(s[2])
    got = {}

    def thread(i):
        for k, targets in enumerate(plan[i]):
            got[i, k] = K.outcome(lambda: p.run(targets))

    def main():
        actors = [w.spawn(lambda i=i: thread(i), 'T%d' % i) for i in range(n)]
        if not w.block(lambda: all(a.state == kernel.DONE for a in actors), 100.0):
            ctx.violate('hang', 'threads do not terminate')
    kernel.instrument()
    try:
        w.run(main)
    finally:
        kernel.uninstrument()
    ctx.nontrivial = True
    for (i, k), res in sorted(got.items()):
        p.check(ctx, plan[i][k], res, ' in thread %d' % i)


def full(ctx):
    """from the source text, with changing configuration"""
    from DHParser.configuration import set_config_value
    from DHParser.pipeline import full_pipeline, create_parser_junction
    from DHParser.preprocess import nil_preprocessor
    ch = ctx.ch
    reset_threads()
    p = Pipe(ctx)
    name = ch.pick(list(K.GRAMMARS))
    docs = K.documents(name)
    ctx.case = '%s %s' % (name, ' '.join('%s-%s->%s' % s for s in p.spec))
    junction = create_parser_junction(K.grammar_class(name))
    spec = [('CST' if s[0] == p.origin else s[0], s[1], s[2]) for s in p.spec]
    junctions = [make_stage(kind, src, dst) for src, kind, dst in spec]

    def run(factory, junctions, doc, targets):
        del STARTED[:]
        r = full_pipeline(doc + '\n', lambda: nil_preprocessor, factory, junctions, set(targets))
        return {str(k): (plain(v[0]), K.dump_errors(v[1])) for k, v in r.items() if k in targets}
    ctx.nontrivial = True
    from DHParser.trace import resume_notices_on, set_tracer, trace_history
    for i in range(ch.rint(1, 5)):
        doc = ch.pick(docs)
        conf = ch.weighted([(4, ''), (1, 'history_tracking'), (2, 'resume_notices')])
        targets = p.targets()
        ctx.ev('STEP', i, repr(doc), conf, targets)
        if conf:
            set_config_value(conf, {'resume_notices': True, 'history_tracking': True}[conf])
        got = K.outcome(lambda: run(junction.factory, ch.shuffle(junctions), doc, targets))

        def fresh():
            g = K.grammar_class(name)()
            if conf == 'resume_notices':
                resume_notices_on(g)
            elif conf:
                set_tracer(g, trace_history)
            return g
        want = K.outcome(lambda: run(fresh, [make_stage(kind, src, dst) for src, kind, dst in spec], doc, targets))
        if conf:
            set_config_value(conf, False)
        ctx.check(got == want, 'differs', lambda: 'run %d, %r %s: %s instead of %s' % (
            i, doc, conf, K.show(got), K.show(want)))


def warmup():
    K.load()
    import DHParser.pipeline


SCENARIOS = [('serial', serial, 10), ('threads', threads, 3), ('full', full, 3)]
