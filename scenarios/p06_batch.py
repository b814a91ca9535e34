"""P06 - batch processing handles every document exactly once."""
import contextlib
import io
import os
import shutil
import tempfile

from dst import kernel, procpool
from scenarios import corpus as K
from scenarios.c03_singletons import reset as reset_threads
from scenarios.parsing import stable_hashes

RULE = ('a batch call processes every document exactly once, writes the files and returns the list of error files that '
        'processing the documents one after the other by hand writes and returns, and reports every document once and '
        'in order; if a worker raises or dies, the call raises this failure; if it is cancelled, it returns; after '
        'the call no document is processed any more, and every document that was reported has its complete output')
REAL = ['DHParser/dsl.py: batch_process, process_file', 'DHParser/pipeline.py', 'DHParser/toolkit.py: '
        'instantiate_executor, SingleThreadExecutor, ExecutorWrapper, PickMultiCoreExecutor',
        'DHParser/pipeline.py: ExecutionEnvironment-like submit functions', 'concurrent.futures.ThreadPoolExecutor',
        'DHParser/parse.py', 'DHParser/compile.py', 'DHParser/transform.py',
        'worker processes (forked, arguments and results are pickled)']
STUB = ['concurrent.futures.ProcessPoolExecutor (jobs start and end at seeded moments, workers die)',
        'thread scheduling', 'the cancel-query (a file)']
ASSUMPTIONS = ['the documents of a batch have different base names']
PROBE_HASHSEED = '0'     # pipelines iterate over sets of strings
RUNS = {'quick': 1500, 'thorough': 30000}

SPEC = {}               # what the module-level functions of the workers work with


class Broken(RuntimeError):
    pass


def warmup():
    stable_hashes()
    K.load()
    import concurrent.futures.thread
    import DHParser.dsl
    import DHParser.pipeline
    from DHParser.preprocess import nil_preprocessor
    from DHParser.configuration import set_config_value
    set_config_value('batch_processing_parallelization', False)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        DHParser.dsl.batch_process([], '/nonexistent', by_pair)     # issues a deprecation warning once
    for name in GRAMMARS:
        for doc in K.documents(name):
            if K.outcome(lambda: compile_both(name, doc))[0] == 'ok':
                HARMLESS.setdefault(name, set()).add(doc)


def compile_both(name, doc):
    import DHParser.transform as T
    for c in K.compilers():
        t = K.grammar_class(name)()(doc + '\n')
        T.traverse(t, K.table(name))
        c()(t)


HARMLESS = {}           # documents that can be compiled


GRAMMARS = ('arith', 'xml', 'list', 'resume')


def setup(name):
    from functools import partial
    from DHParser.pipeline import create_junction
    import DHParser.transform as T
    from DHParser.preprocess import nil_preprocessor
    from DHParser.toolkit import ThreadLocalSingletonFactory
    outline, rewriter = K.compilers()
    return {'preprocessor': partial(ident, nil_preprocessor),
            'parser': ThreadLocalSingletonFactory(K.grammar_class(name)),
            'junctions': {fixed(1, create_junction(partial(
                              partial, T.transformer, transformation_table=K.table(name), src_stage='CST',
                              dst_stage='AST'), 'CST', 'AST')),
                          fixed(2, create_junction(outline, 'AST', 'outline')),
                          fixed(3, create_junction(rewriter, 'AST', 'tree'))}}


def fixed(h, junction):
    return junction._replace(factory=Fixed(h, junction.factory))


class Fixed:
    """factory whose hash value does not depend on its address"""

    def __init__(self, h, factory):
        self.h, self.factory = h, factory

    def __call__(self):
        return self.factory()

    def __hash__(self):
        return self.h


def ident(x):
    return x


def mark(what, name):
    with os.fdopen(os.open(os.path.join(SPEC['dir'], what), os.O_CREAT | os.O_APPEND | os.O_WRONLY), 'wb', 0) as f:
        f.write((os.path.basename(name) + '\n').encode())


def marks(what):
    try:
        with open(os.path.join(SPEC['dir'], what)) as f:
            return f.read().split('\n')[:-1]
    except FileNotFoundError:
        return []


def request_cancel():
    with open(os.path.join(SPEC['dir'], 'cancel'), 'w'):
        pass


def cancelled():
    return os.path.exists(os.path.join(SPEC['dir'], 'cancel'))


def work(source, out_dir, cancel_query=None):
    from DHParser.dsl import process_file
    name = os.path.basename(source)
    mark('started', source)
    if SPEC['cancel'] == ('start', len(marks('started'))):
        request_cancel()
    plan = SPEC['plan'].get(name)
    if plan == 'exit' and SPEC['forked']:
        os._exit(7)
    w = kernel.WORLD
    if w is not None and w.active and w.is_actor() and SPEC['delay'].get(name):
        w.sleep(SPEC['delay'][name])
    if plan == 'raise':
        raise Broken(name)
    st = SPEC['stages']
    err = process_file(source, out_dir, st['preprocessor'], st['parser'], st['junctions'], SPEC['targets'],
                       SPEC['serializations'], cancel_query)
    if plan == 'raise late':
        raise Broken(name)
    mark('finished', source)
    return err


def by_tuple(args: 'Tuple[str, str, CancelQuery]') -> str:
    return work(*args)


def by_pair(args: 'Tuple[str, str]') -> str:
    return work(*args)


def tree(path):
    out = {}
    for root, dirs, files in os.walk(path):
        for fn in files:
            p = os.path.join(root, fn)
            with open(p, encoding='utf-8', newline='') as f:
                out[os.path.relpath(p, path)] = f.read()
    return out


def batch(ctx):
    ch = ctx.ch
    base = tempfile.mkdtemp(prefix='dst_batch_', dir='/tmp')
    ctx.scrub.append((base, '<DIR>'))
    cwd = os.getcwd()
    os.chdir(base)
    try:
        run(ctx, ch, base)
    finally:
        os.chdir(cwd)
        shutil.rmtree(base, ignore_errors=True)


def run(ctx, ch, base):
    from DHParser.configuration import set_config_value, get_config_value
    from DHParser.dsl import batch_process
    name = ch.pick(GRAMMARS)
    reset_threads()
    names, n = [], ch.weighted([(1, 0), (2, 1), (6, 3), (4, 6), (1, 40)])
    if n > 1:
        n = ch.rint(2, n)
    trouble = ch.weighted([(5, 'none'), (3, 'cancel'), (2, 'raise'), (2, 'death'), (1, 'blocked')])
    docs = K.documents(name)
    if trouble != 'none':
        docs = [d for d in docs if d in HARMLESS[name]]
    src = os.path.join(base, 'src')
    os.mkdir(src)
    for i in range(n):
        p = os.path.join(src, 'd%02d.dsl' % ((i * 7) % 41))
        doc = ch.pick(docs)
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(doc + '\n')
        names.append(p)
    mode = ch.pick(('serial', 'threads', 'threads', 'processes', 'processes', 'submit threads', 'submit processes',
                    'submit serial'))
    style = ch.weighted([(4, 'tuple'), (3, 'separate'), (1, 'pair')])
    fn = {'tuple': by_tuple, 'separate': work, 'pair': by_pair}[style]
    targets = ch.pick(({'outline', 'tree'}, {'tree'}, {'AST', 'outline'}))
    SPEC.clear()
    SPEC.update(dir=base, plan={}, stages=setup(name), targets=targets, cancel=None, forked=False, delay={},
                serializations={'*': [ch.pick(('sxpr', 'xml', 'tree'))], 'tree': ['sxpr', 'json']})
    # --- reference: one after the other
    ref_dir = os.path.join(base, 'ref')
    out_dir = os.path.join(base, 'out')
    os.mkdir(ref_dir)
    os.mkdir(out_dir)
    ref = {}
    for p in names:
        e = K.outcome(lambda: work(p, ref_dir))
        ref[p] = e if e[0] != 'ok' else (e[0], os.path.relpath(e[1], ref_dir) if e[1] else '')
    ref_tree = tree(ref_dir)
    os.remove(os.path.join(base, 'started')) if names else None
    if os.path.exists(os.path.join(base, 'finished')):
        os.remove(os.path.join(base, 'finished'))
    reset_threads()
    # --- faults
    base_names = [os.path.basename(p) for p in names]
    if trouble == 'raise' and names:
        for _ in range(ch.rint(1, 2)):
            SPEC['plan'][ch.pick(base_names)] = ch.pick(('raise', 'raise late'))
    elif trouble == 'cancel':
        SPEC['cancel'] = ch.pick((('start', ch.rint(1, max(1, n))), ('log', ch.rint(1, max(1, n))),
                                  ('time', ch.rint(0, 30) / 10)))
    elif trouble == 'blocked':
        with open(os.path.join(out_dir, ch.pick(sorted(targets))), 'w') as f:
            f.write('in the way')
        ctx.fault('blocked')
    deaths = set()
    if trouble == 'death':
        if ch.chance(50):
            deaths.add(ch.rint(1, max(1, n)))
        elif names:
            SPEC['plan'][ch.pick(base_names)] = 'exit'
    for b in base_names:
        if ch.chance(50):
            SPEC['delay'][b] = ch.pick((0.01, 0.5, 2.0))
    procpool.install()
    procpool.SimProcessPool.mode = 'fork'
    ctx.case = '%s: %d documents, %s, %s, %s, %s %s %s' % (
        name, n, mode, style, sorted(targets), trouble, SPEC['plan'] or SPEC['cancel'] or deaths or '',
        [open(p).read() for p in names][:3])
    w = kernel.World(ctx, preempt='threads' in mode)
    w.gap_scale = ch.pick((5, 20, 60))
    jobs = [0]

    def plan(pool, f):
        jobs[0] += 1
        return jobs[0] in deaths
    w.pool_faults = plan
    SPEC['forked'] = 'processes' in mode
    logged, result = [], []

    def log(msg):
        logged.append(msg)
        if SPEC['cancel'] == ('log', len(logged)):
            request_cancel()

    set_config_value('batch_processing_parallelization', mode in ('threads', 'processes'))
    set_config_value('debug_parallel_execution',
                     {'threads': 'multithreading', 'processes': 'multicore'}.get(mode, 'multicore'))
    set_config_value('batch_processing_max_chunk_size', ch.pick((1, 4, 500)))
    config = {k: get_config_value(k) for k in ('batch_processing_parallelization', 'debug_parallel_execution',
                                               'history_tracking', 'default_serialization')}

    def main():
        import concurrent.futures
        kw = {}
        if ch.chance(80) or SPEC['cancel']:
            kw['log_func'] = log
        if SPEC['cancel'] is not None:
            kw['cancel_query'] = cancelled
            if SPEC['cancel'][0] == 'time':
                w.at(SPEC['cancel'][1], request_cancel)
        pool = None
        if mode == 'submit threads':
            pool = concurrent.futures.ThreadPoolExecutor(ch.rint(1, 3))
        elif mode == 'submit processes':
            pool = concurrent.futures.ProcessPoolExecutor()
        elif mode == 'submit serial':
            from DHParser.toolkit import SingleThreadExecutor
            pool = SingleThreadExecutor()
        if pool is not None:
            kw['submit_func'] = pool.submit
        done = []

        def call():
            try:
                done.append(K.outcome(lambda: batch_process(names, out_dir, fn, **kw)))
            finally:
                done.append((len(marks('started')), len(marks('finished')), w.now))
        a = w.spawn(call, 'B')
        if not w.block(lambda: a.state == kernel.DONE, 1000.0):
            ctx.violate('hang', 'batch_process() does not return; %s' % logged)
            return
        result.extend(done)
        w.sleep(50)
        result.append((len(marks('started')), len(marks('finished'))))
        if pool is not None:
            pool.shutdown()

    if 'threads' in mode:
        kernel.instrument()
    try:
        w.run(main)
    finally:
        kernel.uninstrument()
    if ctx.violations:
        return
    kind, val, at_return, later = result[0][0], result[0][1:], result[1], result[2]
    val = val[0] if kind == 'ok' else val
    started, finished = marks('started'), marks('finished')
    now = {k: get_config_value(k) for k in config}
    ctx.check(now == config, 'config', lambda: 'configuration changed: %s -> %s' % (config, now))
    ctx.check(at_return[:2] == later, 'afterwards', lambda: 'documents are processed after the call has '
              'returned: %s -> %s' % (at_return, later))
    ctx.check(len(set(started)) == len(started), 'twice', lambda: 'documents processed more than once: %s' % started)
    out = tree(out_dir)
    stray = sorted(set(os.listdir(base)) - {'src', 'ref', 'out', 'started', 'finished', 'cancel'})
    ctx.check(not stray, 'stray', lambda: 'files written outside of the output directory: %s' % stray)
    messages = []
    for p in names:
        e = ref[p][1] if ref[p][0] == 'ok' else None
        messages.append('Compiled "%s"%s' % (os.path.basename(p),
                        ' with ' + e[e.rfind('_') + 1:-4] if e else ''))

    def own(p):
        b = os.path.splitext(os.path.basename(p))[0]
        return {k: v for k, v in ref_tree.items() if os.path.basename(k).split('.')[0].split('_')[0] == b}
    hit = (any(SPEC['plan'].get(b, '').startswith('raise') for b in base_names)
           or ctx.faults['worker_death'] or ctx.faults['worker_suicide'])
    if trouble == 'blocked':
        ctx.nontrivial = n > 0
        ctx.check(kind == 'ok', 'raised', lambda: 'call failed: %s' % (val,))
        if kind == 'ok':
            ctx.check(len(val) == n and all(e.startswith(out_dir) and os.path.exists(e) for e in val), 'errors',
                      lambda: '%d error files expected, but got %s' % (n, val))
        return
    if trouble == 'cancel' and cancelled():
        ctx.fault('cancelled')
        ctx.nontrivial = True
        ctx.check(kind == 'ok', 'raised', lambda: 'cancelled call failed: %s' % (val,))
        if len(started) < n:
            ctx.probe('documents_skipped')
        for i, m in enumerate(logged):
            head = 'Compiled "%s"' % base_names[i]
            ctx.check(m.startswith(head), 'log', lambda: 'message %d is %s, expected %s' % (i, m, head))
            p = names[i]
            ctx.check(base_names[i] in finished, 'incomplete', lambda: '%s is reported, but not finished: %s, %s' % (
                base_names[i], logged, finished))
            if m == messages[i]:
                mine = own(p)
                for k, v in mine.items():
                    ctx.check(out.get(k) == v or 'ERRORS' in m, 'incomplete', lambda: '%s of the document reported '
                              'with %s is %s instead of %s' % (k, m, K.show(out.get(k)), K.show(v)))
            else:
                ctx.check(m == head + ' with ERRORS', 'log', lambda: 'message %s instead of %s' % (m, messages[i]))
        if kind == 'ok':
            bad = [e for e in val if not os.path.exists(e)]
            ctx.check(not bad, 'errors', lambda: 'error files that do not exist: %s' % bad)
            if logged:
                want = [b for b, m in zip(base_names, logged) if ' with ' in m]
                got = [os.path.basename(e).rsplit('_', 1)[0] for e in val]
                ctx.check(got == [os.path.splitext(b)[0] for b in want], 'errors', lambda: 'reported with errors: '
                          '%s, returned error files: %s' % (want, got))
        return
    if hit:
        ctx.fault('worker_raised' if SPEC['plan'] else 'worker_died')
        ctx.nontrivial = True
        ctx.check(kind == 'raised', 'swallowed', lambda: 'failure of a worker is not reported: %s, result %s' % (
            SPEC['plan'] or deaths, val))
        if kind == 'raised':
            ctx.check('Broken' in str(val) or any(r[0] != 'ok' for r in ref.values()), 'raised', lambda: 'unexpected exception: %s' % (val,))
        for i, m in enumerate(logged):
            ctx.check(m == messages[i], 'log', lambda: 'message %d is %s, expected %s' % (i, m, messages[i]))
            for k, v in own(names[i]).items():
                ctx.check(out.get(k) == v, 'incomplete', lambda: '%s of a reported document is %s instead of %s' % (
                    k, K.show(out.get(k)), K.show(v)))
        for k, v in out.items():
            ctx.check(ref_tree.get(k) == v, 'output', lambda: '%s is %s instead of %s' % (
                k, K.show(v), K.show(ref_tree.get(k))))
        return
    ctx.nontrivial = n > 1
    failing = [ref[p] for p in names if ref[p][0] != 'ok']
    if failing:
        ctx.check(kind == 'raised', 'swallowed', lambda: 'failure is not reported: %s' % (failing[0],))
        return
    ctx.check(kind == 'ok', 'raised', lambda: 'call failed: %s' % (val,))
    if kind != 'ok':
        return
    ctx.check(sorted(started) == sorted(base_names), 'missing', lambda: 'documents %s, processed %s' % (
        base_names, started))
    want = [ref[p][1] for p in names if ref[p][1]]
    got = [os.path.relpath(e, out_dir) for e in val]
    ctx.check(want == got, 'errors', lambda: 'error files %s, expected %s' % (got, want))
    ctx.check(out == ref_tree, 'output', lambda: 'output differs from processing the documents one by one: %s' % (
        [(k, K.show(out.get(k)), K.show(ref_tree.get(k))) for k in sorted(set(out) | set(ref_tree))
         if out.get(k) != ref_tree.get(k)][:3],))
    if logged:
        ctx.check(logged == messages, 'log', lambda: 'messages %s, expected %s' % (logged, messages))


SCENARIOS = [('batch', batch, 10)]
