"""D06 - Grammar test suites give the same verdict sequentially and in parallel."""
import contextlib
import io
import json
import os
import re

from dst import fs, kernel, procpool
from scenarios import corpus as K
from scenarios.c03_singletons import reset as reset_threads
from scenarios.p06_batch import Fixed, fixed
from scenarios.parsing import Injector, stable_hashes

RULE = ('the verdict and the reports of a suite are those that running its files one by one in a fresh thread yields - '
        'sequentially, with any number of threads or worker processes, in any completion order and after any other suites; '
        'tests that fail by construction are reported, and only those; errors of test files, factories, transformations and '
        'workers and I/O-errors are raised; working directory and configuration are restored on every way out; the next '
        'undisturbed run yields the same verdict')
REAL = ['DHParser/testing.py: grammar_suite, grammar_unit, get_report, unit_from_file', 'DHParser/toolkit.py: instantiate_executor, '
        'SingleThreadExecutor, ExecutorWrapper', 'concurrent.futures.ThreadPoolExecutor', 'DHParser/parse.py', 'DHParser/trace.py',
        'DHParser/log.py', 'DHParser/pipeline.py', 'DHParser/transform.py', 'worker processes (forked, arguments and results are pickled)']
STUB = ['concurrent.futures.ProcessPoolExecutor (jobs start and end at seeded moments, workers die)', 'thread scheduling',
        'disk (scratch directory; errors, full disk, denied access, interrupts) in sequential runs']
ASSUMPTIONS = ['configuration is made via presets if tests run in parallel', 'test files have different base names']
PROBE_HASHSEED = '0'
RUNS = {'quick': 1600, 'thorough': 30000}

EBNF = {'plain': r'''@ whitespace = horizontal
@ drop = whitespace, strings
doc = { line }+
line = word { "," §word } ";"
word = /[a-z]+/~
number = /[0-9]+/~
item = word | number
''', 'ahead': r'''@ whitespace = linefeed
@ drop = strings
doc = ~ { line } EOF
line = word { "," word } &(";" | "!") (";" | "!")
word = /[a-z]+/~ !"("
EOF = !/./
item = word | number
number = /[0-9]+/~
'''}
SYMBOLS = ('doc', 'line', 'word', 'number', 'item')
DOCS = {'doc': ('a, b;', 'a; b; c;', 'a, ;', '', 'a', '?', 'a;;', 'a b;', 'x, y, z; 7', 'ab,', 'c, x; a, y;', 'x, c;', 'a,b;c;', 'c,x;a,y;'),
        'line': ('a, b;', 'a;', 'a', ';', 'a,, b;', 'a, 7;', 'a !', 'a', 'x, y;', 'x,y;', 'y,x,c;', 'c,c;', 'x;', 'a,b ,c;', 'z;'),
        'word': ('a', 'abc', '7', 'a b', 'A', 'a(', 'x ', 'c', 'y'),
        'number': ('1', '77', 'x', '1 1', '0 '),
        'item': ('a', '7', '?', 'a7', '7a')}
SPEC = {}
GRAMMAR = {}
CONFIG = ('history_tracking', 'resume_notices', 'test_parallelization', 'debug_parallel_execution', 'log_dir', 'test_suppress_lookahead_failures',
          'xml_attribute_error_handling', 'default_serialization', 'left_recursion', 'max_parser_dropouts', 'flatten_sxpr_threshold')


def warmup():
    stable_hashes()
    K.load()
    import concurrent.futures.thread
    import DHParser.dsl as D
    import DHParser.testing as T
    import DHParser.pipeline        # noqa
    import fnmatch                  # noqa
    from DHParser.configuration import get_config_value
    get_config_value('log_dir')
    fnmatch.fnmatch('a_test_b', '*test*')
    for k, text in EBNF.items():
        try:
            GRAMMAR[k] = D.grammar_provider(text)
            GRAMMAR[k]()
        except Exception:
            pass


class Flaw(RuntimeError):
    pass


# the factories are functions of the module, because they are passed on to other processes

def get_parser():
    if SPEC['trouble'] == 'parser':
        raise Flaw('no parser')
    return SPEC['parser']()


def get_transformer():
    return SPEC['transformer']()


def get_outline():
    return SPEC['outline']()


def table():
    from DHParser.transform import replace_by_single_child, flatten, remove_whitespace
    return {'doc': [flatten], 'item': [replace_by_single_child], 'word': [], 'line': []}


def transformer():
    import DHParser.transform as T
    from DHParser.error import WARNING

    def transform(root):
        T.traverse(root, table())
        for nd in root.select('word', include_root=True):
            if nd.content.strip() == SPEC.get('poison'):
                raise AssertionError('poisoned word')
            if nd.content.strip() == 'c':
                root.new_error(nd, 'c is out of fashion', WARNING)
        root.stage = 'AST'
        return root
    return transform


class Outline:
    def __call__(self, root):
        def render(nd):
            return '%s(%s)' % (nd.name, ' '.join(render(c) for c in nd.children) if nd.children else nd.content)
        from DHParser.error import ERROR, WARNING
        for nd in root.select(lambda nd: not nd.children, include_root=True):
            if 'y' in nd.content:
                root.new_error(nd, 'y is not allowed', ERROR)
            if 'x' in nd.content:
                root.new_error(nd, 'x is discouraged', WARNING)
        if 'z' in root.content:
            raise Flaw('z cannot be compiled')
        return render(root)


def outline():
    return Outline()


def setup(kind):
    from DHParser.toolkit import ThreadLocalSingletonFactory
    cls = GRAMMAR[kind].grammar_class if hasattr(GRAMMAR[kind], 'grammar_class') else type(GRAMMAR[kind]())
    SPEC.clear()
    SPEC.update(kind=kind, parser=ThreadLocalSingletonFactory(cls), transformer=ThreadLocalSingletonFactory(transformer),
                outline=ThreadLocalSingletonFactory(outline), trouble='', poison=None)


def junctions():
    from DHParser.compile import Junction
    return {Junction('AST', Fixed(3, get_outline), 'outline')}


def parse(symbol, doc):
    return SPEC['parser']()(doc, symbol)


def make_unit(ch, kind, stages):
    """-> (unit, {test name: 'pass' | 'fail' | None})"""
    unit, plan = {}, {}
    n = 0
    for symbol in SYMBOLS[:ch.rint(1, len(SYMBOLS))] if ch.chance(60) else (ch.pick(SYMBOLS),):
        tests = {}
        for typ in ('match', 'fail'):
            if typ == 'fail' and ch.chance(50):
                continue
            for _ in range(ch.rint(0, 4)):
                n += 1
                name = '%s%d%s' % ('MF'[typ == 'fail'], n, '*' if typ == 'match' and ch.chance(15) else '')
                doc = ch.pick(DOCS[symbol])
                r = K.outcome(lambda: parse(symbol, doc))
                if r[0] != 'ok':
                    continue
                errors = [e for e in r[1].errors if e.code >= 1000]
                tests.setdefault(typ, {})[name] = doc
                verdict = None
                if not errors:
                    verdict = 'pass'
                elif kind == 'plain':
                    verdict = 'fail'
                if typ == 'fail':
                    plan[name] = {'pass': 'fail', 'fail': 'pass', None: None}[verdict] if not (verdict == 'pass' and doc != doc.strip()) else None
                    continue
                plan[name] = verdict
                cst = r[1]
                if verdict == 'pass' and ch.chance(40):
                    stage = ch.pick(('CST', 'AST') + tuple(stages))
                    wrong = ch.chance(30)
                    key = name.replace('*', '')
                    if stage == 'CST':
                        want = cst.as_sxpr()
                    else:
                        t = K.outcome(lambda: SPEC['transformer']()(cst))
                        if t[0] != 'ok':
                            continue
                        if stage == 'AST':
                            want = re.sub(r'\s*`\(err "[^"]*"\)', '', t[1].as_sxpr())
                        else:
                            o = K.outcome(lambda: Outline()(t[1]))
                            if o[0] != 'ok' or any(e.code >= 1000 for e in t[1].errors):
                                plan[name] = 'fail'
                                want = '?'
                            else:
                                want = o[1]
                    if wrong:
                        want = '(wrong "thing")' if stage != 'outline' else 'wrong'
                        plan[name] = 'fail'
                    tests.setdefault(stage, {})[key] = want
        if stages and 'outline' in tests or SPEC['show']:
            for name in tests.get('match', {}):     # the stage is run on all tests of the symbol
                doc = tests['match'][name]
                if plan[name] == 'pass' and ('y' in doc or 'z' in doc):
                    plan[name] = 'fail'
        if tests.get('match') or tests.get('fail'):
            unit[symbol] = tests
    if ch.chance(10):
        typ = ch.pick(('match', 'fail'))
        unit['nix'] = {typ: {'%s99' % 'MF'[typ == 'fail']: ch.pick(('a', '?'))}}
        plan['%s99' % 'MF'[typ == 'fail']] = 'fail'
    return unit, plan


def to_ini(ch, unit):
    out = []
    if ch.chance(25):
        out.append('[config]')
        out.append('%s: %s' % (ch.pick((('max_parser_dropouts', '5'), ('flatten_sxpr_threshold', '77'), ('left_recursion', 'True')))))
        out.append('')
    for symbol, tests in unit.items():
        for typ, cases in tests.items():
            out.append('[%s:%s]' % (typ, symbol))
            for name, case in cases.items():
                out.append('%s: """%s"""' % (name, case))
            out.append('')
    return '\n'.join(out) + '\n'


def suite_files(ch, kind, n):
    stages = ('outline',) if ch.chance(50) else ()
    files, plans = {}, {}
    for i in range(n):
        unit, plan = make_unit(ch, kind, stages)
        if not unit:
            unit, plan = {'word': {'match': {'M1': 'a'}}}, {'M1': 'pass'}
        ini = ch.chance(60) and not any('outline' in t or 'CST' in t or 'AST' in t for t in unit.values())
        ini = ini or ch.chance(30)
        base = '%02d_test_%s' % ((i * 7) % 11, ch.pick(('alpha', 'beta')))
        if ini:
            files[base + '.ini'] = to_ini(ch, unit)
        else:
            files[base + '.json'] = json.dumps(unit)
        plans[base + ('.ini' if ini else '.json')] = plan
    return files, plans, bool(stages) or True


def suite(report, mode, fresh=True, directory='tests', ignore=False):
    """-> outcome of grammar_suite"""
    import DHParser.testing as T
    from DHParser.configuration import access_presets, finalize_presets, set_preset_value, set_config_value
    return T.grammar_suite(directory, get_parser, get_transformer, ignore_unknown_filetypes=ignore, report=report, verbose=SPEC['verbose'],
                           junctions=junctions(), show=SPEC['show'], serializations={'*': ['sxpr']})


def presets(mode):
    from DHParser.configuration import access_presets, finalize_presets, set_preset_value, CONFIG_PRESET
    access_presets()
    old = {k: CONFIG_PRESET[k] for k in ('test_parallelization', 'debug_parallel_execution')}
    set_preset_value('test_parallelization', mode != 'serial')
    set_preset_value('debug_parallel_execution', {'threads': 'multithreading', 'processes': 'multicore', 'serial': 'multicore'}[mode])
    finalize_presets()
    reset_threads()
    return old


def restore(old):
    from DHParser.configuration import access_presets, finalize_presets, set_preset_value
    access_presets()
    for k, v in old.items():
        set_preset_value(k, v)
    finalize_presets()


RX_ID = re.compile('0x[0-9a-f]+')
RX_LINE = re.compile(r'File "[^"]*", line \d+')


def canon(text):
    return RX_LINE.sub('FILE', RX_ID.sub('0xX', text))


def reports(disk, sub='tests/REPORT'):
    return {p[len(sub) + 1:]: canon(b.decode('utf-8')) for p, b in disk.files().items() if p.startswith(sub + '/')}


@contextlib.contextmanager
def place(disk):
    cwd = os.getcwd()
    os.chdir(disk.root)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield
    finally:
        os.chdir(cwd)
        reset_threads()
        SPEC.clear()


def config():
    from DHParser.configuration import get_config_value
    return {k: get_config_value(k) for k in CONFIG}


def reference(disk, names, report='REF'):
    """every file on its own -> ({file: errata or exception}, reports)"""
    import DHParser.testing as T
    out = {}
    os.chdir(disk.path('tests'))
    for name in names:
        reset_threads()
        out[name] = K.outcome(lambda: T.grammar_unit(name, get_parser, get_transformer, report, False, junctions(), SPEC['show'], {'*': ['sxpr']}))
    os.chdir(disk.root)
    reset_threads()
    rep = reports(disk, 'tests/REF')
    import shutil
    shutil.rmtree(disk.path('tests/REF'), ignore_errors=True)
    return out, rep


def expected(ref):
    """verdict of a suite from the results of its files"""
    for name in sorted(ref):
        if ref[name][0] != 'ok':
            return ('raised', ref[name][1])
    bad = {n: r[1] for n, r in ref.items() if r[1]}
    return ('ok', {n: [canon(e) for e in r] for n, r in bad.items()})


def same(ctx, got, want, when):
    """compares an outcome of grammar_suite with an expected verdict"""
    if want[0] != 'ok':
        return ctx.check(got[0] == 'raised' and got[1] == want[1], 'verdict', lambda: '%s: %s instead of %s' % (when, str(got)[:400], want))
    if not ctx.check(got[0] == 'ok', 'verdict', lambda: '%s: %s instead of %s' % (when, str(got)[:400], str(want)[:400])):
        return False
    text = canon(got[1])
    if not want[1]:
        return ctx.check(text == '', 'verdict', lambda: '%s: errors, though there are none: %s' % (when, text[:500]))
    parts = re.split(r'\n\nErrors found by unit test "([^"]*)":\n', text)
    names, bodies = parts[1::2], parts[2::2]
    ok = ctx.check(names == sorted(want[1]), 'verdict', lambda: '%s: errors in %s instead of %s' % (when, names, sorted(want[1])))
    n = sum(len(v) for v in want[1].values())
    ok = ctx.check(parts[0].split('\n')[0].endswith(' revealed %d error%s:' % (n, 's' if n > 1 else '')), 'verdict', lambda: '%s: %s instead of %d errors' % (
        when, parts[0], n)) and ok
    for name, body in zip(names, bodies):
        exp = '\n'.join('\t' + '\n\t'.join(e.split('\n')) for e in want[1].get(name, ()))
        ok = ctx.check(body.strip('\n') == exp.strip('\n'), 'verdict', lambda: '%s: %s: %s instead of %s' % (when, name, K.show(body), K.show(exp))) and ok
    return ok


def planned(ctx, plans, ref):
    """are the verdicts of the single files what the tests were made for?"""
    for name, plan in plans.items():
        r = ref.get(name)
        if r is None or r[0] != 'ok':
            continue
        for test, verdict in plan.items():
            t = test.replace('*', '')
            hit = [e for e in r[1] if re.search(r'\b%s\b' % t, e.split('\n')[0])]
            if verdict == 'pass':
                ctx.check(not hit, 'test_verdict', lambda: '%s: %s should pass, but: %s' % (name, test, hit))
            elif verdict == 'fail':
                ctx.check(hit, 'test_verdict', lambda: '%s: %s should fail, but: %s' % (name, test, r[1]))


def modes(ctx):
    """the same suite in all modes of execution"""
    ch = ctx.ch
    kind = ch.pick(sorted(GRAMMAR))
    disk = fs.FS(ctx)
    with disk, place(disk):
        setup(kind)
        SPEC.update(verbose=ch.chance(50), show={'outline'} if ch.chance(20) else set())
        files, plans, _ = suite_files(ch, kind, ch.rint(1, 5))
        trouble = ch.weighted([(6, ''), (1, 'poison'), (1, 'syntax'), (1, 'unknown'), (1, 'parser'), (1, 'lacking'), (1, 'death')])
        ignore = ch.chance(50)
        if trouble == 'poison':
            SPEC['poison'] = 'a'
        elif trouble == 'syntax':
            files['05_test_bad.ini'] = '[match:word]\nM1 a\n'
        elif trouble == 'unknown':
            files['06_test_odd.xyz'] = '?'
        elif trouble == 'lacking':
            files['07_test_lack.json'] = json.dumps({'word': {'match': {'M1': 'a'}, 'AST': {'M2': '(word "a")'}}})
        elif trouble == 'parser':
            SPEC['trouble'] = 'parser'
        for n, t in files.items():
            disk.write('tests/' + n, t)
        disk.write('tests/notes.txt', 'nothing to do with tests'.replace('test', 'tst'))
        report = ch.pick(('REPORT', 'REPORT', ''))
        ref, ref_reports = reference(disk, sorted(files), 'REF' if report else '')
        if trouble == '':
            planned(ctx, plans, ref)
            if ctx.violations:
                return
        if trouble == 'unknown' and ignore:
            ref.pop('06_test_odd.xyz')
        want = expected(ref)
        logging = ch.chance(20)
        seq = [ch.pick(('serial', 'threads', 'processes')) for _ in range(ch.rint(1, 3))]
        ctx.case = '%s %d files %s %s %s' % (kind, len(files), trouble, seq, want[0])
        ctx.nontrivial = True
        for mode in seq:
            ctx.ev(mode, sorted(files.items()))
            procpool.install()
            procpool.SimProcessPool.mode = 'fork'
            w = kernel.World(ctx, preempt=mode == 'threads')
            w.gap_scale = ch.pick((20, 60, 200))
            deaths = {ch.rint(1, len(files))} if trouble == 'death' and mode == 'processes' and len(files) > 1 else set()
            jobs = [0]

            def dies(pool, f):
                jobs[0] += 1
                return jobs[0] in deaths
            w.pool_faults = dies
            old = presets(mode)
            box = []

            def call():
                if logging:
                    from DHParser.log import start_logging
                    start_logging('LOGS')
                before = config()
                box.append(K.outcome(lambda: suite(report, mode, ignore=ignore)))
                box.append((before, config(), os.path.realpath(os.getcwd())))

            def main():
                a = w.spawn(call, 'S')
                if not w.block(lambda: a.state == kernel.DONE, 1000.0):
                    ctx.violate('hang', '%s: grammar_suite() does not return' % mode)
                elif a.exc is not None:
                    box[:] = [('raised', type(a.exc).__name__, str(a.exc)), None]
            if mode == 'threads':
                kernel.instrument()
            try:
                w.run(main)
            finally:
                kernel.uninstrument()
                restore(old)
            if ctx.violations:
                return
            when = '%s (%s)' % (mode, trouble)
            if ctx.check(box[1] is not None, 'raised', lambda: '%s: %s' % (when, box)):
                before, after, cwd = box[1]
                ctx.check(before == after, 'config', lambda: '%s: configuration changed: %s' % (when, [
                    (k, before[k], after[k]) for k in before if before[k] != after[k]]))
                ctx.check(cwd == os.path.realpath(disk.root), 'cwd', lambda: '%s: working directory is %s after %s' % (when, cwd, str(box[0])[:200]))
            os.chdir(disk.root)
            if deaths and ctx.faults['worker_death']:
                deaths = set()
                ctx.check(box[0][0] == 'raised' and box[0][1] == 'BrokenProcessPool' or want[0] != 'ok' and box[0][0] == 'raised', 'swallowed', lambda: (
                    '%s: death of a worker: %s' % (when, str(box[0])[:300])))
                ctx.faults['worker_death'] = 0
                ctx.faults['dead_worker'] += 1
                continue
            same(ctx, box[0], want, when)
            if report and want[0] == 'ok':
                got = reports(disk)
                ctx.check(got == ref_reports, 'report', lambda: '%s: reports differ: %s' % (when, [
                    (k, K.diff(got.get(k), ref_reports.get(k))) for k in sorted(set(got) | set(ref_reports)) if got.get(k) != ref_reports.get(k)][:2]))
            if not report:
                ctx.check(not reports(disk) or 'REPORT' in str(seq), 'report', lambda: '%s: reports written' % when)
            if ctx.violations:
                return


def parsing(exc):
    """Was a document being parsed or a tree being transformed when exc was raised?"""
    tb = exc.__traceback__
    while tb:
        code = tb.tb_frame.f_code
        if (os.path.basename(code.co_filename), code.co_name) in (('parse.py', '__call__'), ('transform.py', 'traverse')):
            return True
        tb = tb.tb_next
    return False


def faults(ctx):
    """disturbed sequential runs"""
    ch = ctx.ch
    kind = ch.pick(sorted(GRAMMAR))
    disk = fs.FS(ctx)
    with disk, place(disk):
        setup(kind)
        SPEC.update(verbose=ch.chance(50), show=set())
        files, plans, _ = suite_files(ch, kind, ch.rint(1, 3))
        for n, t in files.items():
            disk.write('tests/' + n, t)
        ref, ref_reports = reference(disk, sorted(files))
        planned(ctx, plans, ref)
        want = expected(ref)
        old = presets('serial')
        logging = ch.chance(40)
        if logging:
            from DHParser.log import start_logging
            start_logging('LOGS')
        try:
            n = ch.rint(1, 3)
            story = []
            for i in range(n + 1):
                fault = ch.pick(('error', 'denied', 'full', 'interrupt', 'line', 'line', 'line', 'torn', 'poison', 'parser')) if i < n else ''
                before, count = config(), sum(ctx.faults.values())
                weak = False
                inj = None
                if fault in ('poison', 'parser'):
                    SPEC['poison'] = 'a' if fault == 'poison' else None
                    SPEC['trouble'] = 'parser' if fault == 'parser' else ''
                elif fault and fault != 'line':
                    disk.arm(fault, ch.pick((ch.rint(0, 6), ch.rint(0, 30))), times=ch.pick((1, 1, 100)))
                try:
                    if fault == 'line':
                        inj = Injector(ctx, ch.pick((('testing.py',), ('testing.py', 'log.py'), ('testing.py', 'parse.py', 'trace.py', 'compile.py'))))
                        r = ('ok', inj.run(lambda: suite('REPORT', 'serial'), ch.pick((ch.rint(1, 100), ch.rint(1, 900), ch.rint(1, 4000))),
                                           KeyboardInterrupt('injected')))
                    else:
                        r = ('ok', suite('REPORT', 'serial'))
                except Exception as e:
                    r = ('raised', type(e).__name__, str(e))
                except KeyboardInterrupt as e:
                    r = ('interrupted', '', '')
                    # an interrupt that strikes while a suite is set up or torn down may leave traces
                    weak = inj is not None and not parsing(e)
                disk.disarm()
                hit = inj is not None and inj.hit
                if hit:
                    ctx.faults['line_interrupt'] += 1
                disturbed = sum(ctx.faults.values()) > count or fault in ('poison', 'parser')
                SPEC.update(poison=None, trouble='')
                if weak:
                    ctx.check(hit, 'swallowed', lambda: 'interrupt out of nothing')
                    os.chdir(disk.root)
                    reset_threads()
                    if logging:
                        start_logging('LOGS')
                when = 'attempt %d%s' % (i, ' (%s)' % fault if fault else '')
                story.append((fault, r[0]))
                ctx.case = '%s %d files %s' % (kind, len(files), story)
                ctx.ev(when, r[0], sorted(files.items()) if i == 0 else '')
                after = config()
                ctx.check(before == after, 'config', lambda: '%s (%s): configuration changed: %s' % (when, r, [
                    (k, before[k], after[k]) for k in before if before[k] != after[k]]))
                ctx.check(os.path.realpath(os.getcwd()) == os.path.realpath(disk.root), 'cwd', lambda: '%s (%s): working directory is %s' % (
                    when, r, os.getcwd()))
                os.chdir(disk.root)
                if not disturbed:
                    same(ctx, r, want, when)
                    if want[0] == 'ok':
                        got = reports(disk)
                        for k in sorted(ref_reports):
                            ctx.check(got.get(k) == ref_reports[k], 'report', lambda: '%s: %s' % (when, K.diff(got.get(k), ref_reports[k])))
                elif hit:
                    ctx.check(r[0] != 'ok', 'swallowed', lambda: '%s: interrupt has been swallowed: %s' % (when, str(r)[:300]))
                elif r[0] == 'ok':
                    ctx.check(fault in ('poison',) or logging or same(ctx, r, want, when), 'swallowed', lambda: '%s: %s' % (when, str(r)[:300]))
                if ctx.violations:
                    return
        finally:
            restore(old)
        ctx.nontrivial = True


SCENARIOS = [('modes', modes, 5), ('faults', faults, 4)]
