"""D04 - Processing a file leaves complete outputs or a report, never silent damage."""
import contextlib
import io
import os
import shutil
import tempfile

from dst import fs, kernel
from scenarios import corpus as K
from scenarios.c03_singletons import reset as reset_threads
from scenarios.p06_batch import GRAMMARS, Fixed, setup
from scenarios.parsing import Injector, Query, mutate, stable_hashes

RULE = ('if process_file() returns, the outputs are exactly the serialised results of the pipeline, no output is written '
        'for stages with fatal errors, and there is exactly one report if there are errors or warnings, which mentions '
        'all of them; whatever happens, every output and report is a complete one of some run, and there is no '
        'fresh output of a faulty document without report; the next undisturbed run yields the same as a first one')
REAL = ['DHParser/dsl.py: process_file, compile_on_disk', 'DHParser/pipeline.py: full_pipeline', 'DHParser/compile.py',
        'DHParser/parse.py', 'DHParser/transform.py', 'DHParser/nodetree.py: serializations',
        'DHParser/toolkit.py: write_atomically', 'DHParser/scripts/XMLreflow.py']
STUB = ['disk (scratch directory; errors, full disk, denied access, short reads and writes, crashes with loss of '
        'buffers, interrupts)', 'clock', 'scheduling of concurrent calls']
ASSUMPTIONS = ['the documents in one output directory have different base names',
               'completed writes survive a crash of the process in the order in which they were made',
               'outputs of an earlier run stay in place if the document has fatal errors now (the report tells)']
PROBE_HASHSEED = '0'     # pipelines iterate over sets of strings
RUNS = {'quick': 5000, 'thorough': 60000}

SERIAL = ('sxpr', 'XML', 'json', 'indented', 'S-expression', 'default', 'tree')
EXT = {'s-expression': 'sxpr', 'indented': 'tree', 'default': 'sxpr'}
REPORTS = ('_ERRORS.txt', '_WARNINGS.txt', '_FATAL_ERROR.txt')

SUITE = {}
HARMLESS = {}

EBNF = r'''@ whitespace = horizontal
@ drop = whitespace, strings
doc = ~ { line } EOF
line = word { "," word } §/\n/~
word = /\w+/~
EOF = !/./
'''
SUITE_DOCS = ('a, b\nc\n', 'a\n', '', 'a, \n', 'a b\n', 'ä, ö, ü\nx\n', 'a, b\n' * 300, 'a\n?\nb\n')


def warmup():
    stable_hashes()
    K.load()
    import DHParser.dsl
    import DHParser.pipeline
    import platform
    import random           # noqa
    from DHParser.configuration import get_config_value
    from DHParser.preprocess import nil_preprocessor    # noqa
    platform.system()
    get_config_value('default_serialization')
    d = tempfile.mkdtemp(prefix='dst_d04_', dir='/tmp')
    try:
        p = os.path.join(d, 'lines.ebnf')
        with open(p, 'w', encoding='utf-8') as f:
            f.write(EBNF)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                DHParser.dsl.recompile_grammar(p)
            with open(os.path.join(d, 'linesParser.py'), encoding='utf-8') as f:
                SUITE['text'] = f.read()
        except Exception:
            SUITE['text'] = ''
    finally:
        shutil.rmtree(d)
    for name in GRAMMARS:
        st = setup(name)
        for t in ('AST', 'outline', 'tree'):
            for doc in K.documents(name)[:2]:
                K.outcome(lambda: full(st, doc + '\n', {t}))
        for doc in K.documents(name):
            if all(K.outcome(lambda: full(setup(name), doc + '\n', {t}))[0] == 'ok' for t in ('AST', 'outline', 'tree')):
                HARMLESS.setdefault(name, []).append(doc)


def full(st, source, targets):
    from DHParser.pipeline import full_pipeline
    return full_pipeline(source, st['preprocessor'], st['parser'], st['junctions'], set(targets))


class Troubled:
    """processing stage that reports an error for some documents"""

    def __init__(self, inner, dst, code, nr):
        self.inner, self.dst, self.code, self.nr = inner, dst, code, nr

    def __call__(self, tree):
        if len(tree.content) % 3 != self.nr:
            tree.new_error(tree, 'trouble in stage ' + self.dst, self.code)
        return self.inner(tree)


def troubled(ch, st):
    from DHParser.error import ERROR, FATAL, WARNING
    dst, nr = ch.pick(('AST', 'AST', 'outline', 'tree')), ch.rint(0, 3)
    code = ch.weighted([(4, FATAL), (2, ERROR), (1, WARNING)])
    return dict(st, junctions={j if j.dst != dst else j._replace(factory=Fixed(
        hash(j.factory), lambda inner=j.factory: Troubled(inner(), dst, code, nr))) for j in st['junctions']})


def expected(st, source, base, targets, serial):
    """-> ({path: content}, errors, level): what a first-time run yields"""
    from DHParser.error import FATAL, ERROR, has_errors, canonical_error_strings
    from DHParser.nodetree import Node
    results = full(st, source, targets)
    out, errors = {}, []
    done = {t: r for t, r in results.items() if t in targets}
    for t, (result, err) in (done if len(done) == len(targets) else results).items():
        for e in err:
            if str(e) not in [str(x) for x in errors]:
                errors.append(e)
        if t in targets and not has_errors(err, FATAL):
            if isinstance(result, Node):
                for s in serial:
                    s = EXT.get(s.lower(), s.lower())
                    out['%s/%s.%s.%s' % (t, base, t, s)] = result.serialize(s)
            else:
                out['%s/%s.%s' % (t, base, t)] = str(result)
    report = ''
    if errors:
        report = base + ('_ERRORS.txt' if has_errors(errors, ERROR) else '_WARNINGS.txt')
    return out, errors, report


def arm(ctx, disk, own):
    """-> description of the fault"""
    ch = ctx.ch
    kind = ch.weighted([(6, ''), (5, 'crash'), (4, 'error'), (2, 'full'), (2, 'denied'), (3, 'interrupt'), (2, 'torn'),
                        (3, 'line'), (3, 'cancel')])
    if kind in ('', 'line', 'cancel'):
        return kind
    kw = {}
    if kind in ('crash', 'error', 'interrupt') and ch.chance(50):
        kw['ops'] = fs.WRITING if ch.chance(60) else {ch.pick(sorted(fs.WRITING | fs.READING))}
    if kind == 'error':
        kw['times'] = ch.pick((1, 1, 2, 100))
    if ch.chance(50):
        where = ch.pick(own)
        kw['paths'] = lambda p: where in p
    disk.arm(kind, ch.weighted([(4, 0), (3, 1), (2, 2), (2, 4), (2, 7), (1, 12), (1, 18)]), **kw)
    if kind not in ('full', 'crash') and ch.chance(20):
        disk.short_io = 50
    return kind


def attempt(ctx, disk, fault, fn, files=('dsl.py', 'toolkit.py', 'pipeline.py')):
    """-> (result, what, disturbed)"""
    before = sum(ctx.faults.values())
    inj, res = None, None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if fault == 'line':
                inj = Injector(ctx, files)
                res = inj.run(fn, ctx.ch.pick((ctx.ch.rint(1, 60), ctx.ch.rint(1, 400))), KeyboardInterrupt('injected'))
            else:
                res = fn()
        what = 'ok'
    except fs.SimCrash:
        what = 'crash'
        disk.restart()
        reset_threads()
    except KeyboardInterrupt:
        what = 'interrupted'
    except Exception as e:
        what = '%s: %s' % (type(e).__name__, str(e)[:200])
    disk.disarm()
    if inj is not None and inj.hit:
        ctx.fault('interrupt at line')
    return res, what, sum(ctx.faults.values()) > before


def histories(ctx):
    from DHParser.dsl import process_file
    ch = ctx.ch
    disk = fs.FS(ctx, shuffle=True)
    with disk:
        disk.step = 1.0
        disk.bufsize = ch.pick((16, 512, io.DEFAULT_BUFFER_SIZE, 1 << 20))
        name = ch.pick(GRAMMARS)
        docs = K.documents(name)
        st = setup(name)
        bases = ['doc', 'other'][:ch.rint(1, 2)]
        out_dir = disk.path(*ch.pick((('out',), ('out', 'deep', 'er'), ('src',))))
        prefix = disk.rel(out_dir) + '/'
        ctx.case = [name]
        for b in bases:
            disk.write('src/%s.dsl' % b, ch.pick(docs) + '\n')
        if ch.chance(30):
            st = troubled(ch, st)
        blocked = ch.chance(4)
        if blocked:
            disk.write(prefix + 'AST', 'a file in the way')
        for step in range(ch.rint(2, 6)):
            if ctx.violations:
                return
            base = ch.pick(bases)
            if ch.chance(60):
                doc = ch.pick(docs) if ch.chance(60) else mutate(ch, ch.pick(docs), docs)
                disk.write('src/%s.dsl' % base, doc + '\n')
            source = disk.path('src', base + '.dsl')
            targets = ch.pick((('AST',), ('outline',), ('AST', 'outline'), ('AST', 'outline', 'tree'), ('tree',)))
            serial = [ch.pick(SERIAL) for _ in range(ch.rint(1, 2))]
            serializations = {ch.pick(('*', '*', targets[0])): serial} if ch.chance(80) else {}
            by_target = {t: serializations.get(t, serializations.get('*', ['default'])) for t in targets}
            try:
                want, errors, report = expected_by(st, source, base, targets, by_target)
            except Exception as e:          # the compilers of the corpus raise
                disk.write('src/%s.dsl' % base, ch.pick(HARMLESS[name]) + '\n')
                want, errors, report = expected_by(st, source, base, targets, by_target)
            before = disk.files()
            fault = arm(ctx, disk, ('_ERRORS', '_WARN', '/' + targets[0] + '/', 'src/', '.sxpr', base))
            query = Query(ch.pick((ch.rint(1, 4), ch.rint(1, 40)))) if fault == 'cancel' else None
            res, what, disturbed = attempt(ctx, disk, fault, lambda: process_file(
                source, out_dir, st['preprocessor'], st['parser'], st['junctions'], set(targets),
                serializations, query))
            canceled = query is not None and query.granted > 0
            if canceled:
                ctx.fault('cancel')
            msg = 'process %s %s %s%s -> %s %s' % (base, targets, serializations, ' [%s]' % fault if fault else '', what, res or '')
            ctx.case.append(msg)
            ctx.ev('call', msg)
            ctx.nontrivial = True
            after = disk.files()
            text = lambda p: after[prefix + p].decode('utf-8', 'replace') if prefix + p in after else None
            # an error while reading the source may be reported, too
            unreadable = disturbed and 'Errno' in (text(base + '_ERRORS.txt') or '')
            # --- nothing but complete outputs
            known = {prefix + base + r for r in REPORTS} | {prefix + p for p in want}
            for p in sorted(set(before) | set(after)):
                if before.get(p) == after.get(p):
                    continue
                if p not in known:
                    ctx.check(p not in before and (disturbed or blocked), 'other', lambda: '%s: changes file %s' % (msg, p))
                elif p[len(prefix):] in want:
                    ctx.check(p in after and text(p[len(prefix):]) == want[p[len(prefix):]], 'partial', lambda: '%s: %s is incomplete: '
                              '%s instead of %s' % (msg, p, K.show(text(p[len(prefix):]), 300), K.show(want[p[len(prefix):]], 300)))
                    if errors:
                        ctx.check(any(prefix + base + r in after for r in REPORTS), 'unreported', lambda: '%s: output of a '
                                  'faulty document without report' % msg)
                elif p in after and not canceled:
                    check_report(ctx, msg, text(p[len(prefix):]), errors, p, blocked or unreadable)
            if what == 'ok' and canceled and any(word in (text(base + '_ERRORS.txt') or '') for word in ('cancel', 'trouble')):
                ctx.check(res == os.path.join(out_dir, base + '_ERRORS.txt') or blocked and '_FATAL' in res, 'returned', lambda: '%s: returned %s' % (msg, res))
            elif what == 'ok':
                if blocked and 'AST' in targets and res and '_FATAL' in res or unreadable and res:
                    continue
                for p, content in want.items():
                    ctx.check(text(p) == content, 'output', lambda: '%s: %s is %s instead of %s' % (
                        msg, p, K.show(text(p), 300), K.show(content, 300)))
                reports = [r for r in REPORTS if prefix + base + r in after]
                ctx.check([base + r for r in reports] == ([report] if report else []), 'report', lambda: '%s: reports '
                          'are %s instead of %s' % (msg, reports, report))
                ctx.check(res == (os.path.join(out_dir, report) if report else ''), 'returned', lambda: '%s: returned %s' % (
                    msg, res))
                if report:
                    check_report(ctx, msg, text(report), errors, report, False)
            elif what not in ('crash', 'interrupted'):
                ctx.check(disturbed or blocked, 'raised', msg)
            else:
                ctx.check(disturbed, 'raised', msg)


def expected_by(st, source, base, targets, by_target):
    out = {}
    serial = sorted({s for ss in by_target.values() for s in ss})
    every, errors, report = expected(st, source, base, targets, serial)
    for p, c in every.items():
        t = p.split('/')[0]
        ext = p[len('%s/%s.%s' % (t, base, t)) + 1:]
        if not ext or ext in [EXT.get(s.lower(), s.lower()) for s in by_target[t]]:
            out[p] = c
    return out, errors, report


def check_report(ctx, msg, text, errors, p, blocked):
    if blocked and ('in use' in (text or '') or 'Errno' in (text or '')):
        return
    ctx.check(text and all(e.message in text for e in errors) and len(errors) > 0, 'report', lambda: '%s: report %s is '
              'incomplete: %s instead of %s' % (msg, p, K.show(text, 400), K.show([e.message for e in errors], 400)))
    once = sorted((e.pos, text.find(e.message)) for e in errors if (text or '').count(e.message) == 1)
    ctx.check([i for _, i in once] == sorted(i for _, i in once), 'order', lambda: '%s: errors in report %s are not in the '
              'order of their positions: %s' % (msg, p, K.show(text, 600)))


def concurrent(ctx):
    """several threads write to the same output directory"""
    from DHParser.dsl import process_file
    ch = ctx.ch
    w = kernel.World(ctx, preempt=True)
    disk = fs.FS(ctx)
    with disk:
        disk.step = 1.0
        disk.bufsize = ch.pick((16, 512, io.DEFAULT_BUFFER_SIZE))
        name = ch.pick(GRAMMARS)
        docs = K.documents(name)
        st = setup(name)
        out_dir = disk.path('out', 'deep')
        same = ch.chance(40)
        n = ch.rint(2, 4)
        bases = ['doc'] * n if same else ['doc%d' % i for i in range(n)]
        targets = ('AST', 'outline')
        wanted = []
        for b in dict.fromkeys(bases):
            disk.write('src/%s.dsl' % b, ch.pick(HARMLESS[name]) + '\n')
        for b in bases:
            wanted.append(expected(st, disk.path('src', b + '.dsl'), b, targets, ['sxpr']))
        res = {}

        def act(i):
            res[i] = process_file(disk.path('src', bases[i] + '.dsl'), out_dir, st['preprocessor'], st['parser'],
                                  st['junctions'], set(targets), {'*': ['sxpr']})

        def main():
            actors = [w.spawn(lambda i=i: act(i), 'T%d' % i) for i in range(n)]
            w.block(lambda: all(a.state == kernel.DONE for a in actors), 100.0)
            for a in actors:
                ctx.check(a.state == kernel.DONE and a.exc is None, 'failed', lambda: '%s %r' % (a.state, a.exc))
        with contextlib.redirect_stdout(io.StringIO()):
            w.run(main)
        ctx.nontrivial = True
        ctx.case = '%s %s %s' % (name, bases, res)
        files = {p[len('out/deep/'):]: c.decode('utf-8', 'replace') for p, c in disk.files().items() if p.startswith('out/')}
        all_files = set()
        for i in range(n):
            want, errors, report = wanted[i]
            ctx.check(res.get(i) == (os.path.join(out_dir, report) if report else ''), 'returned', lambda: 'document %d: %s' % (
                i, res.get(i)))
            for p, c in want.items():
                ctx.check(files.get(p) == c, 'output', lambda: 'document %d: %s is %s instead of %s' % (
                    i, p, K.show(files.get(p), 300), K.show(c, 300)))
            all_files |= set(want) | ({report} if report else set())
            if report:
                check_report(ctx, 'document %d' % i, files.get(report), errors, report, False)
        ctx.check(set(files) == all_files, 'other', lambda: 'files: %s' % sorted(set(files) ^ all_files))


def suite(ctx):
    """compile_on_disk() with the parser script of another language"""
    from DHParser.dsl import compile_on_disk
    from DHParser.error import has_errors
    ch = ctx.ch
    disk = fs.FS(ctx)
    with disk:
        disk.step = 1.0
        disk.bufsize = ch.pick((16, 512, io.DEFAULT_BUFFER_SIZE))
        disk.write('linesParser.py', SUITE['text'])
        ctx.case = []
        ext = ch.pick(('.xml', '.xml', '.sxpr', '.XML'))
        reference = {}
        for _ in range(ch.rint(2, 4)):
            if ctx.violations:
                return
            doc = ch.pick(SUITE_DOCS)
            disk.write('doc.txt', doc)
            fn = lambda target='doc.txt': compile_on_disk(disk.path(target), '', disk.path('linesParser.py'), ext)
            if doc not in reference:
                disk.write('ref/doc.txt', doc)
                messages = fn('ref/doc.txt')
                reference[doc] = [e.message for e in messages], disk.text('ref/doc' + ext), has_errors(messages)
                ctx.check((reference[doc][1] is None) == has_errors(messages) or 'ok' in ctx.case, 'reference',
                          lambda: 'first compilation of %r: %s' % (doc, reference[doc]))
                shutil.rmtree(disk.path('ref'))
            before = disk.text('doc' + ext)
            fault = arm(ctx, disk, ('doc' + ext, 'doc', 'doc.txt'))
            res, what, disturbed = attempt(ctx, disk, fault, fn)
            msg = 'compile_on_disk %s%s -> %s %s' % (K.show(doc, 40), ' [%s]' % fault if fault else '', what,
                                                     [e.message for e in res] if res is not None else '')
            ctx.case.append(msg)
            ctx.ev('call', msg)
            ctx.nontrivial = True
            after = disk.text('doc' + ext)
            want_msgs, want, failed = reference[doc]
            ctx.check(after == before or (after == want and not failed), 'partial', lambda: '%s: %s instead of %s' % (
                msg, K.show(after, 300), K.show(want, 300)))
            if what == 'ok':
                if not has_errors(res):
                    ctx.check(not failed and after == want, 'output', lambda: '%s: reports success, but the output is %s' % (
                        msg, K.show(after, 300)))
                elif not disturbed:
                    ctx.check(failed and [e.message for e in res] == want_msgs, 'report', lambda: '%s: instead of %s' % (
                        msg, want_msgs))
            else:
                ctx.check(disturbed, 'raised', msg)


REFLOW = {'.xml': ('<a><p>some words that need several lines of text</p></a>', '<a>\n<b>äöü</b><p>x</p>\n</a>',
                   '<doc><p>' + 'word ' * 400 + '</p></doc>'),
          '.sxml': ('(a (p "some words that need several lines of text"))', '(a (b "x") (p "äöü €"))'),
          '.sxpr': ('(a (p "some words that need several lines of text"))', '(a (b "x") (c "äöü €"))'),
          '.html': ('<html lang="de"><head><title>T</title></head><body><p>some words, several lines</p></body></html>',)}


def reflow(ctx):
    """the script XMLreflow.py: documents or directories"""
    import sys
    import DHParser.scripts.XMLreflow as X
    ch = ctx.ch
    disk = fs.FS(ctx)
    with disk:
        disk.step = 1.0
        disk.bufsize = ch.pick((16, 512, io.DEFAULT_BUFFER_SIZE))
        ctx.case = []
        docs = {}
        for d in ('in/', 'in/sub/', ''):
            for name in ch.shuffle(['one', 'two words', 'drei.ä'])[:ch.rint(1, 2)]:
                ext = ch.pick(sorted(REFLOW))
                docs[d + name + ext] = ch.pick(REFLOW[ext])
        for name, text in docs.items():
            disk.write(name, text)
        disk.write('in/notes.txt', 'not a document')
        former, cwd = sys.argv, os.getcwd()
        column = ch.pick((10, 30))
        reference = {}
        os.chdir(disk.root)
        try:
            for name, text in docs.items():
                ext = os.path.splitext(name)[1]
                disk.write('ref/doc' + ext, text)
                with contextlib.redirect_stdout(io.StringIO()):
                    X.process_file(disk.path('ref/doc' + ext), ['p'], column, disk.path('ref/result'), False)
                reference[name] = disk.text('ref/result')
                shutil.rmtree(disk.path('ref'))
            for _ in range(ch.rint(1, 3)):
                if ctx.violations:
                    return
                for f in disk.files():      # only the outputs outside of the directory are kept
                    if f.startswith('in') and f not in docs and f != 'in/notes.txt':
                        os.remove(disk.path(f))
                for n, text in docs.items():
                    if disk.text(n) != text:
                        disk.write(n, text)
                outs = {}       # output -> document
                kind = ch.pick(('dir', 'dir', 'files', 'out', 'self'))
                there = ch.pick((lambda p: p, disk.path, lambda p: './' + p))
                if kind == 'dir':
                    args = [there(ch.pick(('in', 'in/sub')))]
                    want = {os.path.join(os.path.dirname(n), 'XMLreflow', os.path.basename(n)): n
                            for n in docs if n.startswith(args[0][args[0].rindex('in'):] + '/')}
                    if args[0].endswith('sub'):
                        want = {k: v for k, v in want.items() if v.startswith('in/sub/')}
                elif kind == 'files':
                    names = ch.shuffle(sorted(docs))[:ch.rint(1, 3)]
                    args = [there(n) for n in names]
                    want = {'_reflow'.join(os.path.splitext(n)): n for n in names}
                else:
                    n = ch.pick(sorted(docs))
                    target = n if kind == 'self' else 'out' + os.path.splitext(n)[1]
                    args = [there(n), '-o', there(target)]
                    want = {target: n}
                outs.update(want)
                sys.argv = ['XMLreflow.py'] + args + ['--column', str(column)]
                fault = ch.pick(('', 'x', 'x'))
                if fault:
                    fault = arm(ctx, disk, ('XMLreflow', '_reflow', 'in', 'out'))
                if fault == 'cancel':
                    fault = ''

                def call():
                    try:
                        X.main()
                    except SystemExit as e:
                        if e.code:
                            raise OSError('exit code %s' % e.code)
                with contextlib.redirect_stderr(io.StringIO()):
                    res, what, disturbed = attempt(ctx, disk, fault, call, ('XMLreflow.py', 'toolkit.py'))
                msg = 'XMLreflow %s%s -> %s' % (args, ' [%s]' % fault if fault else '', what)
                ctx.case.append(msg)
                ctx.ev('call', msg)
                ctx.nontrivial = True
                for n, text in docs.items():
                    now = disk.text(n)
                    own = {text} | {reference[m] for o, m in outs.items() if o == n}
                    ctx.check(now in own, 'source', lambda: '%s: the document %s has been changed: %s' % (
                        msg, n, K.show(now, 200)))
                for o, n in want.items():
                    now = disk.text(o)
                    own = {None, docs.get(o)} | {reference[m] for m in docs if os.path.splitext(m)[1] ==
                                                os.path.splitext(o)[1]}
                    ctx.check(now in own, 'partial', lambda: '%s: incomplete output %s: %s' % (msg, o, K.show(now, 200)))
                    # (directories that cannot be listed are skipped)
                    skipped = kind == 'dir' and disturbed and fault in ('error', 'denied')
                    if what == 'ok':
                        ctx.check(now == reference[n] or skipped and now is None, 'output', lambda: '%s: %s is %s instead of %s' % (
                            msg, o, K.show(now, 200), K.show(reference[n], 200)))
                if what != 'ok':
                    ctx.check(disturbed, 'raised', msg)
        finally:
            sys.argv = former
            os.chdir(cwd)


SCENARIOS = [('histories', histories, 7), ('concurrent', concurrent, 2), ('suite', suite, 1),
             ('reflow', reflow, 1)]
