"""D08 - Includes are resolved completely or reported."""
import contextlib
import io
import os
import re

from dst import fs, kernel
from scenarios import corpus as K
from scenarios.c03_singletons import reset as reset_threads
from scenarios.parsing import Injector, stable_hashes

RULE = ('the preprocessed text is the text with every include replaced by the content of the file (or by nothing, if it has '
        'been included before and an include-once reader is used), every position maps to the same character of the right '
        'file, and errors of the parser are located there; missing, unreadable and circular includes raise an error that '
        'names them within a bounded number of disk operations; the next undisturbed attempt succeeds')
REAL = ['DHParser/preprocess.py', 'DHParser/pipeline.py: create_preprocess_junction', 'DHParser/compile.py: compile_source',
        'DHParser/ebnf.py: preprocessing of grammars', 'DHParser/dsl.py: create_parser', 'DHParser/error.py: source locations']
STUB = ['disk (scratch directory; errors, denied access, short reads, interrupts, files that change while they are read)',
        'thread scheduling']
ASSUMPTIONS = ['comments do not begin within include-statements']
PROBE_HASHSEED = '0'
RUNS = {'quick': 5000, 'thorough': 60000}

NAMES = ('a.txt', 'b.txt', 'sub/a.txt', 'sub/c.txt', 'sub/deep/d.txt', 'e f.txt', 'other/ö.txt')
STYLES = {'hash': (r'#include\((?P<name>[^)\n]*)\)', '#include(%s)'),
          'at': (r'@[ \t]*include[ \t]*=[ \t]*"(?P<name>[^"\n]*)"', '@ include = "%s"')}
COMMENT = r'//[^\n]*'
GRAMMAR = {}

EBNF = r'''@ whitespace = linefeed
@ comment = /\/\/[^\n]*/
@ drop = strings
doc = ~ { item } EOF
item = word [ number ] ","
word = /[a-zäöü]+/~
number = /[0-9]+/~
EOF = !/./
'''

GRAMMARS = ((r'''@ whitespace = horizontal
''', r'''@ drop = whitespace, strings
''', r'''doc = ~ { line } EOF
''', r'''line = word { "," word } EOL
''', '''word = /[a-z]+/~
''', r'''EOL = /\n/~
EOF = !/./
'''), (r'''@ literalws = right
@ disposable = factor, EOF
''', '''expr = term { ("+"|"-") term } EOF
''', '''term = factor { ("*"|"/") factor }
''', '''factor = number | group
group = "(" expr_ ")"
''', '''expr_ = term { ("+"|"-") term }
''', r'''number = /[0-9]+/~
EOF = !/./
'''))
GDOCS = (('a, b\nc\n', 'a', '', 'x,y,z\n', 'a b\n'), ('1 + 2 * 3', '(1-2)*7', '1 +', '((3))', '4 5'))


def warmup():
    stable_hashes()
    import DHParser.dsl as D
    import DHParser.pipeline        # noqa
    import bisect                   # noqa
    from DHParser.configuration import get_config_value
    get_config_value('log_dir')
    try:
        GRAMMAR['items'] = D.create_parser(EBNF)
        GRAMMAR['items']('a 1,')
        D.create_parser(''.join(GRAMMARS[0]))
    except Exception:
        pass


# reference model

class Circular(Exception):
    pass


class Missing(Exception):
    pass


def norm(name):
    return os.path.normpath(name)


def flatten(files, name, style, derive=lambda n: n, once=None, stack=()):
    """-> list of (character, file, position)"""
    name = norm(name)
    if name in stack:
        raise Circular(name)
    if once is not None and stack:
        if name in once:
            return []
        once.add(name)
    if name not in files:
        raise Missing(name)
    text = files[name]
    rx = re.compile(STYLES[style][0])
    comment = re.compile(COMMENT)
    out, i = [], 0
    while i < len(text):
        c = comment.match(text, i)
        m = rx.match(text, i)
        if c:
            out.extend((text[k], name, k) for k in range(i, c.end()))
            i = c.end()
        elif m:
            inner = os.path.join(os.path.dirname(name), derive(m.group('name')))
            out.extend(flatten(files, inner, style, derive, once, stack + (name,)))
            i = m.end()
        else:
            out.append((text[i], name, i))
            i += 1
    return out


def relative(ch, source, target):
    r = os.path.relpath(target, os.path.dirname(source) or '.')
    k = ch.rint(0, 9)
    if k == 0:
        r = './' + r
    elif k == 1:
        d = os.path.dirname(source)
        if d:
            r = os.path.join('..' if '/' not in d else '../..', target)
    elif k == 2:
        r = './././' + r
    return r


def ensemble(ch, style, ext=''):
    """-> {name: text}, main"""
    n = ch.rint(1, len(NAMES))
    names = list(NAMES[:n]) if ch.chance(50) else [ch.pick(NAMES)]
    while len(names) < max(n, 2):
        c = ch.pick(NAMES)
        if c not in names:
            names.append(c)
        else:
            break
    cyclic, missing = ch.chance(12), ch.chance(12)
    files = {}
    for i, name in enumerate(names):
        parts = []
        for _ in range(ch.rint(0 if i else 2, 6)):
            k = ch.weighted([(5, 'text'), (7, 'inc'), (2, 'nl'), (1, 'comment'), (1, 'cominc'), (1, 'bad')])
            later = names[i + 1:]
            if k == 'inc' and (later or cyclic or missing):
                if cyclic and ch.chance(40):
                    t = ch.pick(names)
                elif missing and ch.chance(40):
                    t = ch.pick(('sub/none.txt', 'missing.txt', 'sub'))
                elif later:
                    t = ch.pick(later)
                else:
                    continue
                r = relative(ch, name, t)
                if ext and r.endswith(ext):
                    r = r[:-len(ext)]
                parts.append(STYLES[style][1] % r)
            elif k == 'nl':
                parts.append('\n')
            elif k == 'comment':
                parts.append('// no, comment\n')
            elif k == 'cominc':
                parts.append('// ' + STYLES[style][1] % ch.pick(names) + (' rest\n' if ch.chance(80) else ''))
            elif k == 'bad':
                parts.append(ch.pick(('?', 'x y,', ',,', ' ')))
            else:
                parts.append(ch.pick(('alpha 1,', 'b,', 'ö 23, ', 'word' * 5 + ',', ' z 4,\n')))
        files[name] = ''.join(parts)
    return files, names[0]


@contextlib.contextmanager
def place(disk):
    cwd = os.getcwd()
    os.chdir(disk.root)
    try:
        yield
    finally:
        os.chdir(cwd)
        reset_threads()


def tokenizer(text):
    """marks all numbers as tokens (and reports them)"""
    from DHParser.preprocess import make_token
    from DHParser.error import Error
    return (re.sub('[0-9]+', lambda m: make_token('NUM', m.group(0)), text),
            [Error('number ' + m.group(0), m.start()) for m in re.finditer('[0-9]+', text)])


def plain_tokenizer(text):
    return text, []


def preprocessor(ch, style):
    """-> (function(text, name), derive, once, tokens)"""
    from DHParser.preprocess import preprocess_includes, gen_find_include_func, chain_preprocessors, make_preprocessor, \
        ReadIncludeOnce, nil_preprocessor
    from DHParser.pipeline import create_preprocess_junction
    from DHParser.preprocess import Tokenizer
    from functools import partial
    ext = '.txt' if ch.chance(30) else ''
    derive = (lambda n: n + ext) if ext else (lambda n: n)
    kind = ch.weighted([(3, 'plain'), (2, 'once'), (2, 'chain'), (3, 'junction')])
    tokens = False
    if kind == 'junction':
        tokens = ch.chance(50)
        func = create_preprocess_junction(tokenizer if tokens else plain_tokenizer, STYLES[style][0], COMMENT, derive,
                                          func_type=Tokenizer).factory()
    else:
        find = gen_find_include_func(STYLES[style][0], COMMENT, derive)
        if kind == 'once':
            func = partial(preprocess_includes, find_next_include=find, include_reader=ReadIncludeOnce)
        else:
            func = partial(preprocess_includes, find_next_include=find)
        if kind == 'chain':
            tokens = ch.chance(50)
            chain = [make_preprocessor(tokenizer) if tokens else nil_preprocessor]
            if ch.chance(30):
                chain.insert(0, make_preprocessor(plain_tokenizer))     # (tokens can be created only once)
            func = chain_preprocessors(func, *chain)
    return func, derive, ext, kind, tokens


def model(files, main, style, derive, once):
    try:
        return 'ok', flatten(files, main, style, derive, set() if once else None)
    except Circular as e:
        return 'circular', str(e)
    except Missing as e:
        return 'missing', str(e)
    except RecursionError:
        return 'circular', ''


def resolve(disk, name):
    return os.path.relpath(os.path.realpath(os.path.join(disk.root, name)), disk.root)


def check_result(ctx, disk, res, want, tokens, when, lenient=False):
    """compares text and mapping with the model"""
    from DHParser.preprocess import strip_tokens, BEGIN_TOKEN, TOKEN_DELIMITER, END_TOKEN
    text, mapping = res.preprocessed_text, res.back_mapping
    expected = ''.join(c for c, _, _ in want)
    got = strip_tokens(text) if tokens else text
    if not ctx.check(lenient or got == expected, 'text', lambda: '%s: %s instead of %s' % (when, K.show(got), K.show(expected))):
        return
    if tokens and not lenient:
        numbers = [(m.group(0), m.start()) for m in re.finditer('[0-9]+', expected)]
        reported = [(e.message[7:], resolve(disk, e.orig_doc), e.orig_pos) for e in res.errors]
        ctx.check(reported == [(n,) + want[p][1:] for n, p in numbers], 'errors', lambda: '%s: errors %s instead of %s' % (
            when, reported, [(n,) + want[p][1:] for n, p in numbers]))
    k = 0
    inside = False
    for i, c in enumerate(text):
        if tokens:
            if c == BEGIN_TOKEN:
                inside = True
                continue
            if c == TOKEN_DELIMITER:
                inside = False
                continue
            if c == END_TOKEN or inside:
                continue
        try:
            name, original, pos = mapping(i)
        except Exception as e:
            ctx.check(False, 'mapping', '%s: position %d of %d: %r' % (when, i, len(text), e))
            return
        original = str(original)
        ok = 0 <= pos < len(original) and original[pos] == c
        if ok and not lenient:
            _, f, p = want[k]
            ok = resolve(disk, name) == f and pos == p
        if not ctx.check(ok, 'mapping', lambda: '%s: position %d (%r) of %s is mapped to %s:%s %r instead of %s' % (
                when, i, c, K.show(text), name, pos, original[pos:pos + 1], want[k][1:] if k < len(want) else '')):
            return
        k += 1
    r = K.outcome(mapping, len(text))
    ctx.check(r[0] == 'ok' and 0 <= r[1].pos <= len(str(r[1].original_text)), 'mapping', lambda: '%s: end of text: %s' % (when, r))


def names_it(text, files, model_result):
    """does an error text name an include?"""
    kind, name = model_result
    cands = [os.path.basename(n) for n in list(files) + ['none.txt', 'missing.txt', 'sub']]
    if kind == 'missing':
        cands = [os.path.basename(name)]
    return any(c in text for c in cands)


class Budget:
    """no attempt needs more operations than that"""

    def __init__(self, disk, limit):
        self.disk, self.limit, self.start = disk, limit, disk.ops

    def __call__(self, op, path):
        if self.disk.ops - self.start > self.limit:
            raise TooMuch()


class TooMuch(BaseException):
    pass


def opens(files, main, style, derive):
    """upper bound for the number of files to be read"""
    count = [0]

    def visit(name, stack):
        count[0] += 1
        name = norm(name)
        if name in stack or name not in files or count[0] > 3000:
            return
        for m in re.finditer(STYLES[style][0], files[name]):
            visit(os.path.join(os.path.dirname(name), derive(m.group('name'))), stack + (name,))
    visit(main, ())
    return count[0]


def expand(ctx):
    """include maps"""
    ch = ctx.ch
    disk = fs.FS(ctx)
    with disk, place(disk):
        style = ch.pick(sorted(STYLES))
        func, derive, ext, kind, tokens = preprocessor(ch, style)
        files, main = ensemble(ch, style, ext)
        cut = opens(files, main, style, derive)
        if cut > 300:
            return
        for name, text in files.items():
            disk.write(name, text)
        os.makedirs(disk.path('sub'), exist_ok=True)
        want = model(files, main, style, derive, kind == 'once')
        name = main if ch.chance(60) else disk.path(main)
        given = ch.chance(50)

        def call():
            return func(files[main] if given or kind in ('chain', 'junction') else None, name)

        n = ch.rint(1, 3)
        strike = ch.rint(0, n)
        undecodable = None
        if ch.chance(10) and want[0] == 'ok':
            undecodable = ch.pick(sorted(files))
        for i in range(n + 1):
            fault = ''
            if i == strike and i < n:
                fault = ch.pick(('error', 'denied', 'interrupt', 'short', 'line', 'binary', 'error'))
            victim = None
            if fault in ('error', 'denied', 'interrupt'):
                disk.arm(fault, ch.pick((0, ch.rint(0, 3), ch.rint(0, 12))), ops=fs.READING, times=ch.pick((1, 1, 100)))
            elif fault == 'short':
                disk.short_io = 60
            elif fault == 'binary' and undecodable:
                victim = undecodable
                data = files[victim].encode('utf-8')
                k = ch.rint(0, len(data))
                disk.write(victim, data[:k] + b'\xff\xfe' + data[k:])
            before = sum(ctx.faults.values())
            disk.hook = Budget(disk, 60 + 40 * cut)
            inj = None
            try:
                if fault == 'line':
                    inj = Injector(ctx, ('preprocess.py',))
                    r = ('ok', inj.run(call, ch.rint(1, 150), KeyboardInterrupt('injected')))
                    if inj.hit:
                        r = ('swallowed', '', '')
                else:
                    r = ('ok', call())
            except TooMuch:
                r = ('loops', '', '')
            except RecursionError:
                r = ('loops', 'RecursionError', '')
            except Exception as e:
                r = ('raised', type(e).__name__, str(e))
            except KeyboardInterrupt:
                r = ('interrupted', '', '')
            disk.hook = None
            disk.disarm()
            disturbed = sum(ctx.faults.values()) > before or (inj is not None and inj.hit)
            if inj is not None and inj.hit:
                ctx.faults['line_interrupt'] += 1
            when = 'attempt %d%s' % (i, ' (%s)' % fault if fault else '')
            ctx.case = '%s %s %s %s' % (kind, want[0], fault, sorted(files))
            ctx.ev(when, r[0], r[1] if r[0] == 'raised' else '', kind, sorted(files.items()) if i == 0 else '')
            if victim:
                ctx.faults['undecodable'] += 1
                disk.write(victim, files[victim])
                if r[0] == 'raised':
                    ctx.check(r[1] == 'UnicodeDecodeError' and names_it(r[2], [victim], ('', '')), 'unnamed', lambda: '%s: %s does not name %s' % (
                        when, r, victim))
                else:
                    used = {f for _, f, _ in want[1]} | {main}
                    ctx.check(r[0] == 'ok' and (victim == main and given or victim not in used or kind in ('chain', 'junction') and victim == main),
                              'dropped', lambda: '%s: %s' % (when, r))
                continue
            if r[0] == 'interrupted':
                ctx.check(disturbed, 'raised', 'interrupt out of nowhere')
            elif disturbed and fault != 'short' and r[0] == 'raised':
                if r[1] in ('PermissionError', 'OSError'):
                    ctx.check(names_it(r[2], files, ('', '')), 'unnamed', lambda: '%s: %s names no file' % (when, r))
                else:
                    ctx.check(want[0] != 'ok', 'raised', lambda: '%s: %s' % (when, r))
            elif want[0] == 'ok':
                if ctx.check(r[0] == 'ok', 'raised', lambda: '%s: %s; files: %s' % (when, r, files)):
                    check_result(ctx, disk, r[1], want[1], tokens, when)
            else:
                ok = r[0] == 'raised' and r[1] in (('ValueError',) if want[0] == 'circular' else (
                    'FileNotFoundError', 'IsADirectoryError', 'PermissionError'))
                ctx.check(ok, 'unreported', lambda: '%s: %s include: %s; files: %s' % (when, want, r, files))
                if ok:
                    ctx.check(names_it(r[2], files, want), 'unnamed', lambda: '%s: %s include is not named: %s' % (when, want, r))
            if ctx.violations:
                break
        ctx.nontrivial = True


def changing(ctx):
    """files change while the document is being read"""
    ch = ctx.ch
    disk = fs.FS(ctx)
    with disk, place(disk):
        style = ch.pick(sorted(STYLES))
        func, derive, ext, kind, tokens = preprocessor(ch, style)
        files, main = ensemble(ch, style, ext)
        want = model(files, main, style, derive, kind == 'once')
        if want[0] != 'ok' or not 1 < opens(files, main, style, derive) <= 300:
            return
        for name, text in files.items():
            disk.write(name, text)
        victim = ch.pick(sorted(files))
        new = files[victim].replace('alpha', 'a').replace('b,', 'bbbb 22,\n').replace('word', 'wort')
        cut = opens(files, main, style, derive)
        at = disk.ops + ch.rint(0, 4 * min(cut, 12))

        def change(op, path):
            if disk.ops >= at:
                disk.hook = None
                ctx.faults['changed'] += 1
                tmp = disk.path('tmp')
                with fs.REAL_OPEN(tmp, 'w', encoding='utf-8') as f:
                    f.write(new)
                fs.REAL['replace'](tmp, disk.path(victim))
        disk.hook = change
        given = ch.chance(50) or kind in ('chain', 'junction')
        try:
            r = ('ok', func(files[main] if given else None, main))
        except Exception as e:
            r = ('raised', type(e).__name__, str(e))
        disk.hook = None
        ctx.case = '%s %s' % (kind, victim)
        ctx.ev(kind, victim, at, sorted(files.items()))
        ctx.nontrivial = ctx.faults['changed'] > 0
        if not ctx.check(r[0] == 'ok', 'raised', lambda: str(r)):
            return
        check_result(ctx, disk, r[1], [('', '', 0)] * 100000, tokens, 'changing', lenient=True)
        from DHParser.preprocess import strip_tokens
        text = strip_tokens(r[1].preprocessed_text) if tokens else r[1].preprocessed_text
        canon = lambda t: t.replace('alpha', 'a').replace('bbbb 22,\n', 'b,').replace('word', 'wort')
        ctx.check(canon(text) == canon(''.join(c for c, _, _ in want[1])), 'text', lambda: 'changing: %s instead of %s' % (
            K.show(text), K.show(''.join(c for c, _, _ in want[1]))))


def errors_of(errors):
    return sorted((e.pos, int(e.code), e.message) for e in errors)


def line_col(text, pos):
    before = text[:pos]
    return before.count('\n') + 1, pos - before.rfind('\n')


def compiling(ctx):
    """errors are located in the files where they occur"""
    from DHParser.compile import compile_source
    from DHParser.pipeline import create_preprocess_junction
    from DHParser.preprocess import Tokenizer
    ch = ctx.ch
    parser = GRAMMAR.get('items')
    if parser is None:
        return
    disk = fs.FS(ctx)
    with disk, place(disk):
        style = ch.pick(sorted(STYLES))
        files, main = ensemble(ch, style)
        if opens(files, main, style, lambda n: n) > 300:
            return
        for name, text in files.items():
            disk.write(name, text)
        os.makedirs(disk.path('sub'), exist_ok=True)
        want = model(files, main, style, lambda n: n, False)
        prep = create_preprocess_junction(plain_tokenizer, STYLES[style][0], COMMENT, lambda n: n, func_type=Tokenizer)
        n = ch.rint(1, 2)
        for i in range(n + 1):
            fault = '' if i == n else ch.pick(('', 'error', 'denied', 'short'))
            if fault in ('error', 'denied'):
                disk.arm(fault, ch.rint(0, 8), ops=fs.READING, times=ch.pick((1, 100)))
            elif fault:
                disk.short_io = 60
            before = sum(ctx.faults.values())
            disk.hook = Budget(disk, 20000)
            try:
                r = K.outcome(lambda: compile_source(main, prep.factory(), parser))
            except TooMuch:
                r = ('loops', '', '')
            disk.hook = None
            disk.disarm()
            disturbed = fault != 'short' and sum(ctx.faults.values()) > before
            when = 'attempt %d%s' % (i, ' (%s)' % fault if fault else '')
            ctx.ev(when, r[0], sorted(files.items()) if i == 0 else '')
            ctx.case = '%s %s %s' % (want[0], fault, sorted(files))
            if r[0] == 'raised':
                ctx.check((disturbed or want[0] != 'ok') and r[1] != 'RecursionError', 'raised', lambda: '%s: %s %s' % (when, want[0], r))
                ctx.check(names_it(r[2], files, want if not disturbed else ('', '')), 'unnamed', lambda: '%s: %s' % (when, r))
                continue
            if not ctx.check(r[0] == 'ok', 'loops', when):
                break
            result, errors, _ = r[1]
            if result is None:
                ctx.check((disturbed or want[0] != 'ok' or any(e.code >= 10000 for e in errors)) and errors, 'no_result', lambda: '%s: %s' % (when, errors))
                if disturbed or want[0] != 'ok':
                    ctx.check(any(names_it(e.message, files, ('', '')) for e in errors), 'unnamed', lambda: '%s: %s' % (when, errors))
                    continue
            if not ctx.check(want[0] == 'ok', 'dropped', lambda: '%s: %s, but %s' % (when, want, K.show(str(result)))):
                break
            flat = ''.join(c for c, _, _ in want[1])
            plain, perrors, _ = compile_source('\ufeff' + flat, None, parser)
            ctx.check(K.dump(result) == K.dump(plain) if result is not None and plain is not None else result is plain,
                      'tree', lambda: '%s: %s' % (when, K.show(flat)))
            ctx.check(errors_of(errors) == errors_of(perrors), 'errors', lambda: '%s: %s instead of %s' % (when, errors, perrors))
            for e in errors:
                if e.pos < len(want[1]):
                    _, f, p = want[1][e.pos]
                    ctx.check(resolve(disk, e.orig_doc) == f and e.orig_pos == p and (e.line, e.column) == line_col(files[f], p),
                              'location', lambda: '%s: error at %d is located at %s:%s (%s:%s) instead of %s:%s (%s)' % (
                                  when, e.pos, e.orig_doc, e.orig_pos, e.line, e.column, f, p, line_col(files[f], p)))
                else:
                    ctx.check(e.orig_doc and e.line >= 1, 'location', lambda: '%s: error at the end: %s' % (when, e))
            if ctx.violations:
                break
        ctx.nontrivial = True


def grammars(ctx):
    """grammars that include parts of themselves"""
    import DHParser.dsl as D
    ch = ctx.ch
    disk = fs.FS(ctx)
    with disk, place(disk), contextlib.redirect_stdout(io.StringIO()):
        k = ch.rint(0, len(GRAMMARS) - 1)
        parts = list(GRAMMARS[k])
        broken = ch.chance(25)
        bad = ch.rint(1, len(parts) - 1)
        if broken:
            parts[bad] = parts[bad].replace('=', '= (', 1) + '\n'
        # distribute the parts over files
        files, main = {'main.ebnf': ''}, 'main.ebnf'
        origin = {}
        for i, p in enumerate(parts):
            where = ch.pick(('main', 'own', 'nested')) if i else 'main'
            if where == 'main':
                files['main.ebnf'] += p
                origin[i] = 'main.ebnf'
            elif where == 'own':
                files['p%d.ebnf' % i] = p
                files['main.ebnf'] += '@ include = "p%d.ebnf"\n' % i
                origin[i] = 'p%d.ebnf' % i
            else:
                files['sub/q%d.ebnf' % i] = '@include = "../p%d.ebnf"\n' % i
                files['p%d.ebnf' % i] = p
                files['main.ebnf'] += '@ include = "sub/q%d.ebnf"\n' % i
                origin[i] = 'p%d.ebnf' % i
        for name, text in files.items():
            disk.write(name, text)
        flat = ''.join(c for c, _, _ in flatten(files, main, 'at'))
        plain = K.outcome(D.create_parser, flat)
        disturb = ch.pick(('', 'error', 'denied', 'missing', 'line', 'short'))
        ctx.case = '%d %s %s' % (k, sorted(files), disturb)
        for i in range(2):
            gone = None
            if i == 0:
                if disturb in ('error', 'denied'):
                    disk.arm(disturb, ch.rint(0, 12), ops=fs.READING, times=ch.pick((1, 100)))
                elif disturb == 'short':
                    disk.short_io = 50
                elif disturb == 'missing' and len(files) > 1:
                    gone = ch.pick(sorted(set(files) - {main}))
                    fs.REAL['remove'](disk.path(gone))
                    ctx.faults['missing'] += 1
            before = sum(ctx.faults.values())
            inj = None
            try:
                if i == 0 and disturb == 'line':
                    inj = Injector(ctx, ('preprocess.py', 'dsl.py'))
                    r = ('ok', inj.run(lambda: D.create_parser(main), ch.rint(1, 300), KeyboardInterrupt('injected')))
                else:
                    r = ('ok', D.create_parser(main))
            except Exception as e:
                r = ('raised', type(e).__name__, str(e))
            except KeyboardInterrupt:
                ctx.faults['line_interrupt'] += 1
                r = ('interrupted',)
            disturbed = sum(ctx.faults.values()) > before and disturb != 'short' or gone or inj is not None and inj.hit
            disk.disarm()
            if gone:
                disk.write(gone, files[gone])
            when = 'attempt %d%s' % (i, ' (%s)' % disturb if i == 0 else '')
            ctx.ev(when, r[0])
            if disturbed:
                if r[0] == 'raised':
                    t = os.path.basename(gone) if gone else '.ebnf'
                    ctx.check(t in r[2], 'unnamed', lambda: '%s: %s %s' % (when, t, r))
                    continue
                if r[0] == 'interrupted':
                    continue
                ctx.check(not gone, 'dropped', lambda: '%s: %s was missing, but %s' % (when, gone, r))
            if plain[0] != 'ok':
                ctx.check(r[0] == 'raised' and r[1] == plain[1], 'error', lambda: '%s: %s instead of %s' % (when, r, plain))
                ctx.check(not broken or origin[bad] in r[2] or (bad + 1 < len(parts) and origin[bad + 1] in r[2]), 'location', lambda: '%s: %s is not located in %s: %s' % (
                    when, K.show(parts[bad]), origin[bad], r[2]))
                continue
            if not ctx.check(r[0] == 'ok', 'error', lambda: '%s: %s; %s' % (when, r, files)):
                break
            for d in GDOCS[k]:
                a, b = K.outcome(lambda: K.dump(plain[1](d))), K.outcome(lambda: K.dump(r[1](d)))
                ctx.check(a == b, 'parser', lambda: '%s: %r: %s' % (when, d, K.diff(b, a)))
        ctx.nontrivial = True


SCENARIOS = [('expand', expand, 5), ('changing', changing, 2), ('compiling', compiling, 3), ('grammars', grammars, 2)]
