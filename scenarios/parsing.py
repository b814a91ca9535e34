"""Histories of parses on one and the same grammar object (shared by P01 and P02)."""
import sys

from dst import kernel
from scenarios import corpus as K


class Injector:
    """Counts the lines of DHParser that are executed and raises an exception at one of them."""

    def __init__(self, ctx, files=None):
        self.ctx, self.files = ctx, files
        self.lines = 0
        self.at = self.exc = None
        self.hit = False
        self.hook = None

    def handler(self):
        self.lines += 1
        if self.hook is not None:
            self.hook(self)
        if self.lines == self.at:
            self.hit = True
            raise self.exc

    def run(self, fn, at=None, exc=None):
        """calls fn(), raises exc at the line with the number `at`"""
        self.lines, self.at, self.exc, self.hit = 0, at, exc, False
        kernel.instrument(files=self.files, handler=self.handler)
        try:
            return fn()
        finally:
            kernel.uninstrument()


class Stop(BaseException):
    """an exception unknown to DHParser (e.g. raised by a signal handler)"""


EXCEPTIONS = (KeyboardInterrupt, MemoryError, Stop, RecursionError, SystemExit, ValueError)


def mutate(ch, doc, others):
    """-> document with a few random changes"""
    for _ in range(ch.rint(1, 3)):
        n = len(doc)
        k = ch.draw(5)
        a = ch.draw(n + 1)
        b = min(n, a + ch.rint(1, 4))
        if k == 0:
            doc = doc[:a] + doc[b:]
        elif k == 1:
            doc = doc[:a] + doc[a:b] * 2 + doc[b:]
        elif k == 2:
            o = ch.pick(others)
            c = ch.draw(len(o) + 1)
            doc = doc[:a] + o[c:c + ch.rint(1, 8)] + doc[a:]
        elif k == 3:
            doc = doc[:a] + ch.pick(' \n#"<([,;x1.') + doc[a:]
        else:
            doc = doc + ch.pick(others)
    return doc[:400]


class Subject:
    """One grammar of the corpus with its documents and reference outcomes."""

    def __init__(self, ctx, name, tune=True):
        ch = ctx.ch
        self.ctx, self.name = ctx, name
        self.cls = K.grammar_class(name)
        self.starts = K.starts(name)
        docs = K.documents(name)
        self.docs = [ch.pick(docs) if ch.chance(60) else mutate(ch, ch.pick(docs), docs)
                     for _ in range(ch.rint(2, 5))]
        self.dropouts = ch.pick((1, 1, 2, 3)) if tune else 1
        self.left_recursion = not (tune and name not in ('arith', 'refs') and ch.chance(10))
        self.refs = {}

    def grammar(self, fresh_class=False):
        cls = K.grammar_class(self.name) if fresh_class else self.cls
        gr = cls()
        gr.max_parser_dropouts__ = self.dropouts
        gr.left_recursion__ = self.left_recursion
        return gr

    def case(self):
        """-> (document, start parser, complete_match)"""
        ch = self.ctx.ch
        return (ch.pick(self.docs), ch.pick(self.starts) if ch.chance(50) else 'root_parser__',
                ch.pick(('WSP_RE__', True, False)))

    def ref(self, case, tracing=False):
        """-> what a fresh grammar object yields"""
        key = case, tracing
        if key not in self.refs:
            gr = self.grammar(fresh_class=True)
            if tracing:
                from DHParser.trace import resume_notices_on
                resume_notices_on(gr)
            self.refs[key] = self.parse(gr, case, tracing)
        return self.refs[key]

    def parse(self, gr, case, tracing=False, keep=None):
        doc, start, complete = case

        def call():
            tree = gr(doc, start, complete_match=complete)
            if keep is not None:
                keep.append((case, tree, K.dump_tree(tree)))
            res = K.dump_tree(tree)
            if tracing:
                res += (tuple((tuple(h.call_stack), h.status, h.excerpt, h.line_col) for h in gr.history__),)
            return res
        return K.outcome(call)


def compare(ctx, subject, gr, case, what, kind='differs', tracing=False, keep=None):
    got = subject.parse(gr, case, tracing, keep)
    want = subject.ref(case, tracing)
    if got != want:
        ctx.violate(kind, '%s: %s with %r at %r (complete_match=%s): %s' % (
            what, subject.name, case[0], case[1], case[2], K.diff(got, want)))
        return False
    return True


class Query:
    """cancel-query that returns True from the n-th poll on (or at the n-th poll only)"""

    def __init__(self, n, sticky=True, fail=None):
        self.n, self.sticky, self.fail = n, sticky, fail
        self.polls = self.granted = 0

    def __call__(self):
        self.polls += 1
        if self.fail is not None and self.polls == self.n:
            raise self.fail
        if self.n and (self.polls == self.n or (self.sticky and self.polls > self.n)):
            self.granted += 1
            return True
        return False


def spoil(tree):
    """the consumer changes the tree in place"""
    from DHParser.nodetree import FrozenNode
    for i, nd in enumerate(list(tree.select_if(lambda n: True, include_root=True))):
        if isinstance(nd, FrozenNode):
            return 'frozen'
        nd.name = 'X%d' % i
        nd.attr['x'] = str(i)
        if not nd.children:
            nd.result = 'spoiled'
        else:
            nd.result = tuple(reversed(nd.children))[1:] or 'spoiled'
    tree.new_error(tree, 'spoiled')


def stable_hashes():
    """Hash values of parser-objects are drawn from a counter, so that the order of sets of parsers
    (in which parsers are reset, for example) and thus the number of lines that have been executed at
    any moment do not depend on addresses.  (Used where preemption is decided by counting lines.)"""
    import itertools
    import DHParser.parse as P
    counter = itertools.count(1)

    def __hash__(self):
        try:
            return self.__dict__['_dst_hash']
        except KeyError:
            self.__dict__['_dst_hash'] = h = next(counter) * 7919
            return h
    P.Parser.__hash__ = __hash__
