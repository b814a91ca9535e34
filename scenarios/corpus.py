"""Grammars, documents and processing stages shared by the parsing-related scenarios
(C04, P01, P02, P03, P05, P06, D06).

The grammars exercise the features that keep state inside parser objects: memoization, left
recursion (Forward and Ref), Capture/Retrieve/Pop with rollback, mandatory items with skip-,
resume- and error-rules, lookahead, lookbehind, interleave, custom parsers, dropped and disposable
nodes. They are written in EBNF and compiled by DHParser itself when the scenario module is
warmed up.
"""

ARITH = r'''
@ literalws = right
@ drop = whitespace, strings
@ disposable = group
expr   = (expr (PLUS | MINUS) term) | term
term   = (term (`*` ~ | `/` ~) factor) | factor
factor = [sign] (NUMBER | VARIABLE | group)
sign   = `-`
group  = "(" §expr ")"
PLUS = "+"
MINUS = "-"
NUMBER   = /\d+(?:\.\d+)?/~
VARIABLE = /[a-z]\w*/~
'''

XML = r'''
@ disposable = node
@ drop = whitespace
document = ~ element §EOF
node     = element | text
element  = STag { node } §ETag
STag     = `<` TagName ~ { attr } §`>`
ETag     = `</` §::TagName `>`
attr     = NAME `=` `"` §VALUE `"` ~
TagName  = /\w+/
NAME     = /\w+/
VALUE    = /[^"]*/
text     = /[^<]+/
EOF      = !/./
'''

RESUME = r'''
@ literalws = right
@ alpha_resume = ALPHA_RESUME
@ beta_resume = GAMMA_RE
@ bac_resume = /(?=GA\w+)/
document = alpha [beta] gamma "."
alpha = "ALPHA" abc
    abc = §"a" "b" "c"
beta = "BETA" (bac | bca)
    bac = "b" "a" §"c"
    bca = "b" "c" §"a"
gamma = "GAMMA" §(cab | cba)
    cab = "c" "a" §"b"
    cba = "c" "b" §"a"
GAMMA_RE = /(?=GA\w+)/
ALPHA_RESUME = { !`BETA` !`GAMMA` /./ }
'''

LIST = r'''
@ literalws   = right
@ disposable  = /_\w+/
@ drop        = _EOF, whitespace, strings
_document = ~ [ list ] §_EOF
@ list_skip = ({ list | /[^\[\],]+/ })
list     = "[" [_items] § "]"
@ _items_skip = /(?=,)/, /(?=])/, /$/
@ _items_error = /(?<=,)\s*\]/, "dangling comma"
@ _items_error = /\w/, "unexpected {0} where {1} was expected"
_items   = _item { "," §_item }
_item    = number | name | list
number   = `0` | /[1-9][0-9]*/~
name     = /[a-z]+/~
_EOF     =  !/./
'''

INDENT = r'''
@ whitespace = /[ \t]*/
@ disposable = EOF, LF, SAME_INDENT
@ drop       = strings, whitespace, EOF, LF, SAME_INDENT
tree     = INDENT node DEDENT /\s*/ EOF
node     = name [content]
content  = string | children
children = &(LF HAS_DEEPER_INDENT)
           LF INDENT § node { LF SAME_INDENT § node }
           !(LF HAS_DEEPER_INDENT) DEDENT
name = /\w+/~
string   = '"' § /(?:\\"|[^"\\\n])*/ '"' ~
INDENT            = / */
SAME_INDENT       = :INDENT § !/ /
HAS_DEEPER_INDENT = :INDENT / +/
DEDENT            = &:?INDENT
LF       = /\n/
EOF      = !/./
'''

MIXED = r'''
@ whitespace = /\s*/
@ comment = /#[^\n]*/
@ literalws = right
@ disposable = item, EOF
@ drop = whitespace, strings, EOF
doc      = ~ { item } EOF
item     = record | quote | guarded | heading
record   = "rec" (ident ° value ° [flag]) §";"
ident    = "id" NAME
value    = "=" NUM
flag     = `!`~
quote    = delim { !:delim /./ } §::delim ~
delim    = /["']+/
guarded  = "on" &NAME NAME <-& ENDX §"."
ENDX     = / *x/
heading  = "h" !NAME NUM { "," NUM }+ 
NAME     = /[a-z]+/~
NUM      = /\d+/~
EOF      = !/./
'''

BRACKETS = r'''
@ reduction = merge
@ disposable = inner
@ open_filter = matching_bracket()
doc    = { inner | other }+
inner  = open { inner | other } §close
open   = /[\[({<]/
close  = ::open
other  = /[a-z .]/
'''

# (name, EBNF, start parsers, documents)
GRAMMARS = {
    'arith': (ARITH, ['expr', 'term', 'factor', 'group', 'NUMBER'], [
        '1 + 2 * (3 - 4) / x', '1', '', '2 *', '1 - 1 - 1 - 1', '(1 + 2', '((a) * (b)) / -2.5',
        'a + * b', '3 * 4 * 5', '(7', ' 1', '-x', '1 +\n2\n', '((((1))))', '* 7', '(1 + )2']),
    'xml': (XML, ['document', 'element', 'STag', 'node', 'attr', 'ETag'], [
        '<a>x</a>', '<a><b>1</b><b k="v">2</b></a>', '<a><b>x</a>', '<a>', '', '<a></a>x',
        '<a><a><a>deep</a></a></a>', '<a x="1" y="2">t</a>', '<a x=1></a>', '<a><b></b>',
        'text', '<t>one</t><t>two</t>', '</a>', '<a>x</b></a>', 'k="v" ', '<a k="v></a>']),
    'resume': (RESUME, ['document', 'alpha', 'beta', 'gamma', 'bac'], [
        'ALPHA abc BETA bad GAMMA cab .', 'ALPHA acb BETA bad GAMMA cab .', 'ALPHA acb GAMMA cab .',
        'ALPHA abc GAMMA cab .', 'ALPHA', '', 'ALPHA abc BETA bca GAMMA cbb .', 'BETA bac',
        'ALPHA axx', 'ALPHA abc BETA bac GAMMA cba .', 'GAMMA ca', 'ALPHA acb BETA xyz GAMMA']),
    'list': (LIST, ['_document', 'list', '_items', '_item', 'number'], [
        '[1, 2, 3]', '[1, A, [5, 6; [7, 8], 9]]', '[]', '', '[1, [2, [3, [4]]]]', '[1,, 2]',
        '[1, 2', '[1, 2,]', '[A, B, C]', '0', '[0, 01, 2]', '[[[', ']', '[1 2] 3', '[a, b, [c, D], 7]']),
    'indent': (INDENT, ['tree', 'node', 'content', 'string'], [
        'node "x"', 'a\n  b\n  c "y"', 'a\n  b\n    c\n    d\n  e', 'a\n  b\n c', '', 'a "unclosed',
        'a\n  b "1"\n  c "2"\n', '"s"', 'a\n   b\n  c\n', 'x\n y\n  z\n   w']),
    'mixed': (MIXED, ['doc', 'item', 'record', 'quote', 'heading', 'guarded'], [
        'rec id abc = 1 ! ;', 'rec = 1 id abc;', 'rec id a;', "'quoted' \"\"other\"\"", 'h 1, 2, 3',
        'on x . on ax .', '', '# comment\nrec ! = 2 id b ; # end\n', "'open", 'rec id a = 1 ! h 1,2',
        'h a', 'on y .', "''a'b'' 'c'", 'rec ! id q = 3;h 1,1', '"a\'b"']),
    'brackets': (BRACKETS, ['doc', 'inner', 'other', 'open'], [
        '[a]', '({[<a>]})', '[a)', 'a b c', '', '[', 'a.(b)', '((a)(b))', '[a(b]c)', '<[>]', ']', '(a b']),
}

OPTIMIZED = '@ optimizations = all\n' + MIXED
GRAMMARS['optimized'] = (OPTIMIZED,) + GRAMMARS['mixed'][1:]

REFS = r'''
from DHParser.parse import Ref, Custom


class RefsGrammar(Grammar):
    """Late bound references, left recursion, custom parser functions, lookbehind."""
    source_hash__ = "refs"
    disposable__ = re.compile(r'_\w+')
    static_analysis_pending__ = []
    parser_initialization__ = ["upon instantiation"]
    COMMENT__ = r''
    WHITESPACE__ = r'\s*'
    WSP_RE__ = mixin_comment(whitespace=WHITESPACE__, comment=COMMENT__)
    wsp__ = Whitespace(WSP_RE__)
    dwsp__ = Drop(Whitespace(WSP_RE__))
    expr = Forward()
    tag = Capture(RegExp('[a-z]+'))
    document = Series(dwsp__, ZeroOrMore(Alternative(Ref('scope'), expr)), NegativeLookahead(AnyChar()))
    scope = Series(tag, Drop(Text(":")), dwsp__, OneOrMore(Alternative(expr, Ref('inner'))), Pop(tag),
                   dwsp__, mandatory=4)
    inner = Series(Text("<"), dwsp__, Ref('number'), Text(">"), dwsp__, mandatory=2)
    product = Alternative(Series(Ref('_value'), Text("*"), dwsp__, Ref('_value')), Ref('_value'))
    expr.set(Alternative(Series(expr, Text("+"), dwsp__, product), product))
    number = Series(RegExp(r'\d+'), dwsp__)
    hexnum = Series(Drop(Text("#")), Custom(parse_hex), dwsp__, mandatory=1)
    paren = Series(Text("("), dwsp__, expr, Text(")"), dwsp__, mandatory=2)
    _value = Alternative(hexnum, number, paren)
    root__ = document
'''
GRAMMARS['refs'] = (REFS, ['document', 'expr', 'scope', 'paren', 'hexnum', 'inner'], [
    '1 + 2 * 3', '(1 + 2) * #ff', 'a: 1 + 2 a', 'a: <b a', '#xyz', '(1 + 2', '', 'a: 1 b', '1 + ',
    '#12*#12 * 3 + (4)', 'a: <1> <2> a', '1 * * 2', 'ab: 1 + 1 ab 2', ')'])


def parse_hex(rest):
    """custom parser function"""
    from DHParser.nodetree import Node
    i = 0
    while i < 4 and rest[i:i + 1] and str(rest[i:i + 1]) in '0123456789abcdef':
        i += 1
    if rest[:2] == 'ee':
        raise ValueError('ee')
    return Node('digits', rest[:i]) if i else None


_CODE = {}
_SRC = {}


def load(names=None):
    """Compiles the grammars (once per process)."""
    from DHParser.ebnf import compile_ebnf, DHPARSER_IMPORTS
    from DHParser.error import has_errors
    for name in names or GRAMMARS:
        if name in _CODE:
            continue
        text = GRAMMARS[name][0]
        if 'class ' in text:
            src = text
        else:
            src, errors, _ = compile_ebnf(text, name.capitalize())
            assert not has_errors(errors), (name, errors)
        _SRC[name] = src
        _CODE[name] = compile(DHPARSER_IMPORTS + src, '<corpus %s>' % name, 'exec')


def grammar_class(name):
    """-> a brand-new grammar class"""
    env = {'__name__': 'corpus_' + name, 'parse_hex': parse_hex}
    exec(_CODE[name], env)
    return env[name.capitalize() + 'Grammar' if name != 'refs' else 'RefsGrammar']


def documents(name):
    return GRAMMARS[name][2]


def starts(name):
    return GRAMMARS[name][1]


# ---- outcomes -------------------------------------------------------------------------------

def dump(tree):
    """-> plain, comparable representation of a node-tree"""
    from DHParser.nodetree import Node
    if not isinstance(tree, Node):
        return tree if isinstance(tree, (str, int, float, bool, type(None))) else repr(tree)
    out = []
    todo = [tree]
    while todo:
        nd = todo.pop()
        if nd == '<':
            out.append(nd)
            continue
        attr = tuple(nd.attr.items()) if nd.has_attr() else ()
        if nd.children:
            out.append((nd.name, nd._pos, attr))
            todo.append('<')
            todo.extend(reversed(nd.children))
        else:
            out.append((nd.name, nd._pos, attr, str(nd.content)))
    return tuple(out)


def dump_errors(errors):
    return tuple((e.pos, int(e.code), e.message, e.line, e.column) for e in errors)


def dump_tree(tree):
    """tree, errors and stage of a RootNode"""
    return dump(tree), dump_errors(tree.errors), tree.stage, str(tree.source)


def outcome(fn, *args, **kwargs):
    """-> ('ok', result) or ('raised', type, text)"""
    try:
        return ('ok', fn(*args, **kwargs))
    except Exception as e:
        return ('raised', type(e).__name__, str(e)[:300])


def parse_outcome(grammar, doc, start, complete='WSP_RE__'):
    return outcome(lambda: dump_tree(grammar(doc, start, complete_match=complete)))


def show(x, n=700):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def diff(a, b):
    """-> short description of the first difference of two outcomes"""
    if a[0] != b[0] or a[0] == 'raised' or not isinstance(a[1], tuple):
        return '%s instead of %s' % (show(a), show(b))
    for what, x, y in zip(('tree', 'errors', 'stage', 'source', 'history'), a[1], b[1]):
        if x != y:
            if isinstance(x, tuple) and isinstance(y, tuple):
                i = 0
                while i < min(len(x), len(y)) and x[i] == y[i]:
                    i += 1
                return '%s differ at item %d: %s instead of %s' % (what, i, show(x[i:i + 3], 400), show(y[i:i + 3], 400))
            return '%s: %s instead of %s' % (what, show(x), show(y))
    return '%s instead of %s' % (show(a), show(b))


# ---- transformations and compilers ------------------------------------------------------------

def table(name):
    """-> a new transformation table for the trees of a grammar"""
    import DHParser.transform as T
    from DHParser.error import WARNING
    t = {'<': T.flatten, '~': T.remove_content(r'\s+'),
         '*': T.replace_by_single_child}
    if name == 'arith':
        t.update({'expr, term': [T.replace_by_single_child, T.flatten],
                  'factor': T.replace_by_single_child, 'group': [T.remove_tokens('(', ')'), T.replace_by_single_child],
                  'NUMBER, VARIABLE': [T.reduce_single_child, T.remove_whitespace],
                  'PLUS, MINUS': [], '>': [T.add_error('one', WARNING) if False else T.remove_anonymous_empty]})
    elif name == 'xml':
        t.update({'<': [T.BLOCK_ANONYMOUS_LEAVES, T.remove_empty],
                  'STag, ETag': [T.keep_children_if(T.is_named) if False else T.keep_nodes('TagName', 'attr', 'ZOMBIE__')],
                  'attr': [T.keep_nodes('NAME', 'VALUE')],
                  'text': [T.BLOCK_CHILDREN, T.normalize_whitespace], 'TagName': T.change_name('Tag'),
                  'element': [T.apply_if(T.add_attributes({'empty': 'yes'}), T.neg(T.has_descendant({'text'})))],
                  'EOF': T.remove_if(T.is_empty) if False else T.change_name('End')})
    elif name == 'list':
        t.update({'list': [T.flatten, T.apply_if(T.add_attributes({'long': '1'}),
                                                 lambda p: len(p[-1].children) > 2)],
                  'number': [T.BLOCK_LEAVES, T.reduce_single_child],
                  'name': [T.add_error('names are discouraged', WARNING)]})
    elif name in ('mixed', 'optimized'):
        t.update({'quote': [T.BLOCK_LEAVES, T.merge_adjacent(T.is_anonymous, 'chars')],
                  'record': [T.flatten], 'ident, value': T.reduce_single_child,
                  '*': [T.BLOCK_CHILDREN, T.replace_by_single_child]})
    elif name == 'brackets':
        t.update({'doc': [T.merge_adjacent(T.is_one_of({'other'}), 'text')], 'open, close': T.update_attr({'b': 'y'}, [])
                  if False else T.add_attributes({'b': 'y'})})
    else:
        t.update({':Text': T.change_name('token'), 'name': [T.BLOCK_LEAVES, T.replace_content_with('n')]})
    return t


class Trouble(ValueError):
    """raised by a compiler on certain documents"""


def compilers():
    """-> compiler classes: one that yields text, one that rewrites the tree"""
    from DHParser.compile import Compiler
    from DHParser.nodetree import Node
    from DHParser.error import WARNING, ERROR

    class Outline(Compiler):
        """renders the tree; raises Trouble at leaves with the content 'x'"""
        trouble = 'x'

        def reset(self):
            super().reset()
            self.symbols = {}
            self.depth = 0
            self.log = []

        def prepare(self, root):
            self.log.append('<%s>' % root.name)

        def finalize(self, result):
            super().finalize(result)
            return '%s | %s | %s' % (result, ','.join(self.log), sorted(self.symbols.items()))

        def note(self, what):
            self.log.append(what)

        def wildcard(self, node):
            self.symbols[node.name] = self.symbols.get(node.name, 0) + 1
            if self.symbols[node.name] % 3 == 0:
                self.finalizers.append((self.note, (node.name,)))
            if node.children:
                self.depth += 1
                s = '%s[%s]' % (node.name, ' '.join(self.compile(c) for c in node.children))
                self.depth -= 1
                return s
            if node.content == self.trouble:
                raise Trouble(node.content)
            if node.content == '2':
                self.tree.new_error(node, 'two at level %d, path %s' % (
                    self.depth, '/'.join(nd.name for nd in self.path)), WARNING)
            return '%s%d' % (node.content, self.depth)

        def on_VALUE(self, node):
            return self.wildcard(node) + '!'

        def on_number(self, node):
            if node.content == '0':
                self.tree.new_error(node, 'zero', ERROR)
            return self.wildcard(node)

    class Rewriter(Compiler):
        """changes the tree in place: drops, renames and replaces nodes"""

        def __init__(self):
            super().__init__()
            self.forbid_returning_None = False

        def reset(self):
            super().reset()
            self.count = 0

        def on_term(self, node):
            self.count += 1
            node = self.fallback_compiler(node)
            return Node('T%d' % self.count, node._result).with_attr(n=self.count) if node.pos % 2 else node

        def on_NUMBER(self, node):
            self.count += 1
            return None if node.content.strip() == '7' else node

        def on_text(self, node):
            if node.content == 'x':
                raise Trouble('x')
            self.count += len(node.content)
            return Node('t', node.content + str(self.count))

        on_name = on_text

        def attr_long(self, node, value):
            self.tree.new_error(node, 'long list %s at %d' % (value, self.count), WARNING)

        def attr_empty(self, node, value):
            self.count += 1
            node.attr['empty'] = '%s%d' % (value, self.count)

        attr_n = attr_empty

        def finalize(self, result):
            if isinstance(result, Node):
                result.with_attr(total=str(self.count))
            return super().finalize(result)

    return Outline, Rewriter
