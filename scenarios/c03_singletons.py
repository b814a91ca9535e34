"""C03 - thread-local singletons: one instance per thread, never shared."""
import gc
import weakref

from dst import kernel

RULE = ('in every run: all calls of one factory in one thread return the identical object; objects '
        'returned to different threads or by different factories are never identical; a failing '
        'constructor affects only its own call; no call raises anything else')
REAL = ['DHParser/toolkit.py: ThreadLocalSingletonFactory', 'DHParser/configuration.py: thread locals',
        'DHParser/pipeline.py: junction factories', 'DHParser/ebnf.py: get_ebnf_... factories']
STUB = ['thread scheduling (seeded, preemption at every bytecode instruction of the factories)', 'locks',
        'class constructors (yield to other threads, may fail)',
        'memory addresses of factories (reused at once after deletion)']
ASSUMPTIONS = ['threads are preempted between bytecode instructions only (CPython with GIL)']
RUNS = {'quick': 5000, 'thorough': 60000}


def warmup():
    import DHParser.pipeline
    import DHParser.ebnf
    import DHParser.dsl
    DHParser.ebnf.get_ebnf_grammar()
    DHParser.ebnf.get_ebnf_transformer()
    DHParser.ebnf.get_ebnf_compiler()


def reset():
    """Puts DHParser's thread-related state to the state right after import."""
    import DHParser.configuration as C
    from DHParser.toolkit import ThreadLocalSingletonFactory as F
    C.THREAD_LOCALS = None
    C.access_lock = None
    getattr(C, 'THREADING_OBJECTS', {}).clear()
    if hasattr(F, 'lock'):
        del F.lock


class Addresses:
    """Simulated memory allocator: the address of an object is used again after its deletion."""

    def __init__(self, ctx):
        self.ctx, self.free, self.next, self.of = ctx, [], 1000, {}

    def id(self, obj):
        real = id(obj)
        if real not in self.of:
            if self.free:
                addr = self.free.pop()
                self.ctx.probe('address_reused')
            else:
                self.next += 16
                addr = self.next
            self.of[real] = addr
            weakref.finalize(obj, self.release, real)
        return self.of[real]

    def release(self, real):
        self.free.append(self.of.pop(real))


class Failure(Exception):
    pass


def factories(ctx):
    """several threads create, call and drop factories"""
    from DHParser.toolkit import ThreadLocalSingletonFactory as F
    from DHParser.configuration import get_config_value, set_config_value
    from functools import partial
    from DHParser.pipeline import create_compiler_junction
    ch = ctx.ch
    w = kernel.World(ctx, preempt=True)
    w.gap_scale = ch.pick((1, 2, 4))
    n = ch.rint(2, 4)
    shared_n = ch.rint(1, 4)
    fail = ch.chance(30)
    late = ch.chance(50)          # even the shared factories are created by the threads
    ctx.case = '%d threads, %d shared factories, failing=%s, late=%s' % (n, shared_n, fail, late)
    known = {}                    # (factory key, thread) -> object
    owner = {}                    # id(object) -> (factory key, thread, object)

    class Product:
        def __init__(self, tag=''):
            if w.is_actor() and ch.chance(30):
                w.yield_()
            if fail and ch.chance(20):
                ctx.fault('constructor_fails')
                raise Failure(tag)
            self.tag = tag
            self.user = None

        def __call__(self, tree):
            return tree

    class Other(Product):
        pass

    def make_factory():
        kind = ch.pick(('class', 'partial', 'named', 'unique', 'junction', 'other'))
        if kind == 'class':
            return F(Product)
        if kind == 'other':
            return F(Other)
        if kind == 'partial':
            return F(partial(Product, 'p'))
        if kind == 'named':
            return F(Product, 'name')
        if kind == 'unique':
            return F(partial(Product, 'u'), uniqueID='given')
        return create_compiler_junction(Product, 'a', 'b').factory

    def call(fkey, factory, me):
        try:
            obj = factory()
        except Failure:
            if (fkey, me) in known:
                ctx.violate('second_instance', 'thread %d calls the constructor of factory %s again'
                            % (me, fkey))
            return
        if not isinstance(obj, Product):
            ctx.violate('wrong_object', 'factory %s returned %r' % (fkey, obj))
            return
        before = known.setdefault((fkey, me), obj)
        if before is not obj:
            ctx.violate('second_instance', 'factory %s returned two objects to thread %d' % (fkey, me))
        fk, th, _ = owner.setdefault(id(obj), (fkey, me, obj))
        if th != me:
            ctx.violate('shared', 'an object of thread %d was handed out to thread %d' % (th, me))
        elif fk != fkey:
            ctx.violate('mixed_up', 'factory %s returned an object of factory %s' % (fkey, fk))
        # critical section: nobody else may use the object meanwhile
        if obj.user is not None:
            ctx.violate('shared', 'object used by two threads at once')
        obj.user = me
        if ch.chance(20):
            w.yield_()
        obj.user = None

    table = {}

    def thread(me):
        mine = {}
        count = 0
        for _ in range(ch.rint(1, 8)):
            op = ch.weighted([(5, 'shared'), (2, 'create'), (2, 'own'), (1, 'drop'), (1, 'config')])
            if op == 'shared':
                k = 'S%d' % ch.draw(shared_n)
                if k not in table:
                    f = make_factory()
                    table.setdefault(k, f)
                    # a factory that came too late lives on under its own name
                    if table[k] is not f:
                        count += 1
                        mine['%d.%d' % (me, count)] = f
                call(k, table[k], me)
            elif op == 'create':
                count += 1
                key = '%d.%d' % (me, count)
                mine[key] = make_factory()
                call(key, mine[key], me)
            elif op == 'own' and mine:
                key = ch.pick(sorted(mine))
                call(key, mine[key], me)
            elif op == 'drop' and mine:
                del mine[ch.pick(sorted(mine))]
            elif op == 'config':
                set_config_value('max_parser_dropouts', me)
                v = get_config_value('max_parser_dropouts')
                ctx.check(v == me, 'config', lambda: 'thread %d reads %r' % (me, v))

    def main():
        actors = [w.spawn(lambda i=i: thread(i), 'T%d' % i) for i in range(1, n + 1)]
        if not w.block(lambda: all(a.state == kernel.DONE for a in actors), 100.0):
            ctx.violate('hang', 'threads do not terminate')
            return
        for a in actors:
            if a.exc is not None:
                import traceback
                ctx.violate('exception', '%s: %s' % (a.name, ''.join(
                    traceback.format_exception(a.exc)[-3:])))

    reset()
    import DHParser.toolkit
    DHParser.toolkit.id = Addresses(ctx).id
    if not late:
        for i in range(shared_n):
            table['S%d' % i] = make_factory()
        if ch.chance(50):
            import DHParser.configuration as C
            C.THREAD_LOCALS = None
            getattr(C, 'THREADING_OBJECTS', {}).clear()
    gc.disable()
    names = ('toolkit.py', 'configuration.py')
    kernel.instrument(files=names, instructions=names)
    try:
        w.run(main)
    finally:
        kernel.uninstrument()


def ebnf_tools(ctx):
    """the per-thread factories for the EBNF grammar, transformer and compiler and for a
    generated parser are used by several threads"""
    import DHParser.ebnf as ebnf
    import DHParser.dsl as dsl
    from DHParser.parse import Grammar
    from DHParser.pipeline import create_parser_junction
    ch = ctx.ch
    w = kernel.World(ctx, preempt=True)
    w.gap_scale = ch.pick((3, 10))
    n = ch.rint(2, 3)

    class Simple(Grammar):
        pass
    junction = create_parser_junction(Grammar)
    getters = {
        'grammar': lambda: ebnf.get_ebnf_grammar(),
        'transformer': lambda: ebnf.get_ebnf_transformer(),
        'compiler': lambda: ebnf.get_ebnf_compiler(),
        'parser': lambda: junction.factory(),
        'preprocessor': lambda: ebnf.get_ebnf_preprocessor(),
    }
    names = [ch.pick(('transformer', 'compiler', 'parser', 'preprocessor', 'grammar'))
             for _ in range(ch.rint(1, 3))]
    ctx.case = '%d threads use %s' % (n, names)
    seen = {}

    def thread(me):
        for name in names + names[:1]:
            obj = getters[name]()
            if name == 'preprocessor' and not hasattr(obj, '__dict__'):
                continue
            before = seen.setdefault((name, me), obj)
            ctx.check(before is obj, 'second_instance',
                      lambda: 'thread %d gets two objects from the factory of the %s' % (me, name))
            for (nm, th), o in seen.items():
                if o is obj and th != me:
                    if name in ('grammar', 'compiler', 'parser'):
                        ctx.violate('shared', 'threads %d and %d share the %s' % (th, me, nm))

    def main():
        actors = [w.spawn(lambda i=i: thread(i), 'T%d' % i) for i in range(1, n + 1)]
        if not w.block(lambda: all(a.state == kernel.DONE for a in actors), 100.0):
            ctx.violate('hang', 'threads do not terminate')
            return
        for a in actors:
            if a.exc is not None:
                import traceback
                ctx.violate('exception', '%s: %s' % (a.name, ''.join(
                    traceback.format_exception(a.exc)[-3:])))

    reset()
    kernel.instrument(files=('toolkit.py', 'configuration.py', 'ebnf.py', 'pipeline.py', 'parse.py'),
                      instructions=('toolkit.py', 'configuration.py'))
    try:
        w.run(main)
    finally:
        kernel.uninstrument()


SCENARIOS = [('factories', factories, 6), ('ebnf_tools', ebnf_tools, 1)]
