"""D01 - Regenerating a parser script never loses hand-written code."""
from scenarios import regen
from scenarios.regen import warmup

RULE = ('after every call - successful, failed, interrupted or crashed - everything the user had written before (sections of the script, or the content of a malformed script) is on disk, and after a successful call in the script itself, together with the section that is generated for the present grammar')
REAL = ['DHParser/dsl.py: compile_on_disk, recompile_grammar, grammar_changed, split_source', 'DHParser/ebnf.py',
        'DHParser/compile.py', 'DHParser/templates']
STUB = ['disk (scratch directory; errors, full disk, denied access, crashes with loss of buffers, interrupts)', 'clock',
        'scheduling of concurrent calls']
ASSUMPTIONS = ['completed writes survive a crash of the process in the order in which they were made',
               'line endings are those of the platform']
RUNS = {'quick': 3500, 'thorough': 25000}

SCENARIOS = [('histories', lambda ctx: regen.histories(ctx, 'D01'), 8),
             ('concurrent', lambda ctx: regen.concurrent(ctx, 'D01'), 2)]
