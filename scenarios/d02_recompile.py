"""D02 - A recompile leaves the parser script up to date or untouched, and recovers later."""
from scenarios import regen
from scenarios.regen import warmup

RULE = ('a recompile that reports success leaves the script up to date; any other leaves it untouched or up to date; without faults it succeeds if the grammar is correct, and reports errors in a file otherwise; a second recompile without changes does not touch the script; the configuration of the caller is not changed')
REAL = ['DHParser/dsl.py: compile_on_disk, recompile_grammar, grammar_changed, split_source', 'DHParser/ebnf.py',
        'DHParser/compile.py', 'DHParser/templates']
STUB = ['disk (scratch directory; errors, full disk, denied access, crashes with loss of buffers, interrupts)', 'clock',
        'scheduling of concurrent calls']
ASSUMPTIONS = ['completed writes survive a crash of the process in the order in which they were made',
               'line endings are those of the platform']
RUNS = {'quick': 3500, 'thorough': 25000}

SCENARIOS = [('histories', lambda ctx: regen.histories(ctx, 'D02'), 8),
             ('concurrent', lambda ctx: regen.concurrent(ctx, 'D02'), 2)]
