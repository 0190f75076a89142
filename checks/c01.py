from mon.recmodel import Engine

RULE = (
    "a case declares a random record class (1-5 attributes over 12 type "
    "kinds x converters x checks x required/default/lazy/read-only/unsafe/"
    "legacy-null/JSON traits, sometimes inherited), constructs 2-4 records "
    "and applies 6-21 random operations in lock step with a reference model; "
    "non-trivial: at least one record was constructed, distinct by full trace")
ASSUMPTIONS = [
    "checks and converters are deterministic functions of their argument",
    "state is changed through the attribute protocol only",
]

NEED = {'assignments_ok': 3000, 'assignments_conv': 1500, 'assignments_type': 3000, 'assignments_check': 600, 'constructions_rejected': 1500, 'deletions': 3000, 'records_constructed': 4000, 'null_assignments': 40}


def history(ctx, rng):
    Engine(ctx, rng, ctx.pid).run()


SCENARIOS = [("history", history, 12000, 250000)]
