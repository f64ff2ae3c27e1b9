"""S03: changed flags and the filtered view report exactly what was set."""
from mc import schemas
from mc.alphabet import ops_for
from mc.explore import Spec, run_specs


def run(ctx):
    specs = []
    depth = 3 if ctx.quick else 4
    for f in (schemas.basic, schemas.choices, schemas.nested, schemas.typed, schemas.presences, schemas.bitsy):
        for x in (False, True):
            s = f(x)
            rich = f in (schemas.bitsy, schemas.presences)
            ops = ops_for(s, good=1, alt=0, bad=0, badkeys=0, keys=2 if not rich else 1, llgood=1, lls=("append", "assign", "remove", "pop", "insert", "clear", "delitem"), keyset=False)
            specs.append(Spec(s.label + ("/xpath" if x else ""), s, ops, depth - (1 if x and ctx.quick else 0), views=True))
    run_specs(ctx, specs)
