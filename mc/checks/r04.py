"""R04: XML has one element per node, in the right namespace, and gives back the tree that was serialised."""
from mc import serial, structs, values

FMT = serial.FORMATS["xml"]


def judge(schema, mod, real, model):
    return serial.round_trip(FMT, schema, mod, real, model)


def run(ctx):
    ctx.assumptions.append("lists without keys cannot be loaded from XML (the library says so: NotImplementedError)")
    values.explore(ctx, judge)
    structs.explore(ctx, judge, skip=("keyless",))
