"""R02: RFC 7951 JSON gives back the tree that was serialised."""
from mc import serial, structs, values

FMT = serial.FORMATS["ietf"]


def judge(schema, mod, real, model):
    return serial.round_trip(FMT, schema, mod, real, model, exact=False)


def run(ctx):
    values.explore(ctx, judge)
    structs.explore(ctx, judge)
