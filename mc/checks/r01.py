"""R01: the library's own JSON gives back the tree that was serialised, from text and from dictionaries."""
import json

from mc import serial, structs, values

FMT = serial.FORMATS["json"]


def judge(schema, mod, real, model):
    return serial.round_trip(FMT, schema, mod, real, model) or from_dict(schema, mod, real, model)


def from_dict(schema, mod, real, model):
    """the decoded document, loaded as a dictionary"""
    from mc import tree

    doc = json.loads(FMT.dump(real.root))
    try:
        got = tree.rsnap(schema.root, FMT.load(doc, mod, schema, **serial.helper_for(schema)))
    except Exception as e:
        return [("dictionary", "loading the dictionary raised %s: %s" % (type(e).__name__, str(e)[:300]))]
    d = tree.diff(serial.content(got), serial.content(model.snap()))
    return [("dictionary", d)] if d else []


def run(ctx):
    values.explore(ctx, judge)
    structs.explore(ctx, judge)
