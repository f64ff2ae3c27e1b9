"""R03: IETF JSON is what RFC 7951 says, member for member."""
import json
import re

from mc import serial, structs, values

FMT = serial.FORMATS["ietf"]


def judge(schema, mod, real, model):
    try:
        text = FMT.dump(real.root)
    except Exception as e:
        return [("encode", "serialising raised %s: %s" % (type(e).__name__, str(e)[:300]))]
    d = FMT.diff(text, schema, model)
    return [("document", "%s\ndocument: %s" % (d, re.sub(r"\s+", " ", text)[:600]))] if d else []


def run(ctx):
    values.explore(ctx, judge)
    structs.explore(ctx, judge)
