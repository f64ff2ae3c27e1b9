"""Reference semantics of the YANG types, written from RFC 7950 and kept boring.

A type object has
  text()       the YANG `type` statement
  value(v)     canonical Python value for an accepted input, or raises Reject
  obs(o)       canonical Python value stored in a real pyangbind object
  djson(c)     expected default-JSON value          (None = not asserted)
  ietf(c, mod) expected RFC 7951 value
  xml(c)       expected element text (None for an empty element)
Canonical values: int, str, bool, Decimal, bytes, tuple of bit names, str for identities.
"""
import base64
import decimal
import re
from decimal import Decimal


class Reject(Exception):
    pass


class Ty:
    name = None  # set for typedef'd types
    default = None

    def text(self):
        raise NotImplementedError

    def decls(self):
        """typedef statements needed, outermost last"""
        return []

    def base(self):
        return self

    def djson(self, c):
        return c

    def ietf(self, c, mod=None):
        return self.djson(c)

    def xml(self, c):
        return str(c)

    def lex(self, c):
        return str(c)


def parse_ranges(text, lo, hi, conv):
    """'1 | 3..4 | 10..max' -> [(a,b)]; min/max resolve to lo/hi"""
    out = []
    for part in text.split("|"):
        part = part.strip()
        if ".." in part:
            a, b = [x.strip() for x in part.split("..")]
        else:
            a = b = part
        a = lo if a == "min" else hi if a == "max" else conv(a)
        b = lo if b == "min" else hi if b == "max" else conv(b)
        out.append((a, b))
    return out


def inside(v, rngs):
    return any(a <= v <= b for a, b in rngs)


class Int(Ty):
    def __init__(self, kind, *chain):
        """chain: range texts, outermost (base) first; each further one is a typedef derivation"""
        self.kind = kind
        bits = int(kind.lstrip("uint"))
        if kind.startswith("u"):
            lo, hi = 0, 2 ** bits - 1
        else:
            lo, hi = -(2 ** (bits - 1)), 2 ** (bits - 1) - 1
        self.bits = bits
        self.chain = chain
        self.sets = [[(lo, hi)]]
        for c in chain:
            prev = self.sets[-1]
            self.sets.append(parse_ranges(c, prev[0][0], prev[-1][1], int))

    def text(self):
        if self.chain:
            return 'type %s { range "%s"; }' % (self.kind, self.chain[0])
        return "type %s;" % self.kind

    def ok(self, i):
        return all(inside(i, s) for s in self.sets)

    def value(self, v):
        if isinstance(v, str):
            if not re.fullmatch(r"[+-]?[0-9]+", v):
                raise Reject(v)
            v = int(v)
        elif not isinstance(v, int) or isinstance(v, bool):
            raise Reject(v)
        if not self.ok(v):
            raise Reject(v)
        return v

    def obs(self, o):
        return int(o) if isinstance(o, int) else ("not-an-int", repr(o))

    def djson(self, c):
        return c

    def ietf(self, c, mod=None):
        return str(c) if self.bits == 64 else c


class Str(Ty):
    def __init__(self, length=None, pattern=None):
        self.length, self.pattern = length, pattern
        self.lens = parse_ranges(length, 0, 2 ** 64, int) if length else None

    def text(self):
        body = ""
        if self.length:
            body += 'length "%s"; ' % self.length
        if self.pattern is not None:
            body += "pattern '%s'; " % self.pattern
        return "type string { %s}" % body if body else "type string;"

    def value(self, v):
        if not isinstance(v, str):
            raise Reject(v)
        if self.lens and not inside(len(v), self.lens):
            raise Reject(v)
        if self.pattern is not None and not re.fullmatch(self.pattern, v):
            raise Reject(v)
        return v

    def obs(self, o):
        return str(o) if isinstance(o, str) else ("not-a-str", repr(o))


class Enum(Ty):
    def __init__(self, *names):
        """names: 'a' or ('a', 5)"""
        self.names = [n if isinstance(n, tuple) else (n, None) for n in names]
        self.values = {}
        nxt = 0
        for n, v in self.names:  # RFC 7950 9.6.4.2: one more than the highest so far
            if v is None:
                v = nxt
            self.values[n] = v
            nxt = max(self.values.values()) + 1

    def text(self):
        return "type enumeration { %s}" % "".join(
            'enum "%s"%s ' % (n, ";" if v is None else " { value %d; }" % v) for n, v in self.names
        )

    def value(self, v):
        if not isinstance(v, str) or v not in self.values:
            raise Reject(v)
        return v

    def obs(self, o):
        return str(o) if isinstance(o, str) else ("not-a-str", repr(o))


class Bool(Ty):
    def text(self):
        return "type boolean;"

    def value(self, v):
        if v is True or v == "true":
            return True
        if v is False or v == "false":
            return False
        raise Reject(v)

    def obs(self, o):
        return bool(o) if isinstance(o, int) else ("not-a-bool", repr(o))

    def xml(self, c):
        return "true" if c else "false"

    lex = xml


class Empty(Ty):
    def text(self):
        return "type empty;"

    def value(self, v):
        if v is True:
            return True
        raise Reject(v)

    def obs(self, o):
        return bool(o) if isinstance(o, int) else ("not-a-bool", repr(o))

    def ietf(self, c, mod=None):
        return [None]

    def xml(self, c):
        return None


class Binary(Ty):
    def __init__(self, length=None):
        self.length = length
        self.lens = parse_ranges(length, 0, 2 ** 64, int) if length else None

    def text(self):
        return 'type binary { length "%s"; }' % self.length if self.length else "type binary;"

    def value(self, v):
        if isinstance(v, str):
            try:
                v = base64.b64decode(v, validate=True)
            except Exception:
                raise Reject(v)
        if not isinstance(v, bytes):
            raise Reject(v)
        if self.lens and not inside(len(v), self.lens):
            raise Reject(v)
        return bytes(v)

    def obs(self, o):
        return bytes(bytearray(o)) if isinstance(o, bytes) else ("not-bytes", type(o).__name__)

    def djson(self, c):
        return base64.b64encode(c).decode()

    def xml(self, c):
        return self.djson(c) or None

    def lex(self, c):
        return self.djson(c)


class Bits(Ty):
    def __init__(self, *names):
        """names: 'a' or ('a', position)"""
        self.names = [n if isinstance(n, tuple) else (n, None) for n in names]
        self.pos = {}
        nxt = 0
        for n, p in self.names:
            if p is None:
                p = nxt
            self.pos[n] = p
            nxt = max(self.pos.values()) + 1

    def text(self):
        return "type bits { %s}" % "".join(
            'bit "%s"%s ' % (n, ";" if p is None else " { position %d; }" % p) for n, p in self.names
        )

    def value(self, v):
        if not isinstance(v, str):
            raise Reject(v)
        b = v.split()
        if any(x not in self.pos for x in b):
            raise Reject(v)
        return tuple(sorted(set(b), key=lambda x: self.pos[x]))

    def obs(self, o):
        # canonical form is part of what is observed: the printed order counts
        return tuple(str(o).split()) if isinstance(o, set) else ("not-a-set", repr(o))

    def djson(self, c):
        return " ".join(c)

    def xml(self, c):
        return " ".join(c) or None

    lex = djson


class Dec(Ty):
    def __init__(self, fd, *chain):
        self.fd = fd
        lo, hi = [Decimal(n).scaleb(-fd) for n in (-(2 ** 63), 2 ** 63 - 1)]
        self.chain = chain
        self.sets = [[(lo, hi)]]
        for c in chain:
            prev = self.sets[-1]
            self.sets.append(parse_ranges(c, prev[0][0], prev[-1][1], Decimal))

    def text(self):
        return "type decimal64 { fraction-digits %d; %s}" % (
            self.fd,
            'range "%s"; ' % self.chain[0] if self.chain else "",
        )

    def value(self, v):
        """inputs with more digits than fraction-digits are outside the asserted domain"""
        if isinstance(v, bool):
            raise Reject(v)
        if isinstance(v, str):
            if not re.fullmatch(r"[+-]?[0-9]+(\.[0-9]+)?", v):
                raise Reject(v)
        elif isinstance(v, float):
            v = repr(v)
        elif not isinstance(v, (int, Decimal)):
            raise Reject(v)
        with decimal.localcontext() as c:
            c.prec = 120
            d = Decimal(v).quantize(Decimal(1).scaleb(-self.fd))
            if not all(inside(d, s) for s in self.sets):
                raise Reject(v)
        return d

    def obs(self, o):
        return Decimal(str(Decimal(o))) if isinstance(o, Decimal) else ("not-a-decimal", repr(o))

    def djson(self, c):
        return float(c)

    def ietf(self, c, mod=None):
        return c  # compared as Decimal(str), with a decimal point and no exponent

    def lex(self, c):
        return format(c, "f")


class IdRef(Ty):
    def __init__(self, base, accepted, owner):
        """accepted: {identity name: module}; owner: module of the leaf; prefixes per module in pfx"""
        self.basename, self.accepted, self.owner = base, accepted, owner
        self.pfx = {}

    def text(self):
        return "type identityref { base %s; }" % self.basename

    def value(self, v):
        if not isinstance(v, str):
            raise Reject(v)
        n = v.split(":")[-1]
        if n not in self.accepted:
            raise Reject(v)
        if ":" in v and v.split(":")[0] not in self.pfx.get(n, ()):
            raise Reject(v)
        return n

    def obs(self, o):
        return str(o).split(":")[-1]

    def ietf(self, c, mod=None):
        m = self.accepted[c]
        return c if m == mod else "%s:%s" % (m, c)


class Typedef(Ty):
    """a named derivation of `inner`, optionally adding one restriction text and a default"""

    def __init__(self, name, inner, effective, stmt=None, default=None):
        self.name, self.inner, self.eff, self.stmt, self.default = name, inner, effective, stmt, default

    def text(self):
        return "type %s;" % self.name

    def decls(self):
        body = self.stmt or self.inner.text()
        d = ' default "%s";' % self.default if self.default is not None else ""
        return self.inner.decls() + ["typedef %s { %s%s }" % (self.name, body, d)]

    def base(self):
        return self.eff.base()

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return getattr(self.__dict__["eff"], a)

    def value(self, v):
        return self.eff.value(v)

    def obs(self, o):
        return self.eff.obs(o)

    def djson(self, c):
        return self.eff.djson(c)

    def ietf(self, c, mod=None):
        return self.eff.ietf(c, mod)

    def xml(self, c):
        return self.eff.xml(c)

    def lex(self, c):
        return self.eff.lex(c)


def derive(name, inner, effective, restriction=None, default=None):
    """typedef `name` { type <inner> { restriction } }"""
    head = inner.text()
    if restriction:
        t = head[:-1] if head.endswith(";") else head[: head.rindex("}")]
        stmt = t + (" { " if head.endswith(";") else " ") + restriction + " }"
    else:
        stmt = head
    return Typedef(name, inner, effective, stmt, default)


class Union(Ty):
    def __init__(self, *members):
        self.members = members

    def text(self):
        return "type union { %s }" % " ".join(m.text() for m in self.members)

    def decls(self):
        out = []
        for m in self.members:
            for d in m.decls():
                if d not in out:
                    out.append(d)
        return out

    def pick(self, v):
        for i, m in enumerate(self.members):
            try:
                b = m.value(v)
                return i, b
            except Reject:
                continue
        raise Reject(v)

    def value(self, v):
        return self.pick(v)

    def obs(self, o):
        raise TypeError("observe a union through its members")

    def djson(self, c):
        return self.members[c[0]].djson(c[1])

    def ietf(self, c, mod=None):
        return self.members[c[0]].ietf(c[1], mod)

    def xml(self, c):
        return self.members[c[0]].xml(c[1])

    def lex(self, c):
        return self.members[c[0]].lex(c[1])


class Leafref(Ty):
    def __init__(self, path, target, require=True):
        self.path, self.target, self.require = path, target, require

    def text(self):
        return 'type leafref { path "%s";%s }' % (self.path, "" if self.require else " require-instance false;")

    def value(self, v):
        return self.target.value(v)

    def obs(self, o):
        v = o._get()
        return self.target.obs(v)

    def djson(self, c):
        return self.target.djson(c)

    def ietf(self, c, mod=None):
        return self.target.ietf(c, mod)

    def xml(self, c):
        return self.target.xml(c)

    def lex(self, c):
        return self.target.lex(c)
