"""The Configure service, from its definition in the repository."""
import os
import re


def _load():
    consts, fields = {}, {}
    for line in open(os.environ["VROS_SRV"]):
        line = line.split("#")[0].strip()
        if line == "---":
            break
        m = re.match(r"^(\S+)\s+([A-Z][A-Z0-9_]*)\s*=\s*(-?\w+)$", line)
        if m:
            consts[m[2]] = int(m[3], 0)
        elif line:
            t, n = line.split()[:2]
            fields[n] = "" if t == "string" else 0

    class Request:
        __slots__ = ["_" + n for n in fields]

        def __init__(self, **kw):
            for n, d in fields.items():
                setattr(self, n, kw.pop(n, d))
            assert not kw, kw

    def prop(n, d):
        def get(self):
            return getattr(self, "_" + n)

        def put(self, v):
            assert isinstance(v, type(d)) and not isinstance(v, bool), "The '%s' field must be of type '%s'" % (n, type(d).__name__)
            if isinstance(v, int):
                assert -2**31 <= v < 2**31
            setattr(self, "_" + n, v)
        return property(get, put)
    for n, d in fields.items():
        setattr(Request, n, prop(n, d))
    for n, v in consts.items():
        setattr(Request, n, v)

    class Response:
        pass

    class Srv:
        pass
    Srv.Request, Srv.Response = Request, Response
    return Srv


Configure = _load()
