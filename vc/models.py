"""Contract models used with the symbolic evaluator (vc.pysym)."""
import inspect

import z3

from . import pysym as P


class Record:
    """a configuration record with a fixed set of known string keys (a dict for the code).

    fields: name -> fn(z) -> value;  writes to it are recorded in the ghost log (frame conditions)."""

    def __init__(self, fields, label="record", present=None):
        self.fields, self.label, self.present = fields, label, present or {}

    def _key(self, k):
        if not isinstance(k, str):
            raise P.Unsupported("%s indexed with %r" % (self.label, k))
        return k

    def has(self, it, o, k):
        k = self._key(k)
        if k not in self.fields:
            return False
        return self.present[k](o.z) if k in self.present else True

    def getitem(self, it, o, k):
        if not it.run.truth(it.zb(self.has(it, o, k))):
            raise P.PyRaise(P.Exc(KeyError, (k,)))
        return self.fields[k](o.z)

    def contains(self, it, o, k):
        return it.mkbool(self.has(it, o, k))

    def getattr(self, it, o, name):
        if name == "get":
            def get(it, a, kw):
                k, d = a[0], (a[1] if len(a) > 1 else kw.get("default"))
                return self.fields[k](o.z) if it.run.truth(it.zb(self.has(it, o, k))) else d
            return P.Contract(get, "get")
        if name == "keys":
            return P.Contract(lambda it, a, k: tuple(self.fields), "keys")
        if name == "copy":
            return P.Contract(lambda it, a, k: self.deepcopy(it, o), "copy")
        return P._MISSING

    def setitem(self, it, o, k, v):
        it.run.log.append(("write to " + self.label, (o,), {}, v))
        raise P.Unsupported("write to a configuration record")

    def deepcopy(self, it, o):
        return o

    def isinstance(self, it, o, c):
        cs = c if isinstance(c, tuple) else (c,)
        return any(issubclass(dict, x) for x in cs)

    def is_none(self, it, o):
        return False


def bind(fn_sig, args, kwargs):
    """arguments of a contract by name; fn_sig: function or list of (name, default)"""
    if callable(fn_sig):
        b = inspect.signature(fn_sig).bind(*args, **kwargs)
        b.apply_defaults()
        return dict(b.arguments)
    out = {}
    args, kwargs = list(args), dict(kwargs)
    for i, p in enumerate(fn_sig):
        nm, d = p if isinstance(p, tuple) else (p, inspect._empty)
        if i < len(args):
            out[nm] = args[i]
        elif nm in kwargs:
            out[nm] = kwargs.pop(nm)
        elif d is not inspect._empty:
            out[nm] = d
        else:
            raise P.Unsupported("missing argument %s" % nm)
    if kwargs or len(args) > len(fn_sig):
        raise P.Unsupported("unexpected arguments")
    return out


def real(v):
    """z3 real term of a finite number"""
    v = P.anum(v)
    return P.zreal(v.z)


def names_distinct(run, *names):
    pass
