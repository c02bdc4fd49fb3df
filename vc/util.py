"""helpers shared by the checks"""
import importlib


def repo_mod(mod):
    import appletree  # noqa: F401
    return importlib.import_module(mod)


def repo_fn(mod, name):
    """the object currently defined in /repo (attribute path)"""
    from .harness import ContractBroken
    try:
        o = repo_mod(mod)
        for part in name.split("."):
            o = getattr(o, part)
    except (ImportError, AttributeError) as e:
        raise ContractBroken("%s.%s exists" % (mod, name), str(e))
    return o


def jitted(f):
    return f
