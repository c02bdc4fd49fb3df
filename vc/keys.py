"""Random keys as a free algebra: at most one draw per key, fresh returned key."""


def parent(t):
    if isinstance(t, tuple) and t and t[0] in ("split", "fold", "iter"):
        return t[1]
    return None


def is_ancestor(a, t):
    """a is t or an ancestor of t"""
    while t is not None:
        if a == t:
            return True
        t = parent(t)
    return False


DRAWS = ("split", "fold_in")


def key_of(arr):
    """term of a key array of shape (2,) (or a typed scalar key)"""
    from .jx import KeyTok, KeyWord, _tok
    if arr.rank == 0:
        v = arr(()).v
        return v.term if isinstance(v, KeyTok) else ("?", _tok(v))
    w0, w1 = arr((0,)).v, arr((1,)).v
    if isinstance(w0, KeyWord) and isinstance(w1, KeyWord) and w0.key == w1.key and (w0.w, w1.w) == (0, 1):
        return w0.key.term if isinstance(w0.key, KeyTok) else w0.key
    return ("words", _tok(w0), _tok(w1))


def has(t, head):
    return isinstance(t, tuple) and (t[:1] == (head,) or any(has(x, head) for x in t))


def check_keys(env, key_in, key_out, log=None, prefix="", nodraw=None):
    """obligations of C09 on one function: key_in/key_out are terms, log the ghost log of uses"""
    log = env.keylog if log is None else log
    draws = [(k, how) for k, how, _ in log if how not in DRAWS]
    p = prefix
    if nodraw is True:
        env.check(p + "draws no random numbers", not draws, "draws %s" % [h for _, h in draws])
    if not draws:
        env.check(p + "nothing drawn: the given key is returned", key_out == key_in, "returned key %r" % (key_out,), kind="post")
        return
    bad = [(a, b) for i, a in enumerate(draws) for b in draws[i + 1:] if a[0] == b[0]]
    env.check(p + "each key is used for at most one draw", not bad, "key %s is used for %s and %s" % ((bad[0][0][0], bad[0][0][1], bad[0][1][1]) if bad else ("", "", "")))
    out = [d for d in draws if not is_ancestor(key_in, d[0])]
    env.check(p + "every key used derives from the given key", not out, "key %s" % (out[0][0],) if out else "")
    env.check(p + "the returned key derives from the given key", is_ancestor(key_in, key_out) and key_out != key_in, "returned key %r" % (key_out,))
    back = [d for d in draws if is_ancestor(key_out, d[0])]
    env.check(p + "no used key can be derived from the returned key", not back,
              "the %s draw uses %s, derivable from the returned key %s" % (back[0][1], back[0][0], key_out) if back else "")
