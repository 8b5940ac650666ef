"""Questions asked of a named bit mask; the answer of a refused question is the text 'refused'."""


def item(m, k):
    try:
        return m[k]
    except Exception:
        return 'refused'


def attribute(m, k):
    try:
        return getattr(m, k)
    except Exception:
        return 'refused'


def ask(m, f, k):
    try:
        return getattr(m, f)(k)
    except Exception:
        return 'refused'


def make(cls, a):
    try:
        return cls(*a)
    except Exception:
        return 'refused'
