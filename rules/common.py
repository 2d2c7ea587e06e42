"""helpers shared by the rules"""
import re
from ir import bare
import sim as simmod


def mentions(t, pred):
    st = [t]
    while st:
        x = st.pop()
        if pred(x): return True
        for y in x[1:]:
            if isinstance(y, tuple) and y: st.append(y)
    return False


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if x and isinstance(x[0], str): yield x
        for y in x:
            if isinstance(y, tuple) and y: st.append(y)


def chain(fr):
    """call context of a frame: sites from the root"""
    out = []
    f = fr
    while f.parent is not None:
        out.append((f.parent.fn.u, f.site)); f = f.parent
    return tuple(out[::-1])


def conversions(fmt):
    """[(flags, width, precision, length, conv)] of a printf format, %% skipped"""
    out = []
    for m in re.finditer(r'%(?:%|([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|z|j|t|L|q)?([a-zA-Z]))', fmt):
        if m.group(0) == '%%': continue
        out.append((m.group(1), m.group(2), m.group(3), m.group(4) or '', m.group(5)))
    return out


def lastname(n): return n.get('fn', '').split('::')[-1]
