"""All specifications. Modules with TAGS are used in the runs of these properties only (or when one of their contracts is asked for)."""
import core, values, scopes, lists, dicts, strings, reading, copies, parsing, forms
MODS = [values, scopes, lists, dicts, strings, reading, copies, parsing, forms]


def select(tag=None, only=None):
    C = core.core()
    text = core.TEXT
    mods = []
    need = set()
    for m in MODS:
        if hasattr(m, 'TAGS') and (only and any(c.key in only for c in m.contracts()) or tag in m.TAGS):
            need |= {m.__name__} | set(getattr(m, 'NEEDS', ()))
    for m in MODS:
        cs = m.contracts()
        tags = getattr(m, 'TAGS', None)
        if tags is None or (tag is None and only is None) or tag in tags or m.__name__ in need:
            mods.append(m)
            C += cs
            text += m.TEXT
    s = core.spec(C, text)
    for m in mods:
        for k in ('FIELDS', 'GLOBALS', 'CLASSES', 'FNIDS'):
            if hasattr(m, k):
                if k in ('CLASSES', 'FNIDS'):
                    s.setdefault(k.lower(), []).extend(getattr(m, k))
                else:
                    s[k.lower()].update(getattr(m, k))
    return s
