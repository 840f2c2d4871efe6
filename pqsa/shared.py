"""State shared by all objects of a process: what module-level, class-level and default-argument objects look like after a path."""
from .model import ClassInfo
from .values import ClsV, FnV, K, ModV, Ref


def owners(I):
    """Every object reachable from module-level names, class attributes and default arguments, with the name it is reachable by."""
    prog = I.prog
    names, fns = {}, {}
    for m in prog.modules.values():
        for nm, r in m.bind.items():
            if r[0] == 'assign':
                names[id(r[1])] = (m, nm)
        for fi in list(m.funcs.values()) + [f for c in m.classes.values() for f in c.methods.values()]:
            fns[id(fi.node)] = fi
    out, work = {}, []
    for key, v in I.globals.items():
        if key[0] == 'global' and key[1] in names:
            mod, text = names[key[1]][0], '.'.join((names[key[1]][0].name, names[key[1]][1]))
        elif key[0] == 'cattr':
            mod, text = prog.modules.get(key[1].rpartition('.')[0]), f'{key[1]}.{key[2]}'
        elif key[0] == 'default' and key[1] in fns:
            mod, text = fns[key[1]].module, f'{fns[key[1]].full} default of {key[2]}'
        else:
            continue
        if mod is not None and own_code(mod):
            work.append((v, text))
    while work:
        v, text = work.pop()
        if isinstance(v, Ref):
            if v in out:
                continue
            out[v] = text
            work += [(x, text) for (b, n), x in I.g_attrs.items() if b == v]
            work += [(x[1], text) for x in I.g_lists.get(v, ())]
            work += [(I.g_ditems.get((v, k)), text) for k in I.g_dkeys.get(v, ())] + [(k, text) for k in I.g_dkeys.get(v, ())]
        elif hasattr(v, 'args') and isinstance(getattr(v, 'args', None), tuple):
            work += [(x, text) for x in v.args]
    return out


def own_code(mod):
    return (mod.name == 'projectq' or mod.name.startswith('projectq.')) and not mod.path.startswith('<')


def changes(I, st, own=None):
    """Differences between the shared part of the heap of a state and its initial contents: [(base, owner, what)]."""
    own = owners(I) if own is None else own
    out = []

    def label(b):
        if isinstance(b, ModV):
            m = I.prog.modules.get(b.name)
            return b.name if m is not None and own_code(m) else None
        if isinstance(b, ClsV):
            return b.ci.full if isinstance(b.ci, ClassInfo) and own_code(b.ci.module) else None
        if isinstance(b, FnV):
            return b.fi.full if own_code(b.fi.module) else None
        return own.get(b)
    for (b, n), v in st.attrs.items():
        if not isinstance(b, Ref) or b in own:
            if b in own and I.g_attrs.get((b, n)) == v:
                continue
            lab = label(b)
            if lab and not (isinstance(b, ClsV) and counter(v) and counter(old(I, b, n))):
                out.append((b, lab, f'attribute {n} is set'))
    for b, s in st.lists.items():
        if b in own and I.g_lists.get(b) != s:
            out.append((b, own[b], 'contents change'))
    for b, ks in st.dkeys.items():
        if b in own and I.g_dkeys.get(b) != ks:
            new = [k for k in ks if k not in (I.g_dkeys.get(b) or ())]
            if len(new) == len(ks) - len(I.g_dkeys.get(b) or ()) and all(identity(I, k) and k not in own for k in new):
                continue  # a registry with entries per object
            out.append((b, own[b], 'entries change'))
    for (b, k) in list(st.ditems):
        if b in own and I.g_ditems.get((b, k)) != st.ditems.get((b, k)) and not (identity(I, k) and k not in own):
            out.append((b, own[b], 'an entry changes'))
    return out


def old(I, b, n):
    return I.globals.get(('cattr', b.ci.full, n)) if isinstance(b.ci, ClassInfo) else None


def counter(v):
    """A class attribute that stays an integer: a source of numbers, not a container of state."""
    return isinstance(v, K) and type(v.v) is int


def identity(I, k):
    """An object compared by identity."""
    ci = I.class_of(k) if isinstance(k, Ref) else None
    return ci is not None and I.prog.find_method(ci, '__eq__') is None


def where(st, base):
    """The last effect on an object, also inside loops."""
    def deep(effs):
        for e in reversed(list(effs)):
            if e.kind in ('mutate', 'setattr', 'setitem', 'delitem', 'delname') and e.target == base:
                return e.loc
            if e.kind == 'loop':
                for p in e.data:
                    r = deep(p.effects)
                    if r:
                        return r
        return None
    return deep(st.eff)


def containers(I, st, v):
    """Mutable containers reachable from an object, excluding those shared by the whole process."""
    own = owners(I)
    seen, work = {}, [(v, '')]
    attrs = {}
    for (b, n), x in list(I.g_attrs.items()) + list(st.attrs.items()):
        attrs.setdefault(b, {})[n] = x
    while work:
        x, path = work.pop()
        if isinstance(x, Ref):
            if x in seen or x in own:
                continue
            seen[x] = path
            for n, y in attrs.get(x, {}).items():
                work.append((y, f'{path}.{n}'))
            for s in st.lists.get(x, ()):
                work.append((s[1], path + '[]'))
            for k in st.dkeys.get(x, ()):
                work += [(k, path + '.keys'), (st.ditems.get((x, k)), path + '[]')]
        elif hasattr(x, 'args') and isinstance(getattr(x, 'args', None), tuple):
            work += [(y, path) for y in x.args]
    return {r: p for r, p in seen.items() if I.kind(r) in ('list', 'dict', 'set')}


__all__ = ['owners', 'changes', 'where', 'containers']
