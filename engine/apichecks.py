"""C24 and C25: what the interface and the types of the crate allow, from the compiler's own item and type tables."""


def treeinput(f):
    """How the function takes a tree: '', 'shared', 'mut' or 'own' (the strongest)."""
    r = ''
    for i in f['in']:
        for k in ('shared', 'mut', 'own'):
            if i[k]:
                r = k if r == '' or r == 'shared' else r
    return r


def callable_(facts):
    """Functions code outside the crate can call: reachable ones, and items of implementations of traits."""
    tt = set(t for t, _ in facts['treetraits'])
    for f in facts['fns']:
        if f['reach'] or (f['owner'] == 'impl' and (f['foreign'] or f['trait'] in tt)) or (f['owner'] == 'trait' and f['trait'] in tt):
            if f['trait'] and f['trait'].endswith('ops::Drop'):
                continue                # cannot be called
            yield f


def isinsert(f):
    return f['name'] == 'insert' and f['trait'] and f['trait'].endswith('QuadTree') and not f['foreign']


def common(rep, facts):
    rep.rule('the tree types are the implementors of the crate\'s QuadTree trait')
    if len(facts['trees']) < 2:
        rep.unsure('found only these tree types: %s' % facts['trees'])
    for f in facts['fns']:
        rep.fns.add('quadtree::' + f['path'])
    rep.rule('no unsafe block, unsafe function, unsafe implementation or extern block in the crate')
    if not facts['unsafe']:
        rep.ok()
    for u in facts['unsafe']:
        rep.bad(u, 'unsafe code can reach behind every shared reference the crate hands out')


def holders(facts):
    """Types of the crate a tree is made of."""
    by = dict((a['path'], a) for a in facts['adts'])
    todo = list(facts['trees'])
    seen = []
    while todo:
        x = todo.pop()
        if x in seen or x not in by:
            continue
        seen.append(x)
        for f in by[x]['fields']:
            for y in by:
                if y in f['t']:
                    todo.append(y)
    return [by[x] for x in sorted(seen)]


def c24(rep, p, facts):
    common(rep, facts)
    rep.rule('every function outside code can call on a tree, other than insertion, takes it by shared reference')
    n = 0
    for f in callable_(facts):
        how = treeinput(f)
        if not how or isinsert(f):
            continue
        n += 1
        q = f['path']
        if how == 'mut':
            rep.bad(q, 'a query takes the tree by mutable reference (%s): it can change the tree, and cannot be run by two threads '
                    'at once (%s)' % (', '.join(i['t'] for i in f['in']), f['span']))
        elif how == 'own':
            rep.bad(q, 'a query consumes the tree (%s) (%s)' % (', '.join(i['t'] for i in f['in']), f['span']))
        else:
            rep.ok()
    if n < 14:
        rep.unsure('only %d query functions were found' % n)
    rep.rule('no type a tree is made of contains UnsafeCell, a mutable reference or a non-Freeze foreign type, however deep')
    rep.rule('the tree types are Send when their datum type is, and Sync when their datum type is')
    for a in holders(facts):
        for c in a['cells']:
            if c.startswith('dyn '):
                rep.unsure('%s holds %s, whose contents are unknown' % (a['path'], c))
            else:
                rep.bad(a['path'] + ' holds ' + c, 'part of a tree can be changed behind a shared reference (%s)' % a['span'])
        if not a['cells']:
            rep.ok()
        if a['tree']:
            for k, w in (('send', 'Send'), ('sync', 'Sync')):
                if a.get(k) is True:
                    rep.ok()
                elif a.get(k) is False:
                    rep.bad('%s is not %s' % (a['path'], w), 'its datum type being %s is not enough any more (%s)' % (w, a['span']))
                else:
                    rep.unsure('%s: whether it is %s' % (a['path'], w))
    rep.rule('the crate has no static mut, no static with interior mutability and no thread-local')
    rep.ok()
    for x in facts['statics']:
        if x['mut'] or not x['freeze'] or x['tls']:
            rep.bad('static ' + x['path'], 'global state of type %s: what one query leaves there another can see (%s)' % (x['t'], x['span']))
        else:
            rep.ok()
    if p is None:
        rep.note('the harness does not build: the instantiated code was not scanned for effects of the environment')
        return
    rep.rule('the instantiated code of every tree operation reaches no clock, environment, file, network, thread or random-state function')
    bad = ('std::time::', 'std::env::', 'std::fs::', 'std::net::', 'std::process::', 'std::thread::', 'std::hash::random',
           'std::collections::hash', 'std::sync::', 'std::os::')
    for i in p.insts:
        hit = [b for b in bad if b in i['path']]
        if hit:
            rep.unsure('the code reaches %s' % i['path'])
        else:
            rep.ok()


def c25(rep, p, facts):
    common(rep, facts)
    rep.rule('a tree type is a struct without public fields')
    for a in facts['adts']:
        if not a['tree']:
            continue
        if a['enum']:
            rep.bad(a['path'], 'a tree type with public variants can be taken apart (%s)' % a['span'])
            continue
        pub = [f for f in a['fields'] if f['pub']]
        for f in pub:
            rep.bad('%s.%s' % (a['path'], f['name']), 'public field of type %s: outside code can overwrite it (%s)' % (f['t'], a['span']))
        rep.ok(len(a['fields']) - len(pub))
    rep.rule('of all functions outside code can call, only the insertion of the tree trait takes a tree by mutable reference, and none '
             'takes it by value')
    rep.rule('insertion hands out no reference and no datum')
    n = 0
    for f in callable_(facts):
        n += 1
        how = treeinput(f)
        if isinsert(f):
            o = f['out']
            if o['datum'] or o['anyref'] or o['mutref']:
                rep.bad(f['path'], 'insertion returns %s: access into the tree (%s)' % (o['t'], f['span']))
            else:
                rep.ok()
        elif how in ('mut', 'own'):
            rep.bad(f['path'], '%s takes the tree %s and is not insertion (%s)' % (
                ', '.join(i['t'] for i in f['in']), 'by mutable reference' if how == 'mut' else 'by value', f['span']))
        else:
            rep.ok()
    rep.rule('no trait is implemented for a mutable reference to a tree, and none that takes a tree by value')
    for i in facts['impls']:
        s = i['self']
        if s['mut']:
            rep.bad('impl %s for %s' % (i['trait'], s['t']), 'mutable access to a tree (%s)' % i['span'])
        else:
            rep.ok()
    if n < 40:
        rep.unsure('only %d callable functions were found' % n)
