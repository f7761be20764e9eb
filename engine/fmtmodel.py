"""Models of text building and formatting: a text is a tuple of parts.

  fmt:l (Str)             literal text
  fmt:d (value, Str spec) a number or other value shown with the given options
  fmt:n (ref,), var=inst  a value shown by a formatting function of the analysed crates
  fmt:N (ONode,)          the display of a whole opaque node (contract)
The sink of a Formatter is heap object 'sink'; writing to it may fail."""
from dom import *
from values import *
from models import m, one, EXACT
from interp import isplit


def lit(s):
    return (Agg('fmt:l', 0, (Str(s),)),) if s else ()


def txt(parts):
    return Agg('txt', 0, tuple(parts))


def follow(ev, st, p):
    """(last pointer, value) behind references."""
    while True:
        if isinstance(p, Ptr):
            v = ev.load(st, p.obj, p.path)
        elif isinstance(p, VRef):
            v = p.v
        else:
            return None, p
        if isinstance(v, Box):
            v = v.c
        if isinstance(v, (Ptr, VRef)):
            p = v
            continue
        return p, v


def text(ev, st, p):
    _, v = follow(ev, st, p)
    if isinstance(v, Str):
        return lit(v.s)
    if isinstance(v, Agg) and v.ty == 'txt':
        return v.f
    raise Unsupported('text %r' % (v,))


def plain(parts):
    """The literal string a text is, or None."""
    if all(x.ty == 'fmt:l' for x in parts):
        return ''.join(x.f[0].s for x in parts)
    return None


def result(ev, st, c, ok):
    ty = c.destty if c.destty is not None else ev.hooks.argty(c.inst, 0)
    k = ev.p.types[ty]['k']
    if k[0] != 'adt' or k[1] != 'core::result::Result':
        raise Unsupported('result of a write')
    i = 0 if ok else 1
    return Agg(ty, i, (ev.zst(ev.p.adtinfo(ty)['variants'][i]['fields'][0][1]),))


def append(ev, st, p, parts):
    q, v = follow(ev, st, p)
    if not isinstance(q, Ptr) or not isinstance(v, Agg) or v.ty != 'txt':
        raise Unsupported('writing to %r' % (v,))
    ev.store(st, q.obj, q.path, txt(v.f + tuple(parts)))
    return q


def emit(ev, st, c, f, parts):
    """Write parts to a Formatter or a String; forks into success and failure for the former."""
    q, v = follow(ev, st, f)
    fails = isinstance(q, Ptr) and q.obj == ('H', 'sink')
    out = []
    if fails:
        s = st.copy()
        s.g['sinkerr'] = True
        s.note('the sink fails')
        out.append((s, result(ev, s, c, False)))
    cur = [st.copy()]
    for x in parts:
        nxt = []
        for s in cur:
            if x.ty == 'fmt:n':
                for r in shown(ev, s, c, x, f):
                    if r[0] == 'panic':
                        out.append(r)
                    elif r[1].var == 0:
                        nxt.append(r[0])
                    else:
                        out.append((r[0], result(ev, r[0], c, False)))
            else:
                append(ev, s, f, (x,))
                nxt.append(s)
        cur = nxt
    for s in cur:
        out.append((s, result(ev, s, c, True)))
    return out


def shown(ev, st, c, part, f):
    h = ev.hooks
    n = part.var
    if getattr(h, 'mode', None) == 'show':
        _, v = follow(ev, st, part.f[0])
        if isinstance(v, (ONode,)) or isinstance(v, Agg) and v.ty == h.sh.nodety:
            t = h.target(ev, st, part.f[0])
            if t[0] == 'o':
                h.used[n] = 'show'
                return h.do_show(ev, st, c, t[1], f, result)
    res = []
    for o in ev.call_nested(st, n, [part.f[0], f]):
        if o.kind == 'panic':
            res.append(('panic', o.st, o.val))
        else:
            res.append((o.st, o.val))
    return res


# ---- arguments -------------------------------------------------------------

@m('core::fmt::rt::Argument::<\'_>::new_display')
def new_display(ev, st, c):
    if 'shows' in c.inst:
        return one(st, Agg('fmt:n', c.inst['shows'], (c.args[0],)))
    return one(st, shownow(ev, st, c, c.args[0]))


def shownow(ev, st, c, ref):
    _, v = follow(ev, st, ref)
    if isinstance(v, Str):
        return txt(lit(v.s))
    if isinstance(v, Agg):
        if v.ty == 'txt':
            return v
        raise Unsupported('display of %r' % (v,))
    ty = c.gargs[0] if c.gargs else None
    while ty is not None and ev.p.types[ty]['k'][0] == 'ref':
        ty = ev.p.types[ty]['k'][1]
    k = ev.p.types[ty]['k'][0] if ty is not None else None
    if isinstance(v, int) and not isinstance(v, bool) and k in ('uint', 'int'):
        return Agg('fmt:d', 0, (v, Str('')))
    if isinstance(v, int) and k == 'char':
        return txt(lit(chr(v)))
    return Agg('fmt:d', 0, (v, Str('')))


@m('core::fmt::rt::Argument::<\'_>::from_usize')
def from_usize(ev, st, c):
    _, v = follow(ev, st, c.args[0])
    return one(st, Agg('fmt:c', 0, (v,)))


@m('core::fmt::Arguments::<\'a>::from_str', 'core::fmt::Arguments::<\'a>::from_str_nonconst')
def args_str(ev, st, c):
    return one(st, Agg('fmt:args', 0, text(ev, st, c.args[0])))


@m('core::fmt::Arguments::<\'a>::new')
def args_new(ev, st, c):
    _, t = follow(ev, st, c.args[0])
    _, a = follow(ev, st, c.args[1])
    if not isinstance(t, Agg) or not isinstance(a, Agg) or not all(isinstance(x, int) for x in t.f):
        raise Unsupported('format template %r' % (t,))
    b = list(t.f)
    i = arg = 0
    parts = []

    def u16(j):
        return b[j] | b[j + 1] << 8
    while True:
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            parts += lit(bytes(b[i:i + n]).decode())
            i += n
        elif n == 0x80:
            k = u16(i)
            parts += lit(bytes(b[i + 2:i + 2 + k]).decode())
            i += 2 + k
        elif n == 0xC0:
            parts += place(ev, st, a.f[arg], 0x20, None, None)
            arg += 1
        else:
            flags, width, prec = 0x20, None, None
            if n & 1:
                flags = b[i] | b[i + 1] << 8 | b[i + 2] << 16 | b[i + 3] << 24
                i += 4
            if n & 2:
                width = u16(i)
                i += 2
            if n & 4:
                prec = u16(i)
                i += 2
            if n & 8:
                arg = u16(i)
                i += 2
            if n & 16:
                width = count(a.f[width or 0])
            if n & 32:
                prec = count(a.f[prec or 0])
            parts += place(ev, st, a.f[arg], flags, width, prec)
            arg += 1
    return one(st, Agg('fmt:args', 0, tuple(parts)))


def count(x):
    if not isinstance(x, Agg) or x.ty != 'fmt:c':
        raise Unsupported('width argument %r' % (x,))
    return x.f[0]


def place(ev, st, x, flags, width, prec):
    if not isinstance(x, Agg):
        raise Unsupported('format argument %r' % (x,))
    if x.ty == 'txt':
        if width is None and prec is None:
            return x.f
        s = plain(x.f)
        if s is None or not isinstance(width or 0, int) or not isinstance(prec or 0, int):
            raise Unsupported('padded text')
        if prec is not None:
            s = s[:prec]
        n = (width or 0) - len(s)
        if n > 0:
            fill = chr(flags & 0x1fffff)
            al = flags >> 29 & 3
            left = n if al == 1 else n // 2 if al == 2 else 0
            s = fill * left + s + fill * (n - left)
        return lit(s)
    if x.ty == 'fmt:d':
        v = x.f[0]
        if flags == 0x20 and width is None and prec is None:
            if isinstance(v, int) and not isinstance(v, bool):
                return lit(str(v))
            return (x,)
        return (Agg('fmt:d', 0, (v, Str('%x %r %r' % (flags, width, prec)))),)
    if x.ty == 'fmt:n':
        return (x,)
    raise Unsupported('format argument %r' % (x,))


# ---- writing ---------------------------------------------------------------

@m('core::fmt::Formatter::<\'a>::write_fmt', '<core::fmt::Formatter<\'_> as core::fmt::Write>::write_fmt', 'core::fmt::Write::write_fmt',
   '<alloc::string::String as core::fmt::Write>::write_fmt', 'core::fmt::write')
def write_fmt(ev, st, c):
    a = c.args[1]
    if not isinstance(a, Agg) or a.ty != 'fmt:args':
        raise Unsupported('arguments %r' % (a,))
    return emit(ev, st, c, c.args[0], a.f)


@m('core::fmt::Formatter::<\'a>::write_str', '<core::fmt::Formatter<\'_> as core::fmt::Write>::write_str', 'core::fmt::Formatter::<\'a>::pad',
   '<alloc::string::String as core::fmt::Write>::write_str')
def write_str(ev, st, c):
    return emit(ev, st, c, c.args[0], text(ev, st, c.args[1]))


@m('<core::fmt::Formatter<\'_> as core::fmt::Write>::write_char', '<alloc::string::String as core::fmt::Write>::write_char')
def write_char(ev, st, c):
    if not isinstance(c.args[1], int):
        raise Unsupported('character %r' % (c.args[1],))
    return emit(ev, st, c, c.args[0], lit(chr(c.args[1])))


@m('<str as core::fmt::Display>::fmt', '<alloc::string::String as core::fmt::Display>::fmt')
def str_fmt(ev, st, c):
    return emit(ev, st, c, c.args[1], text(ev, st, c.args[0]))


@m('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def format_(ev, st, c):
    a = c.args[0]
    if not isinstance(a, Agg) or a.ty != 'fmt:args' or any(x.ty == 'fmt:n' for x in a.f):
        raise Unsupported('format of %r' % (a,))
    return one(st, txt(a.f))


@m('<T as alloc::string::ToString>::to_string', '<T as alloc::string::SpecToString>::spec_to_string',
   '<str as alloc::string::SpecToString>::spec_to_string')
def to_string(ev, st, c):
    if 'shows' in c.inst:
        raise Unsupported('to_string of a value of the crate')
    r = shownow(ev, st, c, c.args[0])
    return one(st, r if r.ty == 'txt' else txt(place(ev, st, r, 0x20, None, None)))


# ---- strings ---------------------------------------------------------------

@m('alloc::string::String::new', 'alloc::string::String::with_capacity', '<alloc::string::String as core::default::Default>::default')
def s_new(ev, st, c):
    return one(st, txt(()))


@m('alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned', '<alloc::string::String as core::convert::From<&str>>::from',
   '<alloc::string::String as core::clone::Clone>::clone', 'alloc::str::<impl str>::into_string',
   '<alloc::string::String as core::convert::From<&alloc::string::String>>::from')
def s_owned(ev, st, c):
    return one(st, txt(text(ev, st, c.args[0])))


@m('<alloc::string::String as core::ops::deref::Deref>::deref', 'alloc::string::String::as_str',
   '<alloc::string::String as core::convert::AsRef<str>>::as_ref', '<alloc::string::String as core::borrow::Borrow<str>>::borrow')
def s_deref(ev, st, c):
    return one(st, VRef(txt(text(ev, st, c.args[0]))))


@m('alloc::str::<impl str>::repeat')
def s_repeat(ev, st, c):
    n = c.args[1]
    if not isinstance(n, int):
        if not isinstance(n, Lin):
            raise Unsupported('repetition %r' % (n,))
        # the number of repetitions is not known from the depth: a mark of its own
        return one(st, (lambda t: txt((Agg('fmt:r', 0, (n,)),) + t))(text(ev, st, c.args[0])))
    return one(st, txt(text(ev, st, c.args[0]) * n))


@m('alloc::string::String::push_str')
def s_push_str(ev, st, c):
    append(ev, st, c.args[0], text(ev, st, c.args[1]))
    return one(st, Agg(c.destty, 0, ()))


@m('alloc::string::String::push')
def s_push(ev, st, c):
    if not isinstance(c.args[1], int):
        raise Unsupported('character %r' % (c.args[1],))
    append(ev, st, c.args[0], lit(chr(c.args[1])))
    return one(st, Agg(c.destty, 0, ()))


@m('<alloc::string::String as core::ops::arith::Add<&str>>::add')
def s_add(ev, st, c):
    return one(st, txt(text(ev, st, c.args[0]) + text(ev, st, c.args[1])))


@m('<alloc::string::String as core::ops::arith::AddAssign<&str>>::add_assign')
def s_addassign(ev, st, c):
    append(ev, st, c.args[0], text(ev, st, c.args[1]))
    return one(st, Agg(c.destty, 0, ()))


@m('core::str::<impl str>::len', 'alloc::string::String::len')
def s_len(ev, st, c):
    s = plain(text(ev, st, c.args[0]))
    if s is None:
        raise Unsupported('length of a text')
    return one(st, len(s.encode()))


@m('core::str::<impl str>::is_empty', 'alloc::string::String::is_empty')
def s_is_empty(ev, st, c):
    t = text(ev, st, c.args[0])
    s = plain(t)
    if s is None:
        return one(st, False)       # shown numbers are never empty
    return one(st, not s)


def numfmt(ev, st, c):
    return emit(ev, st, c, c.args[1], place(ev, st, shownow(ev, st, c, c.args[0]), 0x20, None, None))


for _t in ('usize', 'u8', 'u16', 'u32', 'u64', 'i32', 'i64'):
    EXACT['core::fmt::num::imp::<impl core::fmt::Display for %s>::fmt' % _t] = numfmt
for _t in ('f64', 'f32'):
    EXACT['core::fmt::float::<impl core::fmt::Display for %s>::fmt' % _t] = numfmt
