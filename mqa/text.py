"""Text of known length whose characters are known or belong to unknown fields.

A field is a run of characters about which only this is known: whether it is a number (then its value is a
symbolic integer), a base-36 digit (value 0 to 35) or free text; it is never all blank."""
from .interp import Val, Opq, S, PyExc, SliceV, mkstr, Unsupported
from .domain import Num, vkey, num
from .models import Piece


class Field(object):
    def __init__(self, name, width, value=None, base=None):
        self.name, self.width, self.value, self.base = name, width, value, base


def cells(field):
    return [(field, i) for i in range(field.width)]


def text(cs):
    cs = list(cs)
    if all(isinstance(c, str) for c in cs):
        return ''.join(cs)
    return Text(cs)


class Text(Val):

    def __init__(self, cs, stripped=''):
        self.cs = list(cs)
        self.stripped = stripped        # which ends have had blanks removed

    def groups(self):
        out = []
        for c in self.cs:
            if isinstance(c, str):
                if out and isinstance(out[-1], str):
                    out[-1] += c
                else:
                    out.append(c)
            else:
                f, i = c
                if out and not isinstance(out[-1], str) and out[-1][0] is f and out[-1][2] == i:
                    out[-1] = (f, out[-1][1], i + 1)
                else:
                    out.append((f, i, i + 1))
        return out

    def vkey(self):
        r = []
        for g in self.groups():
            if isinstance(g, str):
                r.append(repr(g))
            else:
                f, a, b = g
                r.append('<%s%s>' % (f.name, '' if (a, b) == (0, f.width) else ' %d:%d' % (a, b)))
        return 'text(' + '~'.join(r) + ')' + self.stripped

    def vsyms(self):
        return frozenset(c[0].name for c in self.cs if not isinstance(c, str))

    def __repr__(self):
        return self.vkey()

    def whole(self):
        """the field this text consists of, known blanks around it aside"""
        gs = self.groups()
        fs = [g for g in gs if not isinstance(g, str)]
        if len(fs) == 1 and all(not isinstance(g, str) or not g.strip() for g in gs):
            f, a, b = fs[0]
            if (a, b) == (0, f.width):
                return f
        return None

    def solid(self):
        """contains something that is not blank for certain"""
        for g in self.groups():
            if isinstance(g, str):
                if g.strip():
                    return True
            elif g[2] - g[1] == g[0].width:
                return True
        return False

    # ---- hooks of the interpreter
    def lenop(self, run):
        if self.stripped:
            raise Unsupported('length of stripped text')
        return len(self.cs)

    def getitemop(self, run, i):
        if self.stripped:
            raise Unsupported('part of stripped text')
        if isinstance(i, SliceV):
            a, b, c = run.slice_bounds(i, len(self.cs))
            return text(self.cs[a:b:c])
        return text([self.cs[run.split_index(i, len(self.cs))]])

    def truthop(self, run):
        return self.solid() if self.stripped else len(self.cs) > 0

    def eqop(self, run, o):
        o = run.force(o)
        if isinstance(o, Text):
            if o.vkey() == self.vkey():
                return True
            if len(o.cs) != len(self.cs) and not (o.stripped or self.stripped):
                return False
        elif isinstance(o, str):
            if self.solid() and not o.strip():
                return False
            if not self.stripped:
                if len(o) != len(self.cs):
                    return False
                if any(isinstance(c, str) and c != d for c, d in zip(self.cs, o)):
                    return False
        elif o is None or run.isnum(o):
            return False
        return run.fact('%s==%s' % tuple(sorted([self.vkey(), vkey(o)])), self.vsyms())

    def binop(self, run, op, o, swapped):
        if op == 'Add':
            x = list(self.cs)
            if self.stripped:
                raise Unsupported('joining stripped text')
            if isinstance(o, str):
                return text(list(o) + x if swapped else x + list(o))
            if isinstance(o, Text):
                return text(o.cs + x if swapped else x + o.cs)
            if isinstance(o, (S, Opq)):
                return mkstr([o, self] if swapped else [self, o])
            raise PyExc('TypeError', 'str + non-str')
        return NotImplemented

    def containsop(self, run, item):
        item = run.force(item)
        if isinstance(item, str) and all(isinstance(c, str) for c in self.cs):
            return item in ''.join(self.cs)
        if isinstance(item, str) and item in ('\n', '\r'):
            return item in [c for c in self.cs if isinstance(c, str)]
        return run.fact('%s in %s' % (vkey(item), self.vkey()), self.vsyms())

    def intop(self, run, base=10):
        f = self.whole()
        if f is None:
            if not any(not isinstance(c, str) for c in self.cs):
                raise Unsupported('int of text')
            k = 'int(%s)' % self.vkey()
            if not run.fact('valid ' + k, self.vsyms()):
                raise PyExc('ValueError')
            from .models import fnatom
            return fnatom(k, (), True)
        if f.value is not None and not getattr(f.value, 'isint', True):
            raise PyExc('ValueError')       # a decimal fraction
        if f.value is None or (f.base or 10) != base:
            if f.value is not None and f.base == 36 and base == 10:
                # a single digit is also a decimal number when below ten
                if run.order('Lt', f.value, 10):
                    return f.value
                raise PyExc('ValueError')
            k = 'int(%s,%d)' % (self.vkey(), base)
            if not run.fact('valid ' + k, self.vsyms()):
                raise PyExc('ValueError')
            from .models import fnatom
            return fnatom(k, (), True)
        return f.value

    def floatop(self, run):
        f = self.whole()
        if f is not None and f.value is not None and f.base in (None, 10):
            return Num(num(f.value).p, False)
        if not self.cs:
            raise PyExc('ValueError')
        if not any(not isinstance(c, str) for c in self.cs):
            raise Unsupported('float of text')
        k = 'float(%s)' % self.vkey()
        if not run.fact('valid ' + k, self.vsyms()):
            raise PyExc('ValueError')
        from .models import fnatom
        return fnatom(k, (), False)

    istext = True

    def iterop(self, run):
        return [text([c]) for c in self.cs]

    def methop(self, run, name, args, kw):
        a = [run.force(x) for x in args]
        if name == 'isspace':
            if self.stripped:
                return False if self.solid() else run.fact(self.vkey() + '.isspace()', self.vsyms())
            if not self.cs:
                return False
            if self.solid():
                return False
            return run.fact(self.vkey() + '.isspace()', self.vsyms())
        if name in ('strip', 'rstrip', 'lstrip'):
            chars = a[0] if a else None
            cs = list(self.cs)
            ends = ''
            if name in ('strip', 'rstrip'):
                while cs and isinstance(cs[-1], str) and (cs[-1].isspace() if chars is None else cs[-1] in chars):
                    cs.pop()
                if cs and not isinstance(cs[-1], str) and (chars is None or set(chars) - set('\r\n')):
                    ends += 'r'
            if name in ('strip', 'lstrip'):
                while cs and isinstance(cs[0], str) and (cs[0].isspace() if chars is None else cs[0] in chars):
                    cs.pop(0)
                if cs and not isinstance(cs[0], str) and (chars is None or set(chars) - set('\r\n')):
                    ends += 'l'
            if not ends:
                return text(cs)
            return Text(cs, ends)
        if name in ('ljust', 'rjust') and isinstance(a[0], int) and not self.stripped:
            pad = [a[1] if len(a) > 1 else ' '] * max(0, a[0] - len(self.cs))
            return text(self.cs + pad if name == 'ljust' else pad + self.cs)
        if name in ('startswith', 'endswith') and isinstance(a[0], str) and not self.stripped:
            cs = self.cs[:len(a[0])] if name == 'startswith' else self.cs[-len(a[0]):]
            return Text(cs).eqop(run, a[0]) if cs else a[0] == ''
        if name == 'split' and a and isinstance(a[0], str) and len(a[0]) == 1 and a[0] != ' ' and not self.stripped:
            # fields hold no separator
            from .interp import AList
            out = [[]]
            for c in self.cs:
                if c == a[0] and (len(a) < 2 or len(out) <= a[1]):
                    out.append([])
                else:
                    out[-1].append(c)
            return AList([text(x) for x in out])
        if name in ('encode', 'decode'):
            return self
        if name == 'splitlines' and not self.stripped:
            from .interp import AList
            cs = self.cs[:-1] if self.cs[-1] == '\n' else self.cs
            if '\n' not in cs:
                return AList([text(cs)])
        raise Unsupported('%s of text with unknown characters' % name)

    def formatted(self, run, left, width):
        """padded to a width; never cut"""
        if self.stripped:
            raise Unsupported('padding stripped text')
        pad = [' '] * max(0, width - len(self.cs))
        return text(self.cs + pad if left else pad + self.cs)
