"""Reads LaTeX mathematics as a person would: one-token subscripts and
exponents unless grouped, juxtaposition as product, f^2(x) as a power."""
import re
import sympy as sp


class Bad(Exception):
    pass


TOK = re.compile(r'\s*(?:(\\left\b|\\right\b|\\quad\b|\\,|\\!|\\;)|(\\[A-Za-z]+|\\.)|(\d+\.\d*|\.\d+|\d+)|([A-Za-z])|(.))', re.S)
FUN = dict(sin=sp.sin, cos=sp.cos, tan=sp.tan, asin=sp.asin, acos=sp.acos, atan=sp.atan, arcsin=sp.asin, arccos=sp.acos, arctan=sp.atan, atan2=sp.atan2, exp=sp.exp, log=sp.log, sign=sp.sign)
GREEK = {'theta': 'th', 'alpha': 'alpha', 'beta': 'beta', 'gamma': 'gamma'}


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Bad('character %r' % s[i])
        i = m.end()
        if m.group(1):
            if m.group(1) in ('\\left', '\\right'):
                # the delimiter follows
                side = m.group(1)
                j = i + len(s[i:]) - len(s[i:].lstrip())
                if s[j:j + 1] == '|':
                    out.append(('abs', 'L|' if side == '\\left' else 'R|', j))
                    i = j + 1
                continue
            continue
        for k, t in ((2, 'cmd'), (3, 'num'), (4, 'let'), (5, 'op')):
            if m.group(k):
                if t == 'op' and not m.group(k).strip():
                    break
                out.append((t, m.group(k), m.start(k)))
    return out


class Reader:
    """names: the multi-letter symbol stems of the document (Px, l, ca ...)"""

    def __init__(self, text, names=()):
        self.text = text
        self.t = tokens(text)
        self.i = 0
        self.names = sorted(names, key=len, reverse=True)

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('end', '', len(self.text))

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def is_(self, v):
        return self.peek()[1] == v and self.peek()[0] != 'num'

    def need(self, v):
        if not self.is_(v):
            raise Bad('expected %s before %r' % (v, self.text[self.peek()[2]:self.peek()[2] + 20]))
        self.next()

    # -- raw groups
    def group_text(self):
        """characters of the next group or single token"""
        if self.is_('{'):
            d, out = 0, ''
            while True:
                t = self.next()
                if t[0] == 'end':
                    raise Bad('unclosed group')
                if t[1] == '{':
                    d += 1
                    if d == 1:
                        continue
                if t[1] == '}':
                    d -= 1
                    if d == 0:
                        return out
                out += t[1]
        t = self.next()
        if t[0] == 'num':            # only the first digit belongs to it
            if len(t[1]) > 1:
                self.i -= 1
                self.t[self.i] = ('num', t[1][1:], t[2] + 1)
            return t[1][0]
        return t[1]

    def group(self):
        if self.is_('{'):
            self.next()
            e = self.expr()
            self.need('}')
            return e
        t = self.group_text()
        return Reader(t, self.names).whole()

    def whole(self):
        e = self.expr()
        if self.peek()[0] != 'end':
            raise Bad('cannot read %r' % self.text[self.peek()[2]:self.peek()[2] + 30])
        return e

    # -- grammar
    def expr(self):
        sign = 1
        while self.is_('-') or self.is_('+'):
            sign *= -1 if self.next()[1] == '-' else 1
        e = sign * self.term()
        while self.is_('+') or self.is_('-'):
            op = self.next()[1]
            b = self.term()
            e = e + b if op == '+' else e - b
        return e

    STOP = set(')]},|=&+-')

    def term(self):
        e = self.factor()
        while True:
            t = self.peek()
            if t[0] == 'end' or (t[0] == 'op' and t[1] in self.STOP) or t[1] in ('R|', '\\}', '\\end', '\\\\', '\\right'):
                return e
            if t[1] in ('\\cdot', '\\times', '*'):
                self.next()
            if self.is_('/'):
                self.next()
                e = e / self.factor()
                continue
            e = e * self.factor()

    def factor(self):
        b = self.base()
        if self.is_('^'):
            self.next()
            b = b ** self.group()
        return b

    def base(self):
        t = self.next()
        if t[0] == 'num':
            # a number directly followed by a number was one number
            return sp.Rational(t[1]) if '.' not in t[1] else sp.nsimplify(t[1], rational=True)
        if t[0] == 'let':
            return self.name(t)
        if t[1] in ('(', '[', '{'):
            e = self.expr()
            self.need({'(': ')', '[': ']', '{': '}'}[t[1]])
            return e
        if t[1] in ('|', 'L|'):
            e = self.expr()
            self.need('R|' if t[1] == 'L|' else '|')
            return sp.Abs(e)
        if t[0] == 'cmd':
            n = t[1][1:]
            if n == 'pi':
                return sp.pi
            if n == 'frac':
                a = self.group()
                return a / self.group()
            if n == 'sqrt':
                k = 2
                if self.is_('['):
                    self.next()
                    k = self.expr()
                    self.need(']')
                return self.group() ** (sp.Integer(1) / k)
            if n in ('operatorname', 'mathrm', 'mathit', 'mathtt'):
                n = self.group_text()
                return self.call(n) if n in FUN else self.name(('let', n, 0))
            if n in FUN:
                return self.call(n)
            if n in GREEK:
                return self.sub(GREEK[n])
        raise Bad('cannot read %r' % self.text[t[2]:t[2] + 30])

    def name(self, t):
        """longest stem of the document's symbols starting here"""
        n = t[1]
        for s in self.names:
            if s.startswith(n) and len(s) > 1:
                k, j, have = 0, len(n), n
                while j < len(s) and self.peek(k)[0] in ('let', 'num') and s.startswith(have + self.peek(k)[1]) and \
                        self.peek(k)[2] == t[2] + j:
                    have += self.peek(k)[1]
                    j += len(self.peek(k)[1])
                    k += 1
                if have == s:
                    self.i += k
                    return self.sub(s)
        return self.sub(n)

    def sub(self, n):
        if self.is_('_'):
            self.next()
            g = self.group_text()
            return sp.Symbol(n + '_' + g)
        return sp.Symbol(n)

    def call(self, n):
        f, p = FUN[n], None
        if n == 'atan' and self.is_('_'):
            self.next()
            if self.group_text() != '2':
                raise Bad('atan with a subscript')
            f = sp.atan2
        if self.is_('^'):
            self.next()
            p = self.group()
        br = self.is_('{')
        if br:
            self.next()
        args = []
        if self.is_('('):
            self.next()
            args.append(self.expr())
            while self.is_(','):
                self.next()
                args.append(self.expr())
            self.need(')')
        else:
            args.append(self.base())
        if br:
            self.need('}')
        e = f(*args)
        return e ** p if p is not None else e


def stems(symbols):
    out = set()
    for s in symbols:
        n = str(s)
        m = re.match(r'([A-Za-z]+)(?:_.*|\d.*)?$', n)
        out.add(m.group(1) if m else n)
    return out


def read(text, symbols=()):
    return Reader(text, stems(symbols)).whole()


def read_equation(text, symbols=()):
    parts = text.replace('&', '').split('=')
    if len(parts) != 2:
        raise Bad('%d equal signs in %r' % (len(parts) - 1, text))
    return read(parts[0], symbols), read(parts[1], symbols)


def read_matrix(text, symbols=()):
    """the first matrix environment or array in the text"""
    m = re.search(r'\\begin\{(?:[bp]?matrix|array)\}(?:\{[^}]*\})?(.*?)\\end\{(?:[bp]?matrix|array)\}', text, re.S)
    if not m:
        raise Bad('no matrix')
    return sp.Matrix([[read(x, symbols) for x in row.split('&')] for row in re.split(r'\\\\', m.group(1)) if row.strip()]), m.end()
