"""A small symbolic interpreter for LLVM IR text (as written by clang -O0).

Memory is a set of objects of bytes offsets holding typed cells; doubles are
SymR values (symbolic reals), integers and pointers are concrete.  Only what
straight numeric code needs is supported, anything else raises Unsupported.
"""
import re, struct
from fractions import Fraction
import sympy as sp
from lib.smt import Unsupported
from lib.sym import SymR, snum


class Fault(Exception):
    """the program does something undefined: out of bounds, uninitialised"""


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off


class Obj:
    def __init__(self, name, size):
        self.name, self.size, self.cells = name, size, {}


def sizeof(t):
    t = t.strip()
    m = re.match(r'\[(\d+) x (.*)\]$', t)
    if m:
        return int(m.group(1)) * sizeof(m.group(2))
    if t in ('double', 'ptr', 'i64'):
        return 8
    if t in ('i32', 'float'):
        return 4
    if t in ('i8', 'i1'):
        return 1
    if t == 'i16':
        return 2
    raise Unsupported('type ' + t)


TY = r'(\[\d+ x (?:\[\d+ x [^\[\]]*\]|[^\[\]]*)\]|double|float|ptr|i\d+|void)'


def const_double(s):
    if s.startswith('0x'):
        v = struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
    else:
        v = float(s)
    return v


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            d += 1
        if ch in ')]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Module:
    def __init__(self, text):
        self.funcs = {}
        self.globals = {}
        cur = None
        for line in text.splitlines():
            line = line.split(' !')[0] if ' !' in line and not line.startswith('!') else line
            m = re.match(r'define .*?' + r'@("?[\w.$]+"?)\((.*)\)', line)
            if m and line.startswith('define'):
                args = []
                sig = line[m.start(1) + len(m.group(1)) + 1:]
                d, k = 1, 0
                while d:
                    d += {'(': 1, ')': -1}.get(sig[k], 0)
                    k += 1
                for a in split_args(sig[:k - 1]):
                    args.append((re.match(TY, a).group(1) if re.match(TY, a) else a.split()[0], a.split()[-1]))
                cur = dict(args=args, blocks={}, order=[])
                self.funcs[m.group(1)] = cur
                lab = 'entry'
                first = True
                continue
            if cur is not None:
                if line.startswith('}'):
                    cur = None
                    continue
                m = re.match(r'([\w.$-]+|"[^"]*"):', line)
                if m:
                    lab = m.group(1).strip('"')
                    cur['blocks'].setdefault(lab, [])
                    cur['order'].append(lab)
                    first = False
                    continue
                if line.strip():
                    if first:
                        cur['blocks'].setdefault(lab, [])
                        cur['order'].append(lab)
                        first = False
                    cur['blocks'][lab].append(line.strip())
                continue
            m = re.match(r'@([\w.$]+) = .*?(?:global|constant) (.*)', line)
            if m:
                self.globals['@' + m.group(1)] = m.group(2)


MATH1 = dict(sin='sin', cos='cos', tan='tan', asin='arcsin', acos='arccos', atan='arctan', sqrt='sqrt', fabs='__abs__')


class Machine:
    def __init__(self, mod, enc):
        self.m, self.enc = mod, enc
        self.g = {}
        self.steps = 0

    def num(self, v):
        return SymR(snum(v), self.enc)

    def glob(self, name):
        if name not in self.g:
            t = self.m.globals.get(name)
            if t is None:
                raise Unsupported('global ' + name)
            m = re.match(TY + r'\s+([^,]+)', t)
            ty = m.group(1)
            o = Obj(name, sizeof(ty))
            if ty == 'double':
                o.cells[0] = self.num(const_double(m.group(2)))
            elif re.match(r'i\d+$', ty):
                o.cells[0] = int(m.group(2))
            elif m.group(2) == 'zeroinitializer':
                for k in range(0, o.size, 8):
                    o.cells[k] = self.num(0.0)
            self.g[name] = o
        return Ptr(self.g[name])

    def val(self, env, ty, s):
        s = s.strip()
        if s.startswith('%'):
            return env[s]
        if s.startswith('@'):
            return self.glob(s)
        if ty == 'double':
            return self.num(const_double(s))
        if s in ('true', 'false'):
            return s == 'true'
        if re.match(r'-?\d+$', s):
            return int(s)
        if s == 'null':
            return None
        raise Unsupported('operand %s %s' % (ty, s))

    def load(self, p, ty):
        if p is None or p.off < 0 or p.off + sizeof(ty) > p.obj.size:
            raise Fault('read outside %s (offset %s of %s bytes)' % (p.obj.name, p.off, p.obj.size))
        if p.off not in p.obj.cells:
            raise Fault('read of the uninitialised variable %s' % p.obj.name)
        return p.obj.cells[p.off]

    def store(self, p, v, ty):
        if p is None or p.off < 0 or p.off + sizeof(ty) > p.obj.size:
            raise Fault('write outside %s (offset %s of %s bytes)' % (p.obj.name, p.off, p.obj.size))
        p.obj.cells[p.off] = v

    def tdouble(self, v):
        return v if isinstance(v, SymR) else self.num(v)

    def external(self, name, args):
        n = name.strip('"')
        n = re.sub(r'^llvm\.(\w+)\.f64(\..*)?$', r'\1', n)
        n = re.sub(r'^__(\w+)_finite$', r'\1', n)
        if n in MATH1:
            return getattr(self.tdouble(args[0]), MATH1[n])()
        a = [self.tdouble(x) for x in args]
        if n == 'atan2':
            return a[0].arctan2(a[1])
        if n in ('pow', 'powi'):
            e = a[1].e
            return a[0] ** (sp.nsimplify(e) if e.is_number else a[1])
        if n == 'hypot':
            return a[0].hypot(a[1])
        if n in ('fmuladd', 'fma'):
            return a[0] * a[1] + a[2]
        raise Unsupported('call of ' + name)

    def call(self, name, args, depth=0):
        f = self.m.funcs.get(name)
        if f is None:
            return self.external(name, args)
        if depth > 20:
            raise Unsupported('recursion')
        env = {}
        for (ty, a), v in zip(f['args'], args):
            env[a] = v
        lab, prev = f['order'][0], None
        while True:
            for line in f['blocks'][lab]:
                self.steps += 1
                if self.steps > 500000:
                    raise Unsupported('too many steps')
                r = self.ins(env, line, lab, prev, depth)
                if r is None:
                    continue
                if r[0] == 'ret':
                    return r[1]
                prev, lab = lab, r[1]
                break
            else:
                raise Unsupported('block without terminator')

    def ins(self, env, line, lab, prev, depth):
        line = re.sub(r', align \d+', '', line)
        line = re.sub(r' #\d+$', '', line)
        dst = None
        m = re.match(r'(%[\w.$-]+) = (.*)', line)
        if m:
            dst, line = m.groups()
        line = re.sub(r'^(tail|musttail|notail) ', '', line)
        op = line.split()[0]
        if op == 'alloca':
            ty = re.match(r'alloca ' + TY, line).group(1)
            env[dst] = Ptr(Obj(dst, sizeof(ty)))
        elif op == 'store':
            m = re.match(r'store ' + TY + r' ([^,]+), ptr (.+)', line)
            self.store(self.val(env, 'ptr', m.group(3)), self.val(env, m.group(1), m.group(2)), m.group(1))
        elif op == 'load':
            m = re.match(r'load ' + TY + r', ptr (.+)', line)
            env[dst] = self.load(self.val(env, 'ptr', m.group(2)), m.group(1))
        elif op == 'getelementptr':
            m = re.match(r'getelementptr (?:inbounds )?' + TY + r', ptr ([^,]+)(.*)', line)
            ty, p = m.group(1), self.val(env, 'ptr', m.group(2))
            off = p.off
            for k, a in enumerate(split_args(m.group(3).lstrip(', '))):
                i = self.val(env, 'i64', a.split()[-1])
                if k:
                    ty = re.match(r'\[\d+ x (.*)\]$', ty).group(1)
                off += i * sizeof(ty)
            env[dst] = Ptr(p.obj, off)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            m = re.match(r'f\w+ (?:\w+ )*double ([^,]+), (.+)', line)
            a, b = self.val(env, 'double', m.group(1)), self.val(env, 'double', m.group(2))
            env[dst] = {'fadd': a + b, 'fsub': a - b, 'fmul': a * b}[op] if op != 'fdiv' else a / b
        elif op == 'fneg':
            env[dst] = -self.val(env, 'double', line.split()[-1])
        elif op == 'fcmp':
            m = re.match(r'fcmp (?:\w+ )*?(\w+) double ([^,]+), (.+)', line)
            p = m.group(1)
            a, b = self.val(env, 'double', m.group(2)), self.val(env, 'double', m.group(3))
            p2 = p[1:]
            if p2 == 'gt':
                r = a > b
            elif p2 == 'ge':
                r = a >= b
            elif p2 == 'lt':
                r = a < b
            elif p2 == 'le':
                r = a <= b
            elif p2 == 'eq':
                r = a == b
            elif p2 == 'ne':
                r = a != b
            elif p in ('ord', 'true'):
                r = True
            elif p in ('uno', 'false'):
                r = False
            else:
                raise Unsupported(line)
            env[dst] = bool(r)
        elif op == 'icmp':
            m = re.match(r'icmp (\w+) (\w+) ([^,]+), (.+)', line)
            a, b = self.val(env, m.group(2), m.group(3)), self.val(env, m.group(2), m.group(4))
            env[dst] = {'eq': a == b, 'ne': a != b, 'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b,
                        'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b}[m.group(1)]
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'sdiv', 'srem'):
            m = re.match(r'\w+ (?:nsw |nuw |exact )*(\w+) ([^,]+), (.+)', line)
            a, b = int(self.val(env, m.group(1), m.group(2))), int(self.val(env, m.group(1), m.group(3)))
            if op in ('sdiv', 'srem'):
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                r = q if op == 'sdiv' else a - q * b
            else:
                r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
            env[dst] = bool(r & 1) if m.group(1) == 'i1' else r
        elif op in ('zext', 'sext', 'trunc'):
            m = re.match(r'\w+ (?:nuw |nsw |nneg )*(\w+) (\S+) to (\w+)', line)
            v = self.val(env, m.group(1), m.group(2))
            v = int(v)
            if op == 'sext' and m.group(1) == 'i1':
                v = -v
            if op == 'trunc':
                v &= (1 << int(m.group(3)[1:])) - 1
            env[dst] = bool(v) if m.group(3) == 'i1' else v
        elif op in ('sitofp', 'uitofp'):
            m = re.match(r'\w+ (?:nneg )?(\w+) (\S+) to double', line)
            env[dst] = self.num(int(self.val(env, m.group(1), m.group(2))))
        elif op == 'select':
            m = re.match(r'select i1 ([^,]+), (\w+) ([^,]+), (\w+) (.+)', line)
            env[dst] = self.val(env, m.group(2), m.group(3)) if self.val(env, 'i1', m.group(1)) else self.val(env, m.group(4), m.group(5))
        elif op == 'phi':
            ty = re.match(r'phi ' + TY, line).group(1)
            for v, l in re.findall(r'\[ ([^,\]]+), %([\w.$-]+) \]', line):
                if l == prev:
                    env[dst] = self.val(env, ty, v)
                    break
            else:
                raise Unsupported(line)
        elif op == 'br':
            m = re.match(r'br label %([\w.$-]+)', line)
            if m:
                return ('br', m.group(1))
            m = re.match(r'br i1 ([^,]+), label %([\w.$-]+), label %([\w.$-]+)', line)
            return ('br', m.group(2) if self.val(env, 'i1', m.group(1)) else m.group(3))
        elif op == 'ret':
            m = re.match(r'ret (\w+)(?: (.+))?', line)
            return ('ret', None if m.group(1) == 'void' else self.val(env, m.group(1), m.group(2)))
        elif op == 'call':
            m = re.match(r'call (?:[\w() ]+? )?' + TY + r'(?: \([^)]*\))? @("?[\w.$]+"?)\((.*)\)', line)
            if not m:
                raise Unsupported(line)
            if m.group(2).startswith('llvm.dbg') or m.group(2).startswith('llvm.lifetime'):
                return None
            args = []
            for a in split_args(m.group(3)):
                t = re.match(TY, a)
                if not t:
                    raise Unsupported(line)
                args.append(self.val(env, t.group(1), a.split()[-1]))
            r = self.call(m.group(2), args, depth + 1)
            if dst:
                env[dst] = r
        elif op == 'unreachable':
            raise Fault('end of a function without a return value')
        else:
            raise Unsupported('instruction ' + line)
        return None
