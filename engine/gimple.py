#!/usr/bin/env python3
"""Front end: GCC GIMPLE (SSA, release_ssa stage) text dumps -> a small IR.

The dump is produced by the same compiler front ends and flags that build the
library (gcc, g++, gfortran 13); nothing is re-written by hand.  Everything the
parser does not understand becomes an explicit ('unsupported', text)
instruction, which the verifier refuses to execute (a tool limit, never a
verdict).
"""
import os, re, struct, subprocess, sys, tempfile
from collections import OrderedDict

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- types
_uid = re.compile(r'D\.\d+')
def clean_type(t):
    t = _uid.sub('', t)
    t = re.sub(r'\b(const|volatile|restrict|struct|static|register)\b', ' ', t)
    t = re.sub(r'\s+', ' ', t).strip()
    return t
SCALARS = {
 'double': 'f64', 'real(kind=8)': 'f64', 'float': 'f32', 'real(kind=4)': 'f32', 'long double': 'f80', 'real(kind=10)': 'f80',
 'complex double': 'c64', 'complex(kind=8)': 'c64', 'complex float': 'c32', 'complex(kind=4)': 'c32',
 'complex long double': 'c80', 'complex(kind=10)': 'c80',
 '_Complex double': 'c64', '_Complex float': 'c32', '_Complex long double': 'c80',
 'int': 's32', 'integer(kind=4)': 's32', 'long int': 's64', 'integer(kind=8)': 's64', 'int64_t': 's64', 'int32_t': 's32',
 'unsigned int': 'u32', 'long unsigned int': 'u64', 'uint64_t': 'u64', 'uint32_t': 'u32', 'size_t': 'u64', 'sizetype': 'u64',
 'short int': 's16', 'short unsigned int': 'u16', 'char': 's8', 'signed char': 's8', 'unsigned char': 'u8',
 'long long int': 's64', 'long long unsigned int': 'u64', 'ssizetype': 's64', '__int64_t': 's64', 'ptrdiff_t': 's64',
 'bool': 'bool', '_Bool': 'bool', 'logical(kind=4)': 'bool', 'logical(kind=1)': 'bool', 'void': 'void', 'unsigned long': 'u64', 'long': 's64',
}
SIZE = {'f32': 4, 'f64': 8, 'f80': 16, 'c32': 8, 'c64': 16, 'c80': 32, 's8': 1, 'u8': 1, 's16': 2, 'u16': 2, 's32': 4, 'u32': 4,
        's64': 8, 'u64': 8, 'bool': 1, 'ptr': 8}
RE_STRUCT = re.compile(r'struct complexD\.(\d+)|struct complex\b')

def parse_type(t, structs):
    """returns (kind, elem, dims): kind in scalar name | 'ptr' | 'array' | 'unk' """
    m = re.search(r'\[(\d+)\]', t)
    dims = [int(x) for x in re.findall(r'\[(\d+)\]', t)]
    base = re.sub(r'\[\d*\]', '', t)
    isptr = ('*' in base) or ('&' in base)
    base0 = base.replace('*', ' ').replace('&', ' ').replace('(', ' (').strip()
    base0 = re.sub(r'\(\s*\)', '', base0).strip()
    ms = re.search(r'complexD\.(\d+)', base0) if 'struct' in base0 else None
    sc = None
    if ms:
        sc = structs.get(ms.group(1))
        if sc is None: sc = 'struct:' + ms.group(1)
    else:
        b = clean_type(base0)
        b = re.sub(r'\s*\(', '(', b)
        sc = SCALARS.get(b, 'unk')
    if isptr: return ('ptr', sc, dims)
    if dims: return ('array', sc, dims)
    return (sc, sc, [])

# ---------------------------------------------------------------- tokens
NUM = re.compile(r'^\s*-?(\d+\.\d*e[-+]?\d+|0\.0|Inf|Nan|QNan|SNan)$', re.I)
INT = re.compile(r'^-?\d+$')
SSA = re.compile(r'^([A-Za-z_.$<][\w.$>]*)?_(\d+)(\(D\))?$')
VAR = re.compile(r'^(<retval>|[A-Za-z_.$][\w.$]*?D\.\d+|D\.\d+)$')

def split_top(s, sep=','):
    out, depth, cur = [], 0, ''
    i = 0
    while i < len(s):
        c = s[i]
        if c in '([{': depth += 1
        elif c in ')]}': depth -= 1
        elif c == '<' and (s[:i].endswith('EXPR ') or s[:i].endswith('MEM ') or s[i:].startswith('<retval>')): depth += 1
        elif c == '>' and depth > 0 and not s[:i].endswith('-'): depth -= 1
        if depth == 0 and s.startswith(sep, i):
            out.append(cur.strip()); cur = ''; i += len(sep); continue
        cur += c; i += 1
    out.append(cur.strip())
    return out

def find_close(s, i, o, c):
    d = 0
    while i < len(s):
        if s[i] == o: d += 1
        elif s[i] == c and not (c == '>' and s[i-1] == '-'):
            d -= 1
            if d == 0: return i
        i += 1
    raise Unsupported('unbalanced ' + s)

class Func:
    def __init__(self, name, pretty):
        self.name, self.pretty = name, pretty
        self.params = []      # [(reg, type)]
        self.rettype = 'unk'
        self.vars = OrderedDict()   # memory variables: name -> type tuple
        self.ssatype = {}
        self.blocks = OrderedDict() # n -> dict(phis, ins, term)
        self.order = []
        self.file = None
        self.header = ''

class Parser:
    def __init__(self, text, fname, src=None, repo='/repo'):
        self.text, self.fname, self.src, self.repo = text, fname, src, repo
        self.gcache = {}
        self.structs = {}
        self.funcs = OrderedDict()

    # -- operand / lvalue parsing -------------------------------------
    def lvalue(self, s, f):
        """returns ('reg', name) or ('mem', base, off, [(idxoperand, scale)], typ)
        base = ('var', name) | ('ptr', operand)"""
        s = s.strip()
        m = re.match(r'^(REALPART_EXPR|IMAGPART_EXPR) <(.*)>$', s)
        if m:
            base = self.lvalue(m.group(2), f)
            if base[0] == 'reg': return ('part', m.group(1)[0], base)
            _, b, off, idx, ty = base
            st = {'c32': 'f32', 'c64': 'f64', 'c80': 'f80'}.get(ty, 'unk')
            if m.group(1)[0] == 'I':
                if st == 'unk': return ('mem', b, ('im', off), idx, 'unk')
                off = off + SIZE[st] if isinstance(off, int) else off
            return ('mem', b, off, idx, st)
        if SSA.match(s) and not VAR.match(s):
            return ('reg', self.ssa(s))
        mm = re.match(r'^(.*)\._M_valueD\.\d+$', s)
        if mm: return self.lvalue(mm.group(1), f)
        if s == '<retval>': return ('mem', ('var', '<retval>'), 0, [], f.rettype if f.rettype != 'unk' else 'unk')
        if VAR.match(s):
            t = f.vars.get(s)
            ty = t[0] if t else 'unk'
            return ('mem', ('var', self.varname(s)), 0, [], ty if ty != 'array' else ('array', t[1], t[2]))
        # struct member of the complex wrapper
        m = re.match(r'^(.*)->_M_valueD\.\d+$', s)
        if m:
            p = m.group(1)
            ty = self.ptr_elem(p, f)
            return ('mem', ('ptr', self.operand(p, f)), 0, [], ty)
        m = re.match(r'^(.*)\._M_valueD\.\d+$', s)
        if m: return self.lvalue(m.group(1), f)
        if s.startswith('MEM'):
            m = re.match(r'^MEM\[\((.*?)\)(.+?)( \+ (-?\d+)B?)?\]$', s)
            if m:
                ty = parse_type(m.group(1), self.structs)
                return ('mem', ('ptr', self.operand(m.group(2), f)), int(m.group(4) or 0), [], ty[1])
            m = re.match(r'^MEM <(.*?)> \[\((.*?)\)(.+?)( \+ (-?\d+)B?)?\]$', s)
            if m:
                ty = parse_type(m.group(1), self.structs)
                return ('mem', ('ptr', self.operand(m.group(3), f)), int(m.group(5) or 0), [], ty[1])
            raise Unsupported('MEM ' + s)
        if s.endswith(']'):
            # array indexing: take last [..]
            d = 0; i = len(s) - 1
            while i >= 0:
                if s[i] == ']': d += 1
                elif s[i] == '[':
                    d -= 1
                    if d == 0: break
                i -= 1
            base, idx = s[:i], s[i+1:-1]
            if base.startswith('(*') and base.endswith(')'):
                p = base[2:-1]
                pt = self.ptr_type(p, f)
                if not pt: raise Unsupported('array ptr ' + s)
                ty, dims = pt
                b = ('mem', ('ptr', self.operand(p, f)), 0, [], ('array', ty, dims))
            else:
                b = self.lvalue(base, f)
            if not (b[0] == 'mem' and isinstance(b[4], tuple)):
                # global array without declared type in this function
                if b[0] == 'mem' and b[4] == 'unk' and b[1][0] == 'var':
                    ga = self.global_array(b[1][1])
                    b = ('mem', b[1], 0, [], ('array', ga[0], ga[1]))
                else: raise Unsupported('index ' + s)
            _, bb, off, ix, (_, ety, dims) = b
            scale = SIZE[ety]
            for dd in dims[1:]: scale *= dd
            o = self.operand(idx, f)
            if o[0] == 'i': off += o[1] * scale; ix2 = ix
            else: ix2 = ix + [(o, scale)]
            rest = dims[1:]
            return ('mem', bb, off, ix2, ('array', ety, rest) if rest else ety)
        if s.startswith('*'):
            p = s[1:]
            if re.match(r'^\.LC\d+', p):
                return ('mem', ('var', '*' + _uid.sub('', p)), 0, [], 'unk')
            pt = self.ptr_type(p, f)
            ty = pt[0] if pt else 'unk'
            if pt and pt[1]: ty = ('array', pt[0], pt[1])
            return ('mem', ('ptr', self.operand(p, f)), 0, [], ty)
        raise Unsupported('lvalue ' + s)

    def global_array(self, v):
        name = _uid.sub('', v)
        if name not in self.gcache:
            dem = subprocess.run(['c++filt', name], stdout=subprocess.PIPE, text=True).stdout.strip()
            with tempfile.TemporaryDirectory() as td:
                o = os.path.join(td, 'x.o')
                lang = lang_of(self.src)
                inc = {'cpp': ['-I%s/src/cpp' % self.repo], 'c': ['-I%s/src/c' % self.repo], 'f90': ['-J' + td]}[lang]
                subprocess.run(FLAGS[lang] + inc + ['-g', '-c', self.src, '-o', o], check=True)
                r = subprocess.run(['gdb', '-batch', '-nx', '-ex', "whatis '%s'" % dem, o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
            m = re.search(r'type = (.*)$', r, re.M)
            self.gcache[name] = None
            if m:
                t = parse_type(m.group(1).replace(' [', '['), self.structs)
                if t[0] == 'array' and t[1] in SIZE: self.gcache[name] = (t[1], t[2])
        g = self.gcache[name]
        if not g: raise Unsupported('type of global ' + name)
        return g
    def ptr_type(self, p, f):
        t = self.type_of(p, f)
        if t and t[0] == 'ptr': return (t[1], t[2])
        return None
    def ptr_elem(self, p, f):
        t = self.ptr_type(p, f)
        return t[0] if t else 'unk'
    def type_of(self, s, f):
        s = s.strip()
        if s.endswith('(D)'): s2 = s[:-3]
        else: s2 = s
        if s2 in f.ssatype: return f.ssatype[s2]
        m = SSA.match(s)
        if m and m.group(1):
            return f.basetype.get(m.group(1))
        return None
    def varname(self, s):
        return s
    def ssa(self, s):
        return s.replace('(D)', '')

    def operand(self, s, f):
        s = s.strip()
        if NUM.match(s):
            return ('f', s.replace(' ', '').replace('QN', 'N').replace('SN', 'N'))
        if INT.match(s): return ('i', int(s))
        m = re.match(r'^__complex__ \(([^()]*)\)$', s)
        if m:
            a, b = split_top(m.group(1))
            return ('c', self.operand(a, f), self.operand(b, f))
        if s in ('true', '.TRUE.'): return ('i', 1)
        if s in ('false', '.FALSE.'): return ('i', 0)
        if s.startswith('&'):
            lv = s[1:]
            if lv.startswith('"'): return ('str', lv)
            l = self.lvalue(lv, f)
            if l[0] != 'mem': raise Unsupported('addr ' + s)
            return ('addr', l)
        if SSA.match(s) and not VAR.match(s): return ('r', self.ssa(s))
        l = self.lvalue(s, f)
        if l[0] == 'reg': return ('r', l[1])
        return ('load', l)

    BIN = [' + ', ' - ', ' * ', ' / ', ' % ', ' & ', ' | ', ' ^ ', ' << ', ' >> ', ' == ', ' != ', ' <= ', ' >= ', ' < ', ' > ',
           ' u== ', ' u<= ', ' u>= ', ' u< ', ' u> ', ' ltgt ', ' unord ', ' ord ', ' <> ', ' u<> ']
    NAMES = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'mod', '&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr',
             '==': 'eq', '!=': 'ne', '<=': 'le', '>=': 'ge', '<': 'lt', '>': 'gt', 'u==': 'ueq', 'u<=': 'ule', 'u>=': 'uge',
             'u<': 'ult', 'u>': 'ugt', 'ltgt': 'ltgt', 'unord': 'unord', 'ord': 'ord', '<>': 'ltgt'}

    def rvalue(self, s, f):
        """returns (op, args) ; op 'mov' for plain operand"""
        s = s.strip()
        while s.startswith('((') and s.endswith('))') and find_close(s, 0, '(', ')') == len(s) - 1:
            s = s[2:-2].strip()
        m = re.match(r'^([A-Za-z_.$][\w.$]*(?:D\.\d+)?|\.[A-Z_0-9]+) \((.*)\)(;? *\[.*\])*$', s)
        if m and not s.startswith('__complex__') :
            name = m.group(1)
            args = [self.operand(a, f) for a in split_top(m.group(2))] if m.group(2).strip() else []
            return ('call', _uid.sub('', name), args)
        m = re.match(r'^(ABS_EXPR|MIN_EXPR|MAX_EXPR|COMPLEX_EXPR|CONJ_EXPR|FMA_EXPR|ABSU_EXPR|VIEW_CONVERT_EXPR)\s*<(.*)>$', s)
        if m:
            op = {'ABS_EXPR': 'abs', 'MIN_EXPR': 'min', 'MAX_EXPR': 'max', 'COMPLEX_EXPR': 'cplx', 'CONJ_EXPR': 'conj'}.get(m.group(1))
            if not op: raise Unsupported(s)
            return (op, [self.operand(a, f) for a in split_top(m.group(2))])
        m = re.match(r'^(REALPART_EXPR|IMAGPART_EXPR) <(.*)>$', s)
        if m:
            g2 = m.group(2).strip()
            if SSA.match(g2) and not VAR.match(g2) and not re.search(r'_M_valueD\.\d+$', g2):
                inner = self.operand(g2, f)
                return ('re' if m.group(1)[0] == 'R' else 'im', [inner])
            l = self.lvalue(s, f)
            return ('mov', [('load', l)])
        # conditional expression  a ? b : c
        parts = split_top(s, ' ? ')
        if len(parts) == 2:
            b, c = split_top(parts[1], ' : ')
            cond = self.rvalue(parts[0], f)
            return ('cond', cond, [self.operand(b, f), self.operand(c, f)])
        for b in self.BIN:
            ps = split_top(s, b)
            if len(ps) == 2:
                return (self.NAMES[b.strip()], [self.operand(ps[0], f), self.operand(ps[1], f)])
        m = re.match(r'^\(([^()]*(?:\(kind=\d+\))?[^()]*)\) (.+)$', s)
        if m:
            return ('cvt', parse_type(m.group(1), self.structs)[0], [self.operand(m.group(2), f)])
        if s.startswith('-') and not NUM.match(s) and not INT.match(s): return ('neg', [self.operand(s[1:], f)])
        if s.startswith('~'): return ('bnot', [self.operand(s[1:], f)])
        if s.startswith('!'): return ('lnot', [self.operand(s[1:], f)])
        return ('mov', [self.operand(s, f)])

    # -- statements ----------------------------------------------------
    def stmt(self, s, f):
        """s without trailing ';'"""
        if re.search(r'=\s*\{v\} \{CLOBBER(\(eol\))?\}$', s): return None
        if s.startswith('# DEBUG') or s.startswith('#'): return None
        if s.startswith('return'):
            r = s[6:].strip()
            return ('ret', self.operand(r, f) if r else None)
        if re.match(r'^__builtin_unreachable', s): return ('unreachable',)
        m = re.match(r'^(.*?) = (.*)$', s)
        isassign = False
        if m and not re.match(r'^[A-Za-z_.$][\w.$]* \(', s):
            isassign = True
        if isassign:
            lhs, rhs = m.group(1).strip(), m.group(2).strip()
            l = self.lvalue(lhs, f)
            rhs = re.sub(r'\s*\[(return slot optimization|tail call|must tail call)\]', '', rhs).rstrip(';').strip()
            r = self.rvalue(rhs, f)
            return ('set', l, r)
        s2 = re.sub(r'\s*\[(return slot optimization|tail call|must tail call)\]', '', s).rstrip(';').strip()
        r = self.rvalue(s2, f)
        if r[0] == 'call': return ('set', None, r)
        raise Unsupported(s)

    def scan_structs(self):
        # complex<T> struct uid -> scalar type, from wrapper accesses
        cand = {}
        for m in re.finditer(r'struct complexD\.(\d+) std::complex<(float|double|long double)>', self.text):
            cand[m.group(1)] = m.group(2)
        # member functions: "complexD.N * const thisD" inside std::complex<T>::
        cur = None
        for line in self.text.split('\n'):
            if line.startswith(';; Function'):
                m = re.search(r'\((_Z\S+),', line); mm = m.group(1) if m else ''
                c = None
                if 'St7complexIf' in mm and 'complexId' not in mm and 'complexIe' not in mm: c = 'float'
                elif 'St7complexId' in mm and 'complexIf' not in mm and 'complexIe' not in mm: c = 'double'
                elif 'St7complexIe' in mm and 'complexIf' not in mm and 'complexId' not in mm: c = 'long double'
                else:
                    m2 = re.search(r'Function std::complex<(float|double|long double)>', line)
                    if m2 and not re.search(r'St7complexI.*St7complexI', mm): c = m2.group(1)
                cur = c
            elif cur and 'struct complexD.' in line and (' (' in line or line.startswith('struct')):
                for m in re.finditer(r'struct complexD\.(\d+)', line): cand.setdefault(m.group(1), cur)
        for k, v in cand.items():
            self.structs[k] = {'float': 'c32', 'double': 'c64', 'long double': 'c80'}[v]

    def parse(self):
        self.scan_structs()
        chunks = re.split(r'^;; Function ', self.text, flags=re.M)[1:]
        for ch in chunks:
            head, _, body = ch.partition('\n')
            m = re.match(r'^(.*?) \(([^\s,]+), funcdef_no', head)
            if not m: continue
            f = Func(m.group(2), m.group(1)); f.file = self.fname
            f.basetype = {}
            try:
                self.parse_func(f, body)
            except Unsupported as e:
                f.blocks = OrderedDict(); f.order = [2]
                f.blocks[2] = dict(phis=[], ins=[('unsupported', str(e))], term=('unreachable',))
            self.funcs[f.name] = f

    def parse_func(self, f, body):
        lines = body.split('\n')
        i = 0
        # signature: the line before '{'
        while i < len(lines) and lines[i].strip() != '{': i += 1
        sig = ' '.join(l.strip() for l in lines[:i] if l.strip() and not l.startswith('Released') and not l.startswith(';;') and not l.strip().startswith('__attribute__'))
        f.header = sig
        # parameter list is the last (...) group
        k = sig.rfind(')')
        d = 0; j = k
        while j >= 0:
            if sig[j] == ')': d += 1
            elif sig[j] == '(':
                d -= 1
                if d == 0: break
            j -= 1
        plist = sig[j+1:k]
        mret = re.match(r'^(.*?)\s+\S+ \(', sig[:j+1])
        rett = sig[:j].strip()
        rett = rett[:rett.rfind(' ')] if ' ' in rett else rett
        # C++ names contain spaces only within templates; be tolerant
        mm = re.match(r'^((?:const )?(?:struct complexD\.\d+|(?:long |unsigned |complex )*[A-Za-z_]\w*?(?:\(kind=\d+\))?(?:D\.\d+))(?: [*&])?)', sig)
        f.rettype = parse_type(mm.group(1), self.structs)[0] if mm else 'unk'
        params = []
        for p in split_top(plist):
            p = p.strip()
            if not p or p == 'void': continue
            m = re.search(r'([A-Za-z_.$][\w.$]*?)(D\.\d+)(\)?\s*(\[\d+\])*)$', p)
            if not m:
                params.append((p, ('unk', 'unk', []))); continue
            nm = m.group(1); t = p[:m.start()] + ' ' + (m.group(4) or '')
            m3 = re.search(r'\(([&*])\s*' + re.escape(m.group(0)), p)
            arr = re.search(r'\)\s*((\[\d+\])+)\s*$', p)
            m4 = re.match(r'^(.*)\(([&*]) ?(\w+)D\.\d+\)(\[\d+\])+$', p)
            ty = parse_type(p[:m.start()] + ''.join(re.findall(r'\[\d+\]', p[m.start():])), self.structs)
            params.append((nm, ty, m.group(1) + m.group(2)))
            f.basetype[nm] = ty
            f.vars[m.group(1) + m.group(2)] = ty
        f.pinfo = params
        i += 1
        # declarations
        while i < len(lines):
            l = lines[i].strip()
            if l.startswith('<bb') or l == '}': break
            m = re.match(r'^(.*?)\s*((?:[A-Za-z_.$][\w.$]*?)?D\.\d+|[A-Za-z_.$][\w.$]*_\d+|_\d+)((\[\d+\])*)(\s*=\s*(.*))?;$', l)
            m2 = re.match(r'^(.*) (\S+?)((?:\[\d+\])*)(\s*=\s*.*)?;$', l)
            if m2:
                nm = m2.group(2); ty = parse_type(m2.group(1) + m2.group(3), self.structs)
                init = m2.group(4)
                if SSA.match(nm) and not VAR.match(nm): f.ssatype[nm] = ty
                else:
                    f.vars[nm] = ty
                    b = _uid.sub('', nm)
                    f.basetype.setdefault(b, ty)
                    if f.basetype[b] != ty: f.basetype[b] = None
            i += 1
        cur = None
        labels = {}
        raw = OrderedDict()
        while i < len(lines):
            l = lines[i].strip(); i += 1
            if l == '}': break
            m = re.match(r'^<bb (\d+)>', l)
            if m:
                cur = int(m.group(1)); raw[cur] = []; continue
            if not l or cur is None: continue
            m = re.match(r'^(<L\d+>|[\w.]+(?:D\.\d+)?):(\s*\[.*\])?$', l)
            if m: labels[m.group(1)] = cur; continue
            # join continuation lines
            while not (l.endswith(';') or l.endswith(']') or l.endswith(')') or l.endswith('>') or l == 'else' or l.startswith('#') or l.startswith('if')):
                l += ' ' + lines[i].strip(); i += 1
            raw[cur].append(l)
        order = list(raw)
        f.order = order
        for bi, n in enumerate(order):
            phis, ins, term = [], [], None
            st = raw[n]; k = 0
            while k < len(st):
                l = st[k]
                m = re.match(r'^# (.*?) = PHI <(.*)>$', l)
                if m:
                    args = []
                    for a in split_top(m.group(2)):
                        mm = re.match(r'^(.*)\((\d+)\)$', a.strip())
                        try: args.append((int(mm.group(2)), self.operand(mm.group(1), f)))
                        except Unsupported as e: raise
                    dst = m.group(1).strip()
                    if not dst.startswith('.MEM'): phis.append((self.ssa(dst), args, self.dtype(dst, f)))
                    k += 1; continue
                if l.startswith('#'): k += 1; continue
                if l.startswith('if ('):
                    cond = l[4:-1]
                    g1 = re.match(r'^goto <bb (\d+)>', st[k+1]); assert st[k+2] == 'else'
                    g2 = re.match(r'^goto <bb (\d+)>', st[k+3])
                    try: c = self.rvalue(cond, f)
                    except Unsupported as e: c = ('unsupported', str(e))
                    term = ('if', c, int(g1.group(1)), int(g2.group(1))); k += 4; continue
                m = re.match(r'^goto <bb (\d+)>', l)
                if m: term = ('goto', int(m.group(1))); k += 1; continue
                m = re.match(r'^switch \((.*?)\) <(.*)>$', l)
                if m:
                    cases = []
                    for c in split_top(m.group(2)):
                        mm = re.match(r'^(default|case (-?\d+)(?: \.\.\. (-?\d+))?): (\S+)', c)
                        cases.append(('default' if mm.group(1) == 'default' else (int(mm.group(2)), int(mm.group(3) or mm.group(2))), mm.group(4)))
                    term = ('switch', self.operand(m.group(1), f), cases); k += 1; continue
                try:
                    r = self.stmt(l.rstrip(';').strip(), f)
                    if r is None: pass
                    elif r[0] in ('ret', 'unreachable'): term = r
                    else:
                        ins.append(r)
                except Unsupported as e:
                    ins.append(('unsupported', str(e)))
                k += 1
            if term is None:
                if bi + 1 < len(order): term = ('goto', order[bi+1])
                else: term = ('unreachable',)
            f.blocks[n] = dict(phis=phis, ins=ins, term=term)
        for n, b in f.blocks.items():
            if b['term'][0] == 'switch':
                b['term'] = ('switch', b['term'][1], [(c, labels[l]) for c, l in b['term'][2]])
        f.params = []
        for p in params:
            f.params.append((p[0], p[1]))
        # default-def SSA names of parameters: name_N(D)
        f.parambind = {}
        for m in re.finditer(r'([A-Za-z_.$][\w.$]*)_(\d+)\(D\)', body):
            f.parambind.setdefault(m.group(1), m.group(1) + '_' + m.group(2))

    def dtype(self, s, f):
        t = self.type_of(s, f)
        return t[0] if t else 'unk'

# ---------------------------------------------------------------- data from .s
def parse_asm_data(text):
    """label -> bytes for constant data"""
    data = {}; cur = []; buf = None; sec = '.text'; mutable = {}
    for line in text.split('\n'):
        l = line.split('#')[0].rstrip() if '"' not in line else line.rstrip()
        s = l.strip()
        m = re.match(r'^\.section\s+([\w.]+)', s)
        if m: sec = m.group(1)
        elif re.match(r'^\.(data|bss|text|rodata)\b', s): sec = s.split()[0]
        m = re.match(r'^\.(?:comm|lcomm)\s+([\w.$]+)\s*,\s*(\d+)', s)
        if m: mutable[m.group(1)] = int(m.group(2))
        m = re.match(r'^([A-Za-z_.$][\w.$]*):', l)
        if m:
            if re.match(r'^\.L(?!C)', m.group(1)): continue
            cur = m.group(1); data[cur] = bytearray()
            if re.match(r'^\.(data|bss|tdata|tbss)\b(?!\.rel\.ro)', sec): mutable[cur] = 0
            continue
        if cur is None or not isinstance(cur, str): continue
        m = re.match(r'^\.(long|quad|value|byte|zero|2byte|4byte|8byte)\s+(.*)$', s)
        if m:
            k, v = m.group(1), m.group(2)
            try:
                if k == 'zero': data[cur] += bytes(int(v.split(',')[0]))
                else:
                    n = {'long': 4, '4byte': 4, 'quad': 8, '8byte': 8, 'value': 2, '2byte': 2, 'byte': 1}[k]
                    for x in v.split(','):
                        data[cur] += (int(x, 0) & ((1 << 8*n) - 1)).to_bytes(n, 'little')
            except ValueError: data[cur] = bytearray(); cur = None
        elif s and not s.startswith('.'):
            cur = None
    return {k: bytes(v) for k, v in data.items() if len(v) and k not in mutable}, set(mutable)

FLAGS = {'cpp': ['g++', '-std=c++11', '-O2', '-DNDEBUG', '-fno-partial-inlining', '-fno-ipa-sra', '-fno-ipa-cp'], 'c': ['gcc', '-std=c11', '-O2', '-DNDEBUG', '-fno-partial-inlining', '-fno-ipa-sra', '-fno-ipa-cp'], 'f90': ['gfortran', '-O2', '-fno-partial-inlining', '-fno-ipa-sra', '-fno-ipa-cp']}

def lang_of(path):
    return {'.cpp': 'cpp', '.c': 'c', '.f90': 'f90'}[os.path.splitext(path)[1]]

def compile_dump(src, outdir, repo='/repo', extra=(), pass_='release_ssa'):
    lang = lang_of(src)
    tag = lang + '_' + os.path.splitext(os.path.basename(src))[0]
    gim, s = os.path.join(outdir, tag + '.gim'), os.path.join(outdir, tag + '.s')
    inc = {'cpp': ['-I%s/src/cpp' % repo], 'c': ['-I%s/src/c' % repo], 'f90': ['-I%s/src/fortran' % repo, '-J' + outdir]}[lang]
    cmd = FLAGS[lang] + inc + list(extra) + ['-S', src, '-fdump-tree-%s-asmname-uid=%s' % (pass_, gim), '-o', s]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=outdir)
    if r.returncode: raise RuntimeError('compilation failed: %s\n%s' % (' '.join(cmd), r.stdout))
    return gim, s

class Program:
    def __init__(self):
        self.funcs = OrderedDict(); self.globals = {}; self.globals_any = {}; self.mutable = set()
    def add_file(self, src, outdir, repo='/repo', extra=()):
        gim, s = compile_dump(src, outdir, repo, extra)
        return self.add_dump(src, gim, s, repo)
    def add_dump(self, src, gim, s, repo='/repo'):
        p = Parser(open(gim).read(), os.path.relpath(src, repo), src, repo); p.parse()
        data, mut = parse_asm_data(open(s).read()); self.mutable |= mut
        tag = os.path.splitext(os.path.basename(gim))[0]
        ren = {}
        for k, v in data.items():
            nk = tag + ':' + k if k.startswith('.LC') else (tag + ':' + k)
            self.globals[nk] = v
            if not k.startswith('.'): self.globals_any.setdefault(k, nk)
        for n, f in p.funcs.items():
            f.tag = tag
            if n in self.funcs and not n.startswith(('_ZN13polylogarithm', 'li', 'cli', 'dli', 'cdli')):
                continue
            if n in self.funcs:
                # local helpers may share a name across files: keep per-file copies
                pass
            self.funcs.setdefault(n, f)
            self.funcs[tag + '::' + n] = f
        self.structs = p.structs
        return p


# ---------------------------------------------------------------- emission
class Emitter:
    """serialises the call closure of some functions for the C++ kernel"""
    def __init__(self, prog):
        self.p = prog; self.out = []; self.done = set(); self.todo = []; self.globs = OrderedDict()
    def resolve(self, name, f):
        return self.p.funcs.get(f.tag + '::' + name) or self.p.funcs.get(name)
    def want(self, f):
        key = f.tag + '::' + f.name
        if key not in self.done:
            self.done.add(key); self.todo.append(f)
        return key
    def emit(self, entries):
        for e in entries: self.want(self.p.funcs[e])
        while self.todo: self.func(self.todo.pop())
        for g, b in self.globs.items(): self.out.append('G %s %s' % (g, b.hex() or '-'))
        return '\n'.join(self.out) + '\n'
    def func(self, f):
        o = []
        regs = {}
        def R(n):
            return regs.setdefault(n, len(regs))
        tmp = [0]
        lvars = OrderedDict()
        def T():
            tmp[0] += 1; return R('%%t%d' % tmp[0])
        def varref(n):
            b = _uid.sub('', n)
            if n == '<retval>': lvars.setdefault(n, f.rettype); return 'v:' + n
            if n in f.vars:
                lvars.setdefault(n, None); return 'v:' + n.replace(' ', '')
            g = f.tag + ':' + (b[1:] if b.startswith('*') else b)
            if g in self.p.globals:
                self.globs[g] = self.p.globals[g]; return 'g:' + g
            if b in self.p.globals_any:
                g = self.p.globals_any[b]; self.globs[g] = self.p.globals[g]; return 'g:' + g
            if b in self.p.mutable: raise Unsupported('mutable global ' + b)
            raise Unsupported('unknown global ' + n)
        def lv(l):
            _, base, off, idx, ty = l
            if isinstance(off, tuple): raise Unsupported('offset of unknown type')
            if base[0] == 'var': b = varref(base[1])
            else:
                p = base[1]
                if p[0] == 'addr':
                    l2 = p[1]
                    # fold
                    return lv(('mem', l2[1], l2[2] + off, l2[3] + idx, ty))
                b = 'p:' + opnd(p)
            return '%s %d %d%s' % (b, off, len(idx), ''.join(' %s %d' % (opnd(i), sc) for i, sc in idx))
        def tyname(t):
            if isinstance(t, tuple): return 'array'
            if t.startswith('struct:'): return 'unk'
            return t
        def tysize(t):
            k, e, d = t if isinstance(t, tuple) and len(t) == 3 else (t, t, [])
            if k == 'ptr': return 8
            s = SIZE.get(e, 0)
            for x in d: s *= x
            return s
        def opnd(a, phi=False):
            k = a[0]
            if k == 'r': return 'r:%d' % R(a[1])
            if k == 'f': return 'f:' + a[1]
            if k == 'i': return 'i:%d' % a[1]
            if k == 'c': return 'c:%s,%s' % (a[1][1], a[2][1])
            if k == 'addr':
                l = a[1]
                if l[1][0] == 'var' and not l[3]: return 'a:%s,%d' % (varref(l[1][1]), l[2])
                t = T(); o.append('A %d %s' % (t, lv(l))); return 'r:%d' % t
            if k == 'load':
                if phi: raise Unsupported('load in phi')
                t = T(); l = a[1]; ty = l[4]
                o.append('L %s %d %s' % (tyname(ty), t, lv(l))); return 'r:%d' % t
            raise Unsupported('operand %r' % (a,))
        head = []
        head.append('F %s::%s %d %s' % (f.tag, f.name, len(f.params), tyname(f.rettype)))
        for nm, ty in f.params:
            b = f.parambind.get(nm)
            head.append('P %s %s %s' % (ty[0] if not isinstance(ty[0], tuple) else 'unk', ty[1] if not str(ty[1]).startswith('struct:') else 'unk', R(b) if b else '-'))
        # parameters accessed through memory (address taken)
        for p in f.pinfo:
            if len(p) > 2: f.paramvar = getattr(f, 'paramvar', {}); f.paramvar[p[2]] = f.pinfo.index(p)
        for n in f.order:
            b = f.blocks[n]
            o.append('B %d' % n)
            try:
                for dst, args, ty in b['phis']:
                    o.append('H %d %s %d %s' % (R(dst), tyname(ty), len(args), ' '.join('%d %s' % (p, opnd(a, True)) for p, a in args)))
            except Unsupported as e: o.append('U ' + str(e))
            for ins in b['ins']:
                mark = len(o)
                try:
                    if ins[0] == 'unsupported': o.append('U ' + ins[1]); continue
                    _, dst, rv = ins
                    dty, dreg, store = 'unk', None, None
                    if dst is None: pass
                    elif dst[0] == 'reg':
                        dreg = R(dst[1]); t = f.ssatype.get(dst[1])
                        if t is None:
                            m = SSA.match(dst[1]); t = f.basetype.get(m.group(1)) if m and m.group(1) else None
                        dty = tyname(t[0]) if t else 'unk'
                    elif dst[0] == 'part':
                        raise Unsupported('part store to register')
                    else:
                        store = dst; dty = tyname(dst[4])
                        dreg = T() if rv[0] != 'mov' or rv[1][0][0] == 'load' else None
                    if rv[0] == 'mov':
                        a = rv[1][0]
                        if store is not None and dreg is None:
                            o.append('S %s %s %s' % (dty, lv(store), opnd(a)))
                            continue
                        if a[0] == 'load':
                            ty = tyname(a[1][4])
                            if ty in ('unk', 'array') and dty not in ('unk', 'array'): ty = dty
                            if ty == 'array' or (ty == 'unk' and store is not None and dty in ('unk', 'array')):
                                # aggregate copy
                                size = tysize(a[1][4]) if isinstance(a[1][4], tuple) else 0
                                if store is not None:
                                    if isinstance(store[4], tuple): size = tysize(('array',) + tuple(store[4][1:])) 
                                    o.append('Y %d %s %s' % (size, lv(store), lv(a[1]))); continue
                            o.append('L %s %d %s' % (ty, dreg, lv(a[1])))
                        elif a[0] == 'addr': o.append('A %d %s' % (dreg, lv(a[1])))
                        else: o.append('I mov %s %d 1 %s' % (dty, dreg, opnd(a)))
                    elif rv[0] == 'call':
                        args = [opnd(a) for a in rv[2] if a[0] != 'str']
                        g = self.resolve(rv[1], f)
                        nm = self.want(g) if g else '@' + rv[1]
                        o.append('C %s %s %s %d %s' % (dty, '-' if dreg is None else dreg, nm, len(args), ' '.join(args)))
                    elif rv[0] == 'cvt':
                        o.append('I cvt %s %d 1 %s' % (rv[1] if not rv[1].startswith('unk') else dty, dreg, opnd(rv[2][0])))
                    elif rv[0] == 'cond':
                        c = rv[1]
                        t = T(); o.append('I %s bool %d %d %s' % (c[0], t, len(c[1]), ' '.join(opnd(a) for a in c[1])))
                        o.append('I sel %s %d 3 r:%d %s' % (dty, dreg, t, ' '.join(opnd(a) for a in rv[2])))
                    else:
                        args = [opnd(a) for a in rv[1]]
                        o.append('I %s %s %d %d %s' % (rv[0], dty, dreg, len(args), ' '.join(args)))
                    if store is not None:
                        o.append('S %s %s r:%d' % (dty, lv(store), dreg))
                except Unsupported as e:
                    del o[mark:]; o.append('U ' + str(e).replace('\n', ' '))
            t = b['term']
            try:
                if t[0] == 'goto': o.append('T goto %d' % t[1])
                elif t[0] == 'if':
                    if t[1][0] == 'unsupported': o.append('U ' + t[1][1]); o.append('T unreach')
                    else:
                        c = t[1]
                        if len(c[1]) == 1: c = ('ne', [c[1][0], ('i', 0)])
                        a = ' '.join(opnd(x) for x in c[1]); o.append('T if %s %s %d %d' % (c[0], a, t[2], t[3]))
                elif t[0] == 'switch':
                    cs = [c for c in t[2] if c[0] != 'default']; df = [c for c in t[2] if c[0] == 'default'][0][1]
                    v = opnd(t[1])
                    o.append('T switch %s %d %s %d' % (v, len(cs), ' '.join('%d %d %d' % (c[0][0], c[0][1], c[1]) for c in cs), df))
                elif t[0] == 'ret':
                    if t[1] is None: o.append('T ret -')
                    else:
                        a = t[1]
                        if a[0] == 'load' and tyname(a[1][4]) == 'unk' and f.rettype != 'unk': a = ('load', a[1][:4] + (f.rettype,))
                        v = opnd(a); o.append('T ret %s' % v)
                else: o.append('T unreach')
            except Unsupported as e:
                o.append('U ' + str(e)); o.append('T unreach')
        for v in lvars:
            t = f.vars.get(v)
            pi = getattr(f, 'paramvar', {}).get(v, -1)
            head.append('V %s %d %d' % (v.replace(' ', ''), tysize(t) if t else 0, pi))
        head.append('N %d' % len(regs))
        self.out += head + o + ['E']

if __name__ == '__main__':
    import tempfile
    out = tempfile.mkdtemp()
    nf = nu = 0
    import glob
    for src in sorted(glob.glob('/repo/src/*/*.cpp') + glob.glob('/repo/src/*/*.c') + glob.glob('/repo/src/*/*.f90')):
        P = Program(); p = P.add_file(src, out)
        for f in p.funcs.values():
            nf += 1
            for b in f.blocks.values():
                for ins in b['ins']:
                    if ins[0] == 'unsupported': nu += 1; print(src, f.name, ins[1][:150])
                if b['term'][0] == 'if' and b['term'][1][0] == 'unsupported': print(src, f.name, b['term'])
    print(nf, 'functions', nu, 'unsupported')
