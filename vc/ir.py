"""Parser for the textual LLVM 18 IR that clang produces from /repo's C sources.

Only the instructions that clang -O0 (+ sroa, simplifycfg, loop-simplify, lcssa)
emits for this code base are accepted; anything else raises Unsupported, which
the checks report as an undischarged obligation of the function it occurs in.
"""
import re


class Unsupported(Exception):
    pass


# ----------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b')

    def __init__(s, k, a=None, b=None):
        s.k, s.a, s.b = k, a, b

    def __repr__(s):
        return '%s(%s,%s)' % (s.k, s.a, s.b)


class TypeTable:
    def __init__(s):
        s.named = {}

    def size(s, t):
        if t.k == 'int':
            return max(1, (t.a + 7) // 8)
        if t.k == 'ptr':
            return 8
        if t.k == 'f':
            return t.a
        if t.k == 'arr':
            return t.a * s.size(t.b)
        if t.k == 'struct':
            off = 0
            for f in t.a:
                al = 1 if t.b else s.align(f)
                off = (off + al - 1) // al * al + s.size(f)
            al = s.align(t)
            return (off + al - 1) // al * al
        if t.k == 'named':
            return s.size(s.named[t.a])
        raise Unsupported('size of %r' % t)

    def align(s, t):
        if t.k == 'int':
            return max(1, (t.a + 7) // 8)
        if t.k == 'ptr':
            return 8
        if t.k == 'f':
            return 16 if t.a == 16 else t.a
        if t.k == 'arr':
            return s.align(t.b)
        if t.k == 'struct':
            return 1 if t.b else max([s.align(f) for f in t.a] or [1])
        if t.k == 'named':
            return s.align(s.named[t.a])
        raise Unsupported('align of %r' % t)

    def field(s, t, i):
        """(offset, type) of struct field i"""
        if t.k == 'named':
            t = s.named[t.a]
        off = 0
        for n, f in enumerate(t.a):
            al = 1 if t.b else s.align(f)
            off = (off + al - 1) // al * al
            if n == i:
                return off, f
            off += s.size(f)
        raise Unsupported('field')


TOK = re.compile(r'''\s*(c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|%"[^"]*"|@"[^"]*"|[%@!][-\w.$]+|\.\.\.|-?\d+\.\d+e[+-]\d+|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+|[\w.]+|[][(){}<>,=*!:|#])''')


def tokenize(line):
    out = []
    i = 0
    n = len(line)
    while i < n:
        m = TOK.match(line, i)
        if not m:
            if line[i:].strip() == '':
                break
            raise Unsupported('token: ' + line[i:i + 40])
        out.append(m.group(1))
        i = m.end()
    return out


class Toks:
    def __init__(s, l, tt):
        s.l, s.i, s.tt = l, 0, tt

    def peek(s, k=0):
        return s.l[s.i + k] if s.i + k < len(s.l) else None

    def next(s):
        t = s.l[s.i]
        s.i += 1
        return t

    def eat(s, t):
        if s.peek() == t:
            s.i += 1
            return True
        return False

    def expect(s, t):
        if s.next() != t:
            raise Unsupported('expected %s in %s' % (t, ' '.join(s.l)))

    def type(s):
        t = s.next()
        if t == 'void':
            r = Ty('void')
        elif t == 'ptr':
            r = Ty('ptr')
        elif t == 'label':
            r = Ty('label')
        elif t == 'metadata':
            r = Ty('metadata')
        elif t == 'float':
            r = Ty('f', 4)
        elif t == 'double':
            r = Ty('f', 8)
        elif t == 'x86_fp80':
            r = Ty('f', 16)
        elif re.fullmatch(r'i\d+', t):
            r = Ty('int', int(t[1:]))
        elif t[0] == '%':
            r = Ty('named', t[1:].strip('"'))
        elif t == '[':
            n = int(s.next())
            s.expect('x')
            e = s.type()
            s.expect(']')
            r = Ty('arr', n, e)
        elif t == '{':
            fs = []
            while not s.eat('}'):
                fs.append(s.type())
                s.eat(',')
            r = Ty('struct', fs)
        elif t == '<':
            if s.peek() != '{':
                raise Unsupported('vector')
            s.next()
            fs = []
            while not s.eat('}'):
                fs.append(s.type())
                s.eat(',')
            s.expect('>')
            r = Ty('struct', fs, 'packed')
        else:
            raise Unsupported('type ' + t)
        while s.peek() == '(':       # function type
            d = 0
            while True:
                x = s.next()
                d += x == '('
                d -= x == ')'
                if d == 0:
                    break
            r = Ty('fn', r)
        return r

    ATTR = {'noundef', 'nonnull', 'noalias', 'signext', 'zeroext', 'nocapture', 'readonly', 'writeonly',
            'inreg', 'returned', 'allocptr', 'immarg', 'readnone', 'nofree', 'inbounds', 'nuw', 'nsw', 'exact',
            'tail', 'notail', 'musttail', 'disjoint', 'fastcc', 'ccc', 'dso_local', 'volatile', 'nneg'}

    def attrs(s):
        out = []
        while True:
            p = s.peek()
            if p in s.ATTR:
                out.append(s.next())
            elif p in ('align', 'dereferenceable', 'dereferenceable_or_null', 'allocsize', 'sret', 'byval'):
                if p in ('sret', 'byval'):
                    raise Unsupported(p)
                s.next()
                if s.eat('('):
                    while not s.eat(')'):
                        s.next()
                else:
                    s.next()
            else:
                return out

    def value(s, ty):
        """operand -> tuple"""
        t = s.next()
        if t[0] == '%':
            return ('reg', t[1:].strip('"'))
        if t[0] == '@':
            return ('glob', t[1:].strip('"'))
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'true':
            return ('int', 1)
        if t == 'false':
            return ('int', 0)
        if t == 'zeroinitializer':
            return ('zero',)
        if t[0:2] == 'c"':
            b = bytearray()
            x = t[2:-1]
            i = 0
            while i < len(x):
                if x[i] == '\\':
                    b.append(int(x[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(x[i]))
                    i += 1
            return ('bytes', bytes(b))
        if re.fullmatch(r'-?\d+', t):
            return ('int', int(t))
        if re.match(r'-?\d+\.|0x', t):
            return ('float', t)
        if t == 'getelementptr':
            s.attrs()
            s.expect('(')
            bt = s.type()
            s.expect(',')
            ops = s.oplist(')')
            return ('cgep', bt, ops)
        if t in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'sext', 'zext'):
            s.expect('(')
            ft = s.type()
            v = s.value(ft)
            s.expect('to')
            tt = s.type()
            s.expect(')')
            return ('ccast', t, ft, v, tt)
        if t in ('sub', 'add', 'mul'):
            s.attrs()
            s.expect('(')
            ops = s.oplist(')')
            return ('cbin', t, ops)
        if t == '<':
            t = s.next()
            v = s._agg(t)
            s.expect('>')
            return v
        if t in ('{', '['):
            return s._agg(t)
        raise Unsupported('value ' + t)

    def _agg(s, t):
        if 1:
            out = []
            end = '}' if t == '{' else ']'
            while not s.eat(end):
                ft = s.type()
                out.append((ft, s.value(ft)))
                s.eat(',')
            return ('agg', out)

    def oplist(s, end):
        ops = []
        while not s.eat(end):
            s.attrs()
            ty = s.type()
            s.attrs()
            ops.append((ty, s.value(ty)))
            s.eat(',')
        return ops


class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'dbg', 'flags', 'text')

    def __init__(s, op, **k):
        s.op = op
        s.res = s.ty = s.args = s.x = s.dbg = None
        s.flags = ()
        for a, b in k.items():
            setattr(s, a, b)

    def __repr__(s):
        return s.text


class Func:
    def __init__(s, name, ret, params, mod, internal):
        s.name, s.ret, s.params, s.mod, s.internal = name, ret, params, mod, internal
        s.blocks = {}      # name -> [Instr]
        s.order = []
        s.entry = None
        s.error = None


class Module:
    def __init__(s, src):
        s.src = src
        s.tt = TypeTable()
        s.funcs = {}
        s.decls = {}
        s.globals = {}     # name -> (type, init, const, internal)
        s.md = {}
        s.dilines = {}
        s.structs = {}

    # ---- debug metadata
    def mdfields(s, ref):
        return s.md.get(ref, '')

    def line(s, ref):
        t = s.md.get(ref, '')
        m = re.search(r'line: (\d+)', t)
        return int(m.group(1)) if m else 0

    def field_offset(s, typedef, field):
        """byte offset and byte size of a member of the struct behind a typedef or tag"""
        key = (typedef, field)
        if key in s.structs:
            return s.structs[key]
        for ref, t in s.md.items():
            if ('DW_TAG_typedef' in t or 'DW_TAG_structure_type' in t) and 'name: "%s"' % typedef in t:
                r = s._find(ref, field)
                if r:
                    s.structs[key] = r
                    return r
        raise KeyError('%s.%s' % (typedef, field))

    def _find(s, ref, field):
        t = s.md.get(ref, '')
        if 'DW_TAG_typedef' in t or 'DW_TAG_const' in t:
            m = re.search(r'baseType: (!\d+)', t)
            return s._find(m.group(1), field) if m else None
        if 'DW_TAG_structure_type' not in t:
            return None
        m = re.search(r'elements: (!\d+)', t)
        if not m:
            return None
        for e in re.findall(r'!\d+', s.md[m.group(1)]):
            x = s.md[e]
            if 'name: "%s"' % field in x:
                o = re.search(r'offset: (\d+)', x)
                z = re.search(r'size: (\d+)', x)
                return (int(o.group(1)) // 8 if o else 0, int(z.group(1)) // 8)
        return None

    def struct_size(s, typedef):
        for ref, t in s.md.items():
            if ('DW_TAG_typedef' in t or 'DW_TAG_structure_type' in t) and 'name: "%s"' % typedef in t:
                while 'DW_TAG_typedef' in t:
                    t = s.md[re.search(r'baseType: (!\d+)', t).group(1)]
                m = re.search(r'size: (\d+)', t)
                if m:
                    return int(m.group(1)) // 8
        raise KeyError(typedef)


BIN = {'add', 'sub', 'mul', 'sdiv', 'srem', 'udiv', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv'}
CAST = {'sext', 'zext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'fptosi', 'fpext', 'fptrunc', 'uitofp'}


def parse(text, src):
    mod = Module(src)
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        i += 1
        if not l or l[0] == ';':
            continue
        if l[0] == '%' and ' = type ' in l:
            nm, body = l.split(' = type ', 1)
            if body.strip() == 'opaque':
                mod.tt.named[nm[1:].strip('"')] = Ty('struct', [])
                continue
            mod.tt.named[nm[1:].strip('"')] = Toks(tokenize(body), mod.tt).type()
        elif l[0] == '@':
            l2 = re.sub(r', !dbg.*$', '', l)
            l2 = re.sub(r', align \d+', '', l2)
            nm, body = l2.split(' = ', 1)
            nm = nm[1:].strip('"')
            t = Toks(tokenize(body), mod.tt)
            const = internal = ext = False
            while True:
                p = t.peek()
                if p in ('private', 'internal'):
                    internal = True
                elif p in ('external',):
                    ext = True
                elif p == 'constant':
                    const = True
                    t.next()
                    break
                elif p == 'global':
                    t.next()
                    break
                t.next()
            ty = t.type()
            init = None if ext else t.value(ty)
            mod.globals[nm] = (ty, init, const, internal)
        elif l.startswith('declare'):
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', l)
            mod.decls[m.group(1).strip('"')] = l
        elif l.startswith('define'):
            body = []
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            i += 1
            f = parse_func(l, body, mod)
            mod.funcs[f.name] = f
        elif l[0] == '!':
            m = re.match(r'(!\d+) = (.*)$', l)
            if m:
                mod.md[m.group(1)] = m.group(2)
    return mod


def parse_func(head, body, mod):
    internal = ' internal ' in head
    m = re.search(r'@("[^"]+"|[\w.$]+)\(', head)
    name = m.group(1).strip('"')
    pre = head[len('define'):m.start()]
    t = Toks(tokenize(pre), mod.tt)
    while t.peek() in ('dso_local', 'internal', 'noalias', 'signext', 'zeroext', 'noundef', 'nonnull', 'hidden', 'weak'):
        t.next()
    ret = t.type()
    rest = head[m.end():]
    d = 1
    j = 0
    while d:
        d += rest[j] == '('
        d -= rest[j] == ')'
        j += 1
    t = Toks(tokenize(rest[:j]), mod.tt)
    params = []
    while not t.eat(')'):
        ty = t.type()
        t.attrs()
        params.append((t.next()[1:].strip('"'), ty))
        t.eat(',')
    f = Func(name, ret, params, mod, internal)
    f.dbg = (re.search(r'!dbg (!\d+)', head) or [None, None])[1]
    cur = None
    k = 0
    while k < len(body):
        l = body[k]
        k += 1
        s = l.strip()
        if not s or s[0] == ';':
            continue
        if not l.startswith(' '):
            m = re.match(r'("[^"]+"|[-\w.$]+):', l)
            cur = m.group(1).strip('"')
            f.blocks[cur] = []
            f.order.append(cur)
            continue
        if cur is None:
            cur = '0'
            f.blocks[cur] = []
            f.order.append(cur)
        if s.startswith('switch'):
            while not s.rstrip().endswith(']') and '], !' not in s:
                s += ' ' + body[k].strip()
                k += 1
        if '@llvm.dbg.' in s:
            continue
        try:
            ins = parse_instr(s, mod)
            if ins is not None:
                f.blocks[cur].append(ins)
        except Unsupported as e:
            if f.error is None:
                f.error = '%s in: %s' % (e, s)
            f.blocks[cur].append(Instr('unsupported', x=str(e) + ' in: ' + s, text=s))
    f.entry = f.order[0]
    return f


def parse_instr(s, mod):
    text = s
    dbg = None
    m = re.search(r', !dbg (!\d+)', s)
    if m:
        dbg = m.group(1)
    s = re.sub(r'(, ![\w.]+ !\d+)+$', '', s)
    s = re.sub(r', align \d+$', '', s)
    s = re.sub(r' #\d+$', '', s)
    t = Toks(tokenize(s), mod.tt)
    res = None
    if t.peek(1) == '=':
        res = t.next()[1:].strip('"')
        t.next()
    op = t.next()
    I = Instr(op, res=res, dbg=dbg, text=text)
    if op in ('tail', 'notail', 'musttail'):
        op = t.next()
        I.op = op
    if op == 'alloca':
        I.ty = t.type()
        if t.eat(','):
            ct = t.type()
            I.args = [(ct, t.value(ct))]
        else:
            I.args = []
    elif op == 'load':
        I.flags = t.attrs()
        I.ty = t.type()
        t.expect(',')
        pt = t.type()
        I.args = [(pt, t.value(pt))]
    elif op == 'store':
        I.flags = t.attrs()
        vt = t.type()
        v = t.value(vt)
        t.expect(',')
        pt = t.type()
        I.args = [(vt, v), (pt, t.value(pt))]
    elif op == 'getelementptr':
        t.attrs()
        I.ty = t.type()
        t.expect(',')
        ops = []
        while True:
            ty = t.type()
            ops.append((ty, t.value(ty)))
            if not t.eat(','):
                break
        I.args = ops
    elif op in BIN:
        I.flags = tuple(t.attrs())
        I.ty = t.type()
        a = t.value(I.ty)
        t.expect(',')
        b = t.value(I.ty)
        I.args = [(I.ty, a), (I.ty, b)]
    elif op in CAST:
        I.flags = tuple(t.attrs())
        ft = t.type()
        v = t.value(ft)
        t.expect('to')
        I.ty = t.type()
        I.args = [(ft, v)]
    elif op in ('icmp', 'fcmp'):
        I.x = t.next()
        I.ty = t.type()
        a = t.value(I.ty)
        t.expect(',')
        b = t.value(I.ty)
        I.args = [(I.ty, a), (I.ty, b)]
    elif op == 'select':
        ops = []
        while True:
            ty = t.type()
            ops.append((ty, t.value(ty)))
            if not t.eat(','):
                break
        I.args = ops
        I.ty = ops[1][0]
    elif op == 'freeze':
        I.ty = t.type()
        I.args = [(I.ty, t.value(I.ty))]
    elif op == 'phi':
        I.ty = t.type()
        inc = []
        while t.eat('['):
            v = t.value(I.ty)
            t.expect(',')
            b = t.next()[1:].strip('"')
            t.expect(']')
            inc.append((v, b))
            if not t.eat(','):
                break
        I.x = inc
        I.args = []
    elif op == 'br':
        if t.peek() == 'label':
            t.next()
            I.x = [t.next()[1:].strip('"')]
            I.args = []
        else:
            ty = t.type()
            c = t.value(ty)
            t.expect(',')
            t.expect('label')
            a = t.next()[1:].strip('"')
            t.expect(',')
            t.expect('label')
            b = t.next()[1:].strip('"')
            I.args = [(ty, c)]
            I.x = [a, b]
    elif op == 'switch':
        ty = t.type()
        v = t.value(ty)
        t.expect(',')
        t.expect('label')
        d = t.next()[1:].strip('"')
        t.expect('[')
        cs = []
        while not t.eat(']'):
            cty = t.type()
            cv = t.value(cty)
            t.expect(',')
            t.expect('label')
            cs.append((cv[1], t.next()[1:].strip('"')))
        I.args = [(ty, v)]
        I.x = [d, cs]
        I.ty = ty
    elif op == 'ret':
        ty = t.type()
        I.ty = ty
        I.args = [] if ty.k == 'void' else [(ty, t.value(ty))]
    elif op == 'unreachable':
        I.args = []
    elif op == 'call':
        t.attrs()
        ty = t.type()
        if ty.k == 'fn':
            ty = ty.a
        if ty.k == 'named' or ty.k == 'struct':
            raise Unsupported('aggregate return')
        callee = t.next()
        t.expect('(')
        I.args = t.oplist(')')
        I.ty = ty
        if callee[0] == '@':
            I.x = ('glob', callee[1:].strip('"'))
        else:
            I.x = ('reg', callee[1:].strip('"'))
    else:
        raise Unsupported('instruction ' + op)
    return I


# ----------------------------------------------------------------- CFG helpers
def succs(f, b):
    if not f.blocks[b]:
        return []
    I = f.blocks[b][-1]
    if I.op == 'br':
        return list(I.x)
    if I.op == 'switch':
        out = [I.x[0]]
        for _, l in I.x[1]:
            if l not in out:
                out.append(l)
        return out
    return []


def loops(f):
    """natural loops: header -> set of blocks"""
    order = f.order
    preds = {b: [] for b in order}
    for b in order:
        for s in succs(f, b):
            preds[s].append(b)
    dom = {b: set(order) for b in order}
    dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == f.entry:
                continue
            ps = [dom[p] for p in preds[b]]
            nd = (set.intersection(*ps) if ps else set()) | {b}
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    L = {}
    for b in order:
        for s in succs(f, b):
            if s in dom[b]:
                body = L.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    return L, preds
