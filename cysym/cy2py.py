"""Mechanical translation of a Cython module to instrumented Python source.

The tree comes from Cython's own parser; every node kind the translator does
not know raises TranslationError (the check then ends as an error, never as a
pass).
"""
import re, sys
from Cython.Compiler.TreeFragment import parse_from_strings
from Cython.Compiler import Nodes, ExprNodes


class TranslationError(Exception):
    pass


def parse(src, name='m'):
    src = re.sub(r'=\s*\*(?=\s*[,)])', '= None', src)
    src = re.sub(r'^(\s*)include\s+.*$', r'\1pass', src, flags=re.M)
    return parse_from_strings(name, src)


PYKW = {'print'}


class Gen:
    def __init__(self, pxd_attrs=None):
        self.out = []; self.ind = 0
        self.scopes = []          # list of dict name -> ctype descriptor
        self.pxd_attrs = pxd_attrs or {}
        self.tmp = 0

    def w(self, s): self.out.append('    ' * self.ind + s)

    # ---------------- types
    def ctype(self, base, decl=None):
        """descriptor string of a declared C type, or None for a Python object"""
        t = type(base).__name__
        if decl is not None:
            d = decl
            while True:
                dn = type(d).__name__
                if dn == 'CPtrDeclaratorNode': return 'ptr'
                if dn == 'CNameDeclaratorNode': break
                if dn == 'CFuncDeclaratorNode': d = d.base; continue
                if dn == 'CArrayDeclaratorNode': return 'carray'
                d = getattr(d, 'base', None)
                if d is None: break
        if t == 'MemoryViewSliceTypeNode':
            el = base.base_type_node
            return 'mv:%s:%d' % (self.ctype(el), len(base.axes))
        if t == 'CSimpleBaseTypeNode':
            n = base.name
            if n is None or (base.module_path and n not in ('int32_t',)):
                return None
            if getattr(base, 'is_basic_c_type', False):
                if n == 'char': return 'char'
                if n in ('int', 'short'): return 'int'
                if n in ('double',): return 'double'
                if n == 'float': return 'float'
                if n == 'complex': return 'complex'
                if n == 'bint': return 'bint'
                if n == 'void': return 'void'
                if n in ('Py_ssize_t', 'size_t', 'long'): return 'int'
                return 'int' if n not in ('object',) else None
            if n in ('str',): return 'str'
            if n == 'complex': return 'complex'
            if n in ('list', 'dict', 'tuple', 'object', 'bytes', 'set'): return None
            return None
        if t == 'CComplexBaseTypeNode':
            return self.ctype(base.base_type, base.declarator)
        if t in ('TemplatedTypeNode',):
            return None
        if t == 'CConstOrVolatileTypeNode':
            return self.ctype(base.base_type)
        raise TranslationError('type node ' + t)

    def declname(self, d):
        while type(d).__name__ != 'CNameDeclaratorNode': d = d.base
        return d.name

    def coerce(self, ct, e):
        if ct is None or ct in ('ptr', 'void', 'carray', 'char'): return e
        if ct.startswith('mv:'):
            _, el, nd = ct.split(':')
            return '_c_mv(%r, %s, %s)' % (el, nd, e)
        return '_c_%s(%s)' % (ct, e)

    def lookup(self, name):
        if self.scopes:
            return self.scopes[-1].get(name)
        return None

    # ---------------- module
    def module(self, tree):
        self.modscope = {}
        self.stat(tree.body)
        return '\n'.join(self.out) + '\n'

    def stat(self, n):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None: raise TranslationError('statement %s at line %s' % (type(n).__name__, n.pos[1]))
        m(n)

    def block(self, n):
        self.ind += 1
        k = len(self.out)
        self.stat(n)
        if len(self.out) == k: self.w('pass')
        self.ind -= 1

    def s_StatListNode(self, n):
        for s in n.stats: self.stat(s)

    def s_CompilerDirectivesNode(self, n): self.stat(n.body)

    def s_PassStatNode(self, n): self.w('pass')
    def s_BreakStatNode(self, n): self.w('break')
    def s_ContinueStatNode(self, n): self.w('continue')

    def s_CImportStatNode(self, n):
        self.w('_cimport(globals(), %r, %r)' % (str(n.module_name), str(n.as_name) if n.as_name else None))

    def s_FromCImportStatNode(self, n):
        for it in n.imported_names:
            name, asn = str(it[1]), it[2]
            self.w('_fromcimport(globals(), %r, %r, %r)' % (str(n.module_name), name, str(asn) if asn else name))

    def imp(self, e):
        return str(e.module_name.value), e

    def s_FromImportStatNode(self, n):
        mod = str(n.module.module_name.value)
        lvl = getattr(n.module, 'level', 0)
        lvl = lvl if isinstance(lvl, int) and lvl > 0 else 0
        items = []
        for name, target in n.items:
            t = self.e(target)
            items.append('%s as %s' % (name, t) if str(name) != t else str(name))
        self.w('from %s%s import %s' % ('.' * lvl, mod, ', '.join(items)))

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == 'ImportNode':
            mod = str(n.rhs.module_name.value)
            tgt = self.e(n.lhs)
            if getattr(n.rhs, 'get_top_level_module', 0) and '.' in mod:
                self.w('import %s' % mod)
            elif '.' in mod: self.w('import %s as %s' % (mod, tgt))
            else: self.w('import %s as %s' % (mod, tgt))
            return
        self.assign([n.lhs], self.e(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        self.assign(list(n.lhs_list), self.e(n.rhs))

    def s_ParallelAssignmentNode(self, n):
        for s in n.stats: self.stat(s)

    def assign(self, lhss, rhs):
        simple = []
        post = []
        for l in lhss:
            t = type(l).__name__
            if t == 'NameNode':
                ct = self.lookup(str(l.name))
                if len(lhss) == 1:
                    self.w('%s = %s' % (l.name, self.coerce(ct, rhs))); return
                simple.append(str(l.name))
                if ct: post.append('%s = %s' % (l.name, self.coerce(ct, str(l.name))))
            elif t in ('TupleNode', 'ListNode'):
                simple.append(self.e(l))
                for a in l.args:
                    if type(a).__name__ == 'NameNode':
                        ct = self.lookup(str(a.name))
                        if ct: post.append('%s = %s' % (a.name, self.coerce(ct, str(a.name))))
            else:
                simple.append(self.e(l))
        self.w(' = '.join(simple) + ' = ' + rhs)
        for p in post: self.w(p)

    def s_InPlaceAssignmentNode(self, n):
        op = n.operator
        l = n.lhs; r = self.e(n.rhs)
        if type(l).__name__ == 'NameNode' and self.lookup(str(l.name)):
            self.w('%s = %s' % (l.name, self.coerce(self.lookup(str(l.name)), self.binop(op, str(l.name), r))))
        elif op in ('/', '**'):
            self.w('%s = %s' % (self.e(l), self.binop(op, self.e(l), r)))
        else:
            self.w('%s %s= %s' % (self.e(l), op, r))

    def s_ExprStatNode(self, n):
        if type(n.expr).__name__ == 'UnicodeNode': 
            self.w('pass'); return
        self.w(self.e(n.expr))

    def s_DelStatNode(self, n):
        for a in n.args:
            if type(a).__name__ == 'NameNode' and self.lookup(str(a.name)):
                self.w('%s = None' % a.name)
            else:
                self.w('del ' + self.e(a))

    def s_ReturnStatNode(self, n):
        v = self.e(n.value) if n.value is not None else ''
        rt = self.rettypes[-1] if self.rettypes else None
        if v and rt: v = self.coerce(rt, v)
        self.w('return ' + v)

    def s_RaiseStatNode(self, n):
        s = 'raise'
        if n.exc_type is not None:
            s += ' ' + self.e(n.exc_type)
            if getattr(n, 'exc_value', None) is not None: s += '(%s)' % self.e(n.exc_value)
            if getattr(n, 'cause', None) is not None: s += ' from ' + self.e(n.cause)
        self.w(s)

    def s_ReraiseStatNode(self, n): self.w('raise')

    def s_AssertStatNode(self, n):
        c = getattr(n, 'condition', None)
        s = 'assert ' + self.e(c)
        self.w(s)

    def s_IfStatNode(self, n):
        kw = 'if'
        for c in n.if_clauses:
            self.w('%s %s:' % (kw, self.e(c.condition))); self.block(c.body); kw = 'elif'
        if n.else_clause is not None:
            self.w('else:'); self.block(n.else_clause)

    def s_WhileStatNode(self, n):
        self.w('while %s:' % self.e(n.condition)); self.block(n.body)
        if n.else_clause is not None: self.w('else:'); self.block(n.else_clause)

    def s_ForInStatNode(self, n):
        it = n.iterator.sequence
        tgt = self.e(n.target)
        self.w('for %s in %s:' % (tgt, self.e(it)))
        self.ind += 1
        if type(n.target).__name__ == 'NameNode':
            ct = self.lookup(tgt)
            if ct and ct != 'int': self.w('%s = %s' % (tgt, self.coerce(ct, tgt)))
        if self.isprange(it):
            # scalars assigned in a prange body are (last)private: no value is carried from one iteration to the next
            for v in self.privates(n.body):
                if v != tgt and self.lookup(v) in ('int', 'double', 'float', 'bint'): self.w('%s = _uninit(%r)' % (v, v + ' (private to the iteration)'))
        self.stat(n.body); self.w('pass')
        self.ind -= 1
        if n.else_clause is not None: self.w('else:'); self.block(n.else_clause)

    def isprange(self, it):
        f = getattr(it, 'function', None)
        return f is not None and (str(getattr(f, 'name', '')) == 'prange' or str(getattr(f, 'attribute', '')) == 'prange')

    def privates(self, body):
        from Cython.Compiler.Visitor import TreeVisitor
        asg, red = [], set()

        class V(TreeVisitor):
            def visit_Node(s, n): s.visitchildren(n)
            def tgt(s, l):
                if type(l).__name__ == 'NameNode' and str(l.name) not in asg: asg.append(str(l.name))
                elif type(l).__name__ in ('TupleNode', 'ListNode'):
                    for a in l.args: s.tgt(a)
            def visit_SingleAssignmentNode(s, n): s.tgt(n.lhs); s.visitchildren(n)
            def visit_CascadedAssignmentNode(s, n):
                for l in n.lhs_list: s.tgt(l)
                s.visitchildren(n)
            def visit_ForInStatNode(s, n): s.tgt(n.target); s.visitchildren(n)
            def visit_ForFromStatNode(s, n): s.tgt(n.target); s.visitchildren(n)
            def visit_InPlaceAssignmentNode(s, n):
                if type(n.lhs).__name__ == 'NameNode': red.add(str(n.lhs.name))
                s.visitchildren(n)
        V().visit(body)
        return [v for v in asg if v not in red]

    def s_ForFromStatNode(self, n):
        tgt = self.e(n.target)
        lo = self.e(n.bound1); hi = self.e(n.bound2)
        r1, r2 = n.relation1, n.relation2
        step = self.e(n.step) if n.step is not None else '1'
        if r1 in ('<', '<='):
            a = lo if r1 == '<=' else '(%s)+1' % lo
            b = '(%s)+1' % hi if r2 == '<=' else hi
            self.w('for %s in range(%s, %s, %s):' % (tgt, a, b, step))
        else:
            a = lo if r1 == '>=' else '(%s)-1' % lo
            b = '(%s)-1' % hi if r2 == '>=' else hi
            self.w('for %s in range(%s, %s, -(%s)):' % (tgt, a, b, step))
        self.block(n.body)

    def s_GILStatNode(self, n): self.stat(n.body)
    def s_ParallelStatNode(self, n): self.stat(n.body)

    def s_WithStatNode(self, n):
        self.w('with %s%s:' % (self.e(n.manager), ' as ' + self.e(n.target) if n.target is not None else ''))
        self.block(n.body)

    def s_TryExceptStatNode(self, n):
        self.w('try:'); self.block(n.body)
        for c in n.except_clauses:
            s = 'except'
            if c.pattern:
                ps = [self.e(p) for p in c.pattern]
                s += ' ' + (ps[0] if len(ps) == 1 else '(' + ', '.join(ps) + ')')
            else: s += ' Exception'
            if c.target is not None: s += ' as ' + self.e(c.target)
            self.w(s + ':'); self.block(c.body)
        if n.else_clause is not None: self.w('else:'); self.block(n.else_clause)

    def s_TryFinallyStatNode(self, n):
        self.w('try:'); self.block(n.body); self.w('finally:'); self.block(n.finally_clause)

    def s_GlobalNode(self, n): self.w('global ' + ', '.join(map(str, n.names)))
    def s_NonlocalNode(self, n): self.w('nonlocal ' + ', '.join(map(str, n.names)))

    def s_CVarDefNode(self, n):
        if not self.scopes and not self.inclass:
            pass
        for d in n.declarators:
            ct = self.ctype(n.base_type, d)
            dd = d
            while type(dd).__name__ != 'CNameDeclaratorNode': dd = dd.base
            name = str(dd.name)
            if type(d).__name__ == 'CFuncDeclaratorNode': continue
            if self.inclass and not self.scopes:
                self.clsattrs[name] = ct; continue
            if self.scopes: self.scopes[-1][name] = ct
            dv = dd.default if getattr(dd, 'default', None) is not None else None
            # default may sit on an outer declarator
            x = d
            while dv is None and x is not None:
                dv = getattr(x, 'default', None); x = getattr(x, 'base', None)
            if dv is not None:
                self.w('%s = %s' % (name, self.coerce(ct, self.e(dv))))
            else:
                # C leaves it uninitialised; _uninit poisons accidental reads
                if ct in ('int', 'double', 'float', 'bint'): self.w('%s = _uninit(%r)' % (name, name))
                elif ct and ct.startswith('mv'): self.w('%s = None' % name)

    # ---------------- functions
    inclass = False
    rettypes = []

    def collect(self, body, scope):
        """C-typed local declarations anywhere in the function body (function scope)"""
        from Cython.Compiler.Visitor import TreeVisitor
        g = self

        class V(TreeVisitor):
            def visit_Node(s, n): s.visitchildren(n)
            def visit_CVarDefNode(s, n):
                for d in n.declarators:
                    if type(d).__name__ == 'CFuncDeclaratorNode': continue
                    scope[str(g.declname(d))] = g.ctype(n.base_type, d)
            def visit_DefNode(s, n): pass
            def visit_CFuncDefNode(s, n): pass
            def visit_LambdaNode(s, n): pass
        V().visit(body)

    def args(self, args, star=None, starstar=None):
        """returns (signature list, [(name, ctype)])"""
        sig = []; typed = []
        seen_kw = False
        for a in args:
            name = str(self.declname(a.declarator)) if type(a.declarator).__name__ != 'CFuncDeclaratorNode' else str(self.declname(a.declarator.base))
            ct = self.ctype(a.base_type, a.declarator)
            if name == '':
                name = str(a.base_type.name); ct = None
            if getattr(a, 'kw_only', 0) and not seen_kw:
                seen_kw = True
                if star is None: sig.append('*')
            d = a.default
            sig.append(name + ('=' + self.e(d) if d is not None and type(d).__name__ != 'EllipsisNode' else ('=None' if d is not None else '')))
            typed.append((name, ct))
        if star is not None: sig.append('*' + str(star.name))
        if starstar is not None: sig.append('**' + str(starstar.name))
        return sig, typed

    def func(self, name, args, body, ret, decorators, star=None, starstar=None):
        for d in decorators or []:
            ds = self.e(d.decorator)
            if ds.split('(')[0].split('.')[0] == 'cython': continue
            self.w('@' + ds)
        sig, typed = self.args(args, star, starstar)
        self.w('def %s(%s):' % (name, ', '.join(sig)))
        self.ind += 1
        sc = {}
        for nm, ct in typed: sc[nm] = ct
        self.collect(body, sc)
        self.scopes.append(sc); self.rettypes = self.rettypes + [ret]
        self.w('_enter(%r)' % name)
        for nm, ct in typed:
            if ct: 
                c = self.coerce(ct, nm)
                if c != nm: self.w('%s = %s' % (nm, c))
        self.stat(body)
        self.w('pass')
        self.scopes.pop(); self.rettypes = self.rettypes[:-1]
        self.ind -= 1

    def s_DefNode(self, n):
        self.func(str(n.name), n.args, n.body, None, n.decorators, n.star_arg, n.starstar_arg)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode': d = d.base
        ret = self.ctype(n.base_type, None)
        if ret == 'void': ret = None
        if type(n.declarator).__name__ == 'CPtrDeclaratorNode': ret = None
        self.func(str(self.declname(d)), d.args, n.body, ret, getattr(n, 'decorators', None))
        if self.cfuncs is not None: self.cfuncs.append(str(self.declname(d)))

    cfuncs = None

    def s_CClassDefNode(self, n):
        bases = [self.e(b) for b in n.bases.args] if n.bases is not None else []
        self.w('class %s(%s):' % (n.class_name, ', '.join(bases) or '_CObject'))
        self.ind += 1
        old = (self.inclass, self.scopes); self.inclass = True; self.scopes = []
        self.clsattrs = dict(self.pxd_attrs.get(str(n.class_name), {}))
        self.w('pass')
        self.stat(n.body)
        self.w('_ctypes = %r' % self.clsattrs)
        self.inclass, self.scopes = old
        self.ind -= 1

    def s_PyClassDefNode(self, n):
        bases = [self.e(b) for b in n.bases.args] if n.bases is not None else []
        self.w('class %s(%s):' % (n.name, ', '.join(bases)))
        self.ind += 1; self.w('pass'); self.stat(n.body); self.ind -= 1

    # ---------------- expressions
    def e(self, n):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None: raise TranslationError('expression %s at line %s' % (type(n).__name__, n.pos[1]))
        return m(n)

    def x_NameNode(self, n): return str(n.name)
    def x_AttributeNode(self, n): return '%s.%s' % (self.e(n.obj), n.attribute)
    def x_IntNode(self, n): return str(n.value).rstrip('uUlL')
    def x_FloatNode(self, n): return str(n.value)
    def x_BoolNode(self, n): return 'True' if n.value else 'False'
    def x_NoneNode(self, n): return 'None'
    def x_NullNode(self, n): return 'None'
    def x_EllipsisNode(self, n): return '...'
    def x_UnicodeNode(self, n): return repr(str(n.value))
    x_StringNode = x_IdentifierStringNode = x_UnicodeNode
    def x_BytesNode(self, n): return repr(n.value.encode('latin1') if isinstance(n.value, str) else bytes(n.value))
    def x_CharNode(self, n): return repr(n.value)
    def x_ImagNode(self, n): return '%sj' % n.value
    def x_JoinedStrNode(self, n): return '_join(%s)' % ', '.join(self.e(v) for v in n.values)

    def x_FormattedValueNode(self, n):
        spec = self.e(n.format_spec) if n.format_spec is not None else "''"
        return '_fmt(%s, %s, %r)' % (self.e(n.value), spec, n.conversion_char)

    def x_TupleNode(self, n):
        a = [self.e(x) for x in n.args]
        return '(' + ', '.join(a) + (',' if len(a) == 1 else '') + ')'

    def x_ListNode(self, n): return '[' + ', '.join(self.e(x) for x in n.args) + ']'
    def x_SetNode(self, n): return '{' + ', '.join(self.e(x) for x in n.args) + '}'
    def x_DictNode(self, n): return '{' + ', '.join('%s: %s' % (self.e(k.key), self.e(k.value)) for k in n.key_value_pairs) + '}'
    def x_MergedDictNode(self, n):
        return '{' + ', '.join('**(%s)' % self.e(k) for k in n.keyword_args) + '}'
    def x_AsTupleNode(self, n): return 'tuple(%s)' % self.e(n.arg)
    def x_StarredUnpackingNode(self, n): return '*' + self.e(n.target)

    def sl(self, s):
        if type(s).__name__ == 'SliceNode':
            f = lambda v: '' if v is None or type(v).__name__ == 'NoneNode' else self.e(v)
            r = '%s:%s' % (f(s.start), f(s.stop))
            st = f(s.step)
            return r + (':' + st if st else '')
        return self.e(s)

    def x_SliceNode(self, n):
        f = lambda v: 'None' if v is None else self.e(v)
        return 'slice(%s, %s, %s)' % (f(n.start), f(n.stop), f(n.step))

    def x_IndexNode(self, n):
        i = n.index
        if type(i).__name__ == 'TupleNode' and i.args:
            s = ', '.join(self.sl(a) for a in i.args)
            if len(i.args) == 1: s += ','
        else: s = self.sl(i)
        return '%s[%s]' % (self.e(n.base), s)

    def x_SliceIndexNode(self, n):
        f = lambda v: '' if v is None or type(v).__name__ == 'NoneNode' else self.e(v)
        return '%s[%s:%s]' % (self.e(n.base), f(n.start), f(n.stop))

    def x_SimpleCallNode(self, n):
        return '%s(%s)' % (self.e(n.function), ', '.join(self.e(a) for a in n.args))

    def x_GeneralCallNode(self, n):
        parts = []
        pa = n.positional_args
        if type(pa).__name__ == 'TupleNode': parts += [self.e(a) for a in pa.args]
        else: parts.append('*' + self.e(pa))
        kw = n.keyword_args
        if kw is not None:
            if type(kw).__name__ == 'DictNode':
                parts += ['%s=%s' % (k.key.value, self.e(k.value)) for k in kw.key_value_pairs]
            else: parts.append('**' + self.e(kw))
        return '%s(%s)' % (self.e(n.function), ', '.join(parts))

    def binop(self, op, a, b):
        if op == '/': return '_div_c(%s, %s)' % (a, b)
        if op == '**': return '_pow(%s, %s)' % (a, b)
        return '(%s %s %s)' % (a, op, b)

    def _bin(self, n): return self.binop(n.operator, self.e(n.operand1), self.e(n.operand2))
    x_AddNode = x_SubNode = x_MulNode = x_DivNode = x_PowNode = x_ModNode = x_IntBinopNode = x_MatMultNode = x_BitwiseOrNode = _bin

    def x_BoolBinopNode(self, n): return '(%s %s %s)' % (self.e(n.operand1), n.operator, self.e(n.operand2))
    def x_NotNode(self, n): return '(not %s)' % self.e(n.operand)
    def x_UnaryMinusNode(self, n): return '(-%s)' % self.e(n.operand)
    def x_UnaryPlusNode(self, n): return '(+%s)' % self.e(n.operand)
    def x_TildeNode(self, n): return '(~%s)' % self.e(n.operand)

    def x_PrimaryCmpNode(self, n):
        s = '(' + self.e(n.operand1)
        c = n
        while c is not None:
            op = {'is_not': 'is not', 'not_in': 'not in', '<>': '!='}.get(c.operator, c.operator)
            s += ' %s %s' % (op, self.e(c.operand2)); c = c.cascade
        return s + ')'

    def x_CondExprNode(self, n):
        return '(%s if %s else %s)' % (self.e(n.true_val), self.e(getattr(n, 'test', None) or n.condition), self.e(n.false_val))

    def x_LambdaNode(self, n):
        sig, _ = self.args(n.args, n.star_arg, n.starstar_arg)
        sc = {}; self.scopes.append(sc)
        r = n.result_expr if getattr(n, 'result_expr', None) is not None else None
        s = '(lambda %s: %s)' % (', '.join(sig), self.e(r))
        self.scopes.pop(); return s

    def x_ComprehensionNode(self, n):
        t = str(n.type) if n.type is not None else 'list'
        parts = []; loop = n.loop
        while True:
            k = type(loop).__name__
            if k == 'ForInStatNode':
                parts.append('for %s in %s' % (self.e(loop.target), self.e(loop.iterator.sequence))); loop = loop.body
            elif k == 'IfStatNode':
                parts.append('if %s' % self.e(loop.if_clauses[0].condition)); loop = loop.if_clauses[0].body
            elif k == 'ExprStatNode': loop = loop.expr
            elif k == 'StatListNode' and len(loop.stats) == 1: loop = loop.stats[0]
            elif k == 'ComprehensionAppendNode': el = self.e(loop.expr); o, c = '[]' if 'list' in t else '{}'; break
            elif k == 'DictComprehensionAppendNode': el = '%s: %s' % (self.e(loop.key_expr), self.e(loop.value_expr)); o, c = '{}'; break
            elif k == 'YieldExprNode': el = self.e(loop.arg); o, c = '()'; break
            else: raise TranslationError('comprehension ' + k)
        return '%s%s %s%s' % (o, el, ' '.join(parts), c)

    def x_InlinedGeneratorExpressionNode(self, n): return self.x_GeneratorExpressionNode(n.gen)

    def x_GeneratorExpressionNode(self, n):
        class Z: pass
        z = Z(); z.type = None; z.loop = n.loop
        if z.loop is None: z.loop = n.def_node.gbody.body
        return self.x_ComprehensionNode(z)

    def x_TypecastNode(self, n):
        ct = self.ctype(n.base_type, n.declarator)
        v = self.e(n.operand)
        if ct == 'ptr' : return v
        if ct in ('int', 'double', 'float', 'complex', 'bint'): return '_cast_%s(%s)' % (ct, v)
        return v

    def x_SizeofTypeNode(self, n): return '8'
    def x_SizeofVarNode(self, n): return '8'

    def x_AmpersandNode(self, n):
        o = n.operand
        if type(o).__name__ == 'IndexNode':
            i = o.index
            s = ', '.join(self.e(a) for a in i.args) if type(i).__name__ == 'TupleNode' else self.e(i)
            return '_PtrItem(%s, (%s,))' % (self.e(o.base), s)
        return '_PtrName(%r, lambda: %s)' % (self.e(o), self.e(o))

    def x_ImportNode(self, n):
        return '__import__(%r)' % str(n.module_name.value)


def pxd_attributes(src):
    """class -> {attr: ctype} from a .pxd"""
    tree = parse(src, 'm')
    g = Gen(); res = {}
    from Cython.Compiler.Visitor import TreeVisitor

    class V(TreeVisitor):
        cur = None
        def visit_Node(s, n): s.visitchildren(n)
        def visit_CClassDefNode(s, n):
            s.cur = str(n.class_name); res[s.cur] = {}
            s.visitchildren(n); s.cur = None
        def visit_CVarDefNode(s, n):
            if s.cur:
                for d in n.declarators:
                    if type(d).__name__ == 'CFuncDeclaratorNode' or type(getattr(d, 'base', None)).__name__ == 'CFuncDeclaratorNode': continue
                    res[s.cur][str(g.declname(d))] = g.ctype(n.base_type, d)
        def visit_CFuncDefNode(s, n): pass
        def visit_DefNode(s, n): pass
    V().visit(tree)
    return res


def translate(src, pxd=None):
    attrs = pxd_attributes(pxd) if pxd else {}
    return Gen(attrs).module(parse(src))


if __name__ == '__main__':
    import os
    f = sys.argv[1]
    pxd = f[:-4] + '.pxd'
    print(translate(open(f).read(), open(pxd).read() if os.path.exists(pxd) else None))
