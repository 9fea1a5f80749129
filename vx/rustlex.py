"""A small Rust lexer and item finder (standard library only).

Used by the extractor: it never interprets Rust beyond token trees, items and
loops, so everything between those anchors reaches the verifier verbatim.
"""
import re

class LexError(Exception):
    pass

class Tok:
    __slots__ = ('k', 's', 'a', 'b', 'm')
    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b, self.m = k, s, a, b, None
    def __repr__(self):
        return f'{self.k}:{self.s}'

_ident = re.compile(r'(?:r#)?[A-Za-z_\u0080-\uffff][A-Za-z0-9_\u0080-\uffff]*')
_num = re.compile(r'[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?')
_rawstr = re.compile(r'(?:b|c)?r(#*)"')
_str = re.compile(r'(?:b|c)?"(?:[^"\\]|\\.)*"', re.S)
_char = re.compile(r"b?'(?:[^'\\\n]|\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.))'")
_life = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*")

def lex(src):
    toks, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1; continue
        if src.startswith('//', i):
            j = src.find('\n', i); i = n if j < 0 else j; continue
        if src.startswith('/*', i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith('/*', j): d += 1; j += 2
                elif src.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            i = j; continue
        m = _rawstr.match(src, i)
        if m:
            e = src.find('"' + m.group(1), m.end())
            if e < 0: raise LexError('raw string')
            e += 1 + len(m.group(1)); toks.append(Tok('str', src[i:e], i, e)); i = e; continue
        m = _str.match(src, i)
        if m: toks.append(Tok('str', m.group(), i, m.end())); i = m.end(); continue
        m = _char.match(src, i)
        if m: toks.append(Tok('chr', m.group(), i, m.end())); i = m.end(); continue
        m = _life.match(src, i)
        if m: toks.append(Tok('life', m.group(), i, m.end())); i = m.end(); continue
        m = _ident.match(src, i)
        if m: toks.append(Tok('id', m.group(), i, m.end())); i = m.end(); continue
        m = _num.match(src, i)
        if m:
            # `0..n`: the number must not swallow a range dot
            toks.append(Tok('num', m.group(), i, m.end())); i = m.end(); continue
        toks.append(Tok('p', c, i, i + 1)); i += 1
    st = []
    pair = {')': '(', ']': '[', '}': '{'}
    for k, t in enumerate(toks):
        if t.k == 'p' and t.s in '([{': st.append(k)
        elif t.k == 'p' and t.s in ')]}':
            if not st or toks[st[-1]].s != pair[t.s]: raise LexError(f'unbalanced {t.s} at {t.a}')
            o = st.pop(); toks[o].m = k; t.m = o
    if st: raise LexError('unbalanced')
    return toks

def cfg_eval(toks):
    """Evaluates the tokens inside cfg(...)."""
    s = [t.s for t in toks]
    pos = 0
    def ev():
        nonlocal pos
        name = s[pos]; pos += 1
        if pos < len(s) and s[pos] == '(':
            pos += 1; vals = []
            while s[pos] != ')':
                vals.append(ev())
                if s[pos] == ',': pos += 1
            pos += 1
            return {'any': any(vals), 'all': all(vals), 'not': not vals[0] if vals else True}[name]
        if pos < len(s) and s[pos] == '=':
            v = s[pos + 1].strip('"'); pos += 2
            return (name, v) in (('target_pointer_width', '64'), ('target_os', 'linux'),
                ('target_family', 'unix'), ('target_arch', 'x86_64'), ('target_endian', 'little'))
        return name in ('unix', 'debug_assertions')
    return ev()

class Item:
    def __init__(self, **kw): self.__dict__.update(kw)
    def __repr__(self): return f'<{self.kind} {self.path}>'

class File:
    def __init__(self, path, name):
        self.path, self.name = path, name
        self.src = open(path, encoding='utf-8').read()
        self.expanded = {}
        self._parse()
        for _ in range(40):
            if not self._expand(): break

    def _parse(self):
        self.toks = lex(self.src)
        self.items = []
        self._items(0, len(self.toks), '', None)

    def _expand(self):
        """replaces calls of simple item macros (one arm, no repetition) by their expansion, on one line"""
        for it in self.items:
            if it.kind != 'macrocall': continue
            args = self.toks[it.body + 1:self.toks[it.body].m]
            new = expand_any(macro_arm(self, it.name), args, self.src)
            if new is None: continue
            a, b = self.toks[it.fn].a, self.toks[it.end - 1].b
            pad = '\n' * self.src.count('\n', a, b)     # later lines keep their numbers
            self.src = self.src[:a] + new + pad + self.src[b:]
            self.expanded[it.name] = self.expanded.get(it.name, 0) + 1
            self._parse()
            return True
        return False

    def text(self, a, b):
        """source text of tokens a..b (exclusive)"""
        return self.src[self.toks[a].a:self.toks[b - 1].b] if a < b else ''

    def _items(self, i, end, prefix, impl):
        T = self.toks
        while i < end:
            attrs, start, on = [], i, True
            while i < end and T[i].s == '#':
                j = i + 1
                if T[j].s == '!': j += 1
                attrs.append((i, T[j].m + 1))
                inner = T[j + 1:T[j].m]
                if inner and inner[0].s == 'cfg': on = on and cfg_eval(inner[2:-1])
                i = T[j].m + 1
            if i >= end: break
            vis = i
            if T[i].s == 'pub':
                i += 1
                if i < end and T[i].s == '(': i = T[i].m + 1
            head = i
            while i < end and T[i].k == 'id' and T[i].s in ('const', 'unsafe', 'async', 'default') and \
                    T[i + 1].s in ('fn', 'unsafe', 'extern', 'impl', 'trait', 'async'):
                i += 1
            if T[i].s == 'extern' and T[i + 1].k == 'str' and T[i + 2].s == 'fn': i += 2
            kw = T[i].s
            if kw == 'fn':
                j = i + 1
                while T[j].s not in '{;' or T[j].k != 'p':
                    j = T[j].m + 1 if T[j].s in ('(', '[') and T[j].k == 'p' else j + 1
                e = T[j].m + 1 if T[j].s == '{' else j + 1
                name = T[i + 1].s
                self._add(Item(kind='fn', path=prefix + name, name=name, start=start, vis=vis, head=head, fn=i,
                    body=j if T[j].s == '{' else None, end=e, attrs=attrs, impl=impl, file=self, on=on))
                i = e
            elif kw in ('struct', 'enum', 'union'):
                j = i + 1
                while not (T[j].k == 'p' and T[j].s in '{;'):
                    j = T[j].m + 1 if T[j].k == 'p' and T[j].s in '([' else j + 1
                e = T[j].m + 1 if T[j].s == '{' else j + 1
                self._add(Item(kind=kw, path=prefix + T[i + 1].s, name=T[i + 1].s, start=start, vis=vis, head=head, fn=i,
                    body=j, end=e, attrs=attrs, impl=None, file=self, on=on))
                i = e
            elif kw in ('impl', 'trait'):
                j = i + 1
                while not (T[j].k == 'p' and T[j].s == '{'):
                    j = T[j].m + 1 if T[j].k == 'p' and T[j].s in '([' else j + 1
                hd = self.text(i, j)
                tr, ty = impl_target(T[i:j]) if kw == 'impl' else (None, T[i + 1].s)
                it = Item(kind=kw, path=prefix + (f'{tr} for {ty}' if tr else ty), name=ty, trait=tr, start=start, vis=vis,
                    head=i, fn=i, body=j, end=T[j].m + 1, attrs=attrs, header=hd, impl=None, file=self, on=on)
                self._add(it)
                if on: self._items(j + 1, T[j].m, prefix + (f'{tr} for {ty}' if tr else ty) + '::', it)
                i = T[j].m + 1
            elif kw == 'mod' and T[i + 2].s == '{':
                if on: self._items(i + 3, T[i + 2].m, prefix + T[i + 1].s + '::', None)
                i = T[i + 2].m + 1
            elif kw == 'macro_rules':
                j = i + 3
                e = T[j].m + 1
                if e < end and T[e].s == ';': e += 1
                self._add(Item(kind='macro', path=prefix + T[i + 2].s, name=T[i + 2].s, start=start, vis=vis, head=i, fn=i,
                    body=j, end=e, attrs=attrs, impl=None, file=self, on=on))
                i = e
            elif T[i].k == 'id' and T[i + 1].s == '!':
                j = i + 2
                e = T[j].m + 1
                if e < end and T[e].s == ';': e += 1
                self._add(Item(kind='macrocall', path=prefix + kw + '!', name=kw, start=start, vis=vis, head=i, fn=i,
                    body=j, end=e, attrs=attrs, impl=impl, file=self, on=on))
                i = e
            else:  # use, const, static, type, extern crate, mod x;
                j = i
                while not (T[j].k == 'p' and T[j].s == ';'):
                    j = T[j].m + 1 if T[j].k == 'p' and T[j].s in '([{' else j + 1
                nm = T[i + 1].s if kw in ('const', 'static', 'type') else kw
                if nm == 'mut': nm = T[i + 2].s
                self._add(Item(kind=kw, path=prefix + nm, name=nm, start=start, vis=vis, head=head, fn=i, body=None,
                    end=j + 1, attrs=attrs, impl=impl, file=self, on=on))
                i = j + 1

    def _add(self, it):
        if it.on: self.items.append(it)

    def find(self, kind, path):
        r = [x for x in self.items if x.kind == kind and x.path == path]
        if len(r) != 1: return None
        return r[0]

def impl_target(T):
    """(trait, type) of impl header tokens, generics removed"""
    i = 1
    if i < len(T) and T[i].s == '<':
        i = skip_angle(T, i)
    parts, cur = [], []
    while i < len(T):
        if T[i].k == 'id' and T[i].s == 'for': parts.append(cur); cur = []
        elif T[i].k == 'id' and T[i].s == 'where': break
        elif T[i].s == '<': i = skip_angle(T, i); continue
        else: cur.append(T[i])
        i += 1
    parts.append(cur)
    # a trait's generic arguments matter to tell impls apart; keep them out of the key
    nm = lambda p: ''.join(t.s for t in p if t.k == 'id' or t.s in ':').split('::')[-1]
    if len(parts) == 2:
        return nm(parts[0]), nm(parts[1])
    return None, nm(parts[0])

def skip_angle(T, i):
    d = 0
    while i < len(T):
        if T[i].s == '<': d += 1
        elif T[i].s == '>' and not (i and T[i - 1].s in '-=' and T[i - 1].b == T[i].a): 
            d -= 1
            if d == 0: return i + 1
        i += 1
    raise LexError('angle')


# ------------------------------------------------------------------ macros

_macros = {}
def macro_arm(f, name):
    """arms [(pattern tokens, body tokens, source)] of a macro_rules, from this file or another of the crate"""
    for g in [f.path] + sorted(crate_files(f.path)):
        if g not in _macros:
            _macros[g] = {}
            try: src = open(g, encoding='utf-8').read()
            except OSError: continue
            if 'macro_rules' not in src: continue
            try: T = lex(src)
            except LexError: continue
            for i, t in enumerate(T):
                if t.s == 'macro_rules' and T[i + 1].s == '!':
                    body = T[i + 3]
                    j, e = i + 4, body.m
                    arms = []
                    while j < e:
                        if T[j].m is None: break
                        pa = T[j + 1:T[j].m]; j = T[j].m + 1
                        if T[j].s != '=' or T[j + 1].s != '>': break
                        j += 2
                        arms.append((pa, T[j + 1:T[j].m])); j = T[j].m + 1
                        if j < e and T[j].s == ';': j += 1
                    _macros[g][T[i + 2].s] = [(p, b, src) for p, b in arms] if arms and j >= e else None
        if name in _macros[g]: return _macros[g][name]
    return None

def crate_files(path):
    import os
    d = path
    while os.path.basename(d) != 'src' and d != '/': d = os.path.dirname(d)
    return [os.path.join(a, x) for a, _, xs in os.walk(d) for x in xs if x.endswith('.rs')]

def expand_any(arms, args, src):
    for arm in arms or ():
        new = expand(arm, args, src)
        if new is not None: return new
    return None

def expand_calls(f, text):
    """a body with the calls of the crate's own macros replaced by (their expansion)"""
    for _ in range(60):
        T = lex(text)
        for i in range(len(T) - 2):
            if T[i].k == 'id' and T[i + 1].s == '!' and T[i + 2].s in ('(', '{', '[') and T[i].s != 'macro_rules' and T[i + 2].m:
                new = expand_any(macro_arm(f, T[i].s), T[i + 3:T[i + 2].m], text)
                if new is not None:
                    a, b = T[i].a, T[T[i + 2].m].b
                    text = text[:a] + '(' + new + ')' + '\n' * text.count('\n', a, b) + text[b:]
                    break
        else: return text
    return text

def expand(arm, args, src):
    pat, body, msrc = arm
    env, i, k = {}, 0, 0
    while i < len(pat):
        if pat[i].s == '$':
            if pat[i + 1].s == '(' or pat[i + 2].s != ':': return None
            name, frag = pat[i + 1].s, pat[i + 3].s
            i += 4
            if k >= len(args): return None
            if frag in ('ident', 'tt', 'lifetime', 'literal'):
                e = k + 1 if args[k].m is None else k + 1 + nested(args, k)
            elif frag in ('expr', 'ty', 'path'):
                stop = pat[i].s if i < len(pat) else None
                e = k
                while e < len(args) and not (args[e].s == stop or args[e].s == ',' and frag != 'ty'): e += 1 if args[e].k != 'p' or args[e].s not in '([{' else 1 + nested(args, e)
            else: return None
            env[name] = (args[k:e], src); k = e
        else:
            if k >= len(args) or args[k].s != pat[i].s: return None
            i += 1; k += 1
    if k < len(args) and not (k == len(args) - 1 and args[k].s == ','): return None
    out, j, last = '', 0, None
    while j < len(body):
        t = body[j]
        sep = '' if last is not None and last.b == t.a else ' '
        if t.s == '$':
            n = body[j + 1]
            if n.s == 'crate': out += sep + 'crate'
            elif n.s in env: out += sep + glue(*env[n.s])
            else: return None
            last = n; j += 2; continue
        out += sep + t.s
        last = t; j += 1
    return out.strip()

def nested(args, k):
    """tokens from an opening bracket to its closing one"""
    d = 0
    for n, t in enumerate(args[k:]):
        if t.k == 'p' and t.s in '([{': d += 1
        elif t.k == 'p' and t.s in ')]}':
            d -= 1
            if d == 0: return n
    return len(args) - k - 1

def glue(T, src):
    out, last = '', None
    for t in T:
        out += ('' if last is None or last.b == t.a else ' ') + t.s
        last = t
    return out
