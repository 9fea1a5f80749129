"""Mechanical extraction of /repo functions into a Verus file.

A unit file (contracts/<unit>.vrs) is Verus text with directives.  Directives
pull items out of /repo's current source; contracts, invariants and ghost
statements of the unit are spliced in at structural anchors (signature, n-th
loop, token pattern).  Executable text is copied token for token; the only
changes are the listed rewrites.
"""
import os, re
from rustlex import File, lex, LexError, expand_calls

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CONTRACTS = os.path.join(os.path.dirname(HERE), 'contracts')

class Lost(Exception):
    """An anchor of the contract is not in the source any more."""

_files = {}
def load(rel):
    if rel not in _files:
        p = os.path.join(REPO, rel)
        try:
            _files[rel] = File(p, rel)
        except (OSError, LexError) as e:
            raise Lost(f'{rel}: {e}')
    return _files[rel]

# ---------------------------------------------------------------- rewriting

def toktree_end(toks, i):
    return toks[i].m + 1 if toks[i].m is not None and toks[i].m > i else i + 1

def parse_pat(s):
    """`$x` matches the shortest run of token trees up to the next literal token; `$x!` exactly one tree"""
    parts = re.split(r'(\$[A-Za-z_]+!?)', s)
    out = []
    for p in parts:
        if p.startswith('$'): out.append(('var', p[1:].rstrip('!'), p.endswith('!')))
        else: out += [('lit', t.s) for t in lex_loose(p)]
    return out

def lex_loose(s):
    # patterns may hold unbalanced brackets
    from rustlex import Tok
    import rustlex
    res, i = [], 0
    out = []
    for m in re.finditer(r"'(?:[^'\\]|\\.)+'(?!\w)|b?\"(?:[^\"\\]|\\.)*\"|'[A-Za-z_]\w*|[A-Za-z_]\w*|[0-9]\w*|\S", s):
        out.append(Tok('x', m.group(), 0, 0))
    return out

def match_at(toks, i, pat, end):
    env = {}
    k = i
    for n, p in enumerate(pat):
        if p[0] == 'lit':
            if k >= end or toks[k].s != p[1]: return None
            k += 1
        else:
            st = k
            if p[2]:
                if k >= end: return None
                k = toktree_end(toks, k)
            else:
                nxt = pat[n + 1][1] if n + 1 < len(pat) else None
                run = []
                for q in pat[n + 1:]:
                    if q[0] != 'lit' or len(run) == 2: break
                    run.append(q[1])
                while k < end and not (k > st and [t.s for t in toks[k:k + len(run)]] == run):
                    if toks[k].k == 'p' and toks[k].s in ')]};' : return None
                    k = toktree_end(toks, k)
                if k >= end and nxt is not None: return None
            if p[1] in env:     # the same text again
                a, b = env[p[1]]
                if [t.s for t in toks[a:b]] != [t.s for t in toks[st:k]]: return None
            env[p[1]] = (st, k)
    return k, env

def rewrite(text, rules, log):
    """applies each rule everywhere, in order; text is balanced Rust"""
    for pat_s, rep in rules:
        pat = parse_pat(pat_s)
        guard = 0
        pos = 0
        while True:
            toks = lex(text)
            hit = None
            for i in range(len(toks)):
                if toks[i].a < pos: continue
                if toks[i].s != pat[0][1] and pat[0][0] == 'lit': continue
                r = match_at(toks, i, pat, len(toks))
                if r: hit = (i, r); break
            if not hit: break
            i, (k, env) = hit
            new = rep
            for v, (a, b) in sorted(env.items(), key=lambda x: -len(x[0])):
                new = new.replace('$' + v, text[toks[a].a:toks[b - 1].b] if b > a else '')
            text = text[:toks[i].a] + new + text[toks[k - 1].b:]
            pos = toks[i].a + (len(new) if '$' not in rep or True else 0)
            # allow rewriting inside captured text: restart after the first new token
            pos = toks[i].a + 1 if new[:1] != toks[i].s[:1] else toks[i].a + len(toks[i].s)
            log[pat_s] = log.get(pat_s, 0) + 1
            guard += 1
            if guard > 200: raise Lost(f'rewrite {pat_s} does not terminate')
    return text

def strip_attrs(text):
    """drops attributes inside a body or item; keeps everything else"""
    toks = lex(text)
    cut = []
    i = 0
    while i < len(toks):
        if toks[i].s == '#' and i + 1 < len(toks) and toks[i + 1].s == '[':
            inner = toks[i + 2].s
            if inner == 'cfg' or inner == 'cfg_attr': raise Lost('cfg inside an extracted item')
            cut.append((toks[i].a, toks[toks[i + 1].m].b)); i = toks[i + 1].m + 1
        else: i += 1
    for a, b in reversed(cut): text = text[:a] + text[b:]
    return text

LOOPKW = ('for', 'while', 'loop')

def loops(toks):
    """indices of loop keywords in a body with the index of the loop's brace"""
    out = []
    for i, t in enumerate(toks):
        if t.k == 'id' and t.s in LOOPKW:
            if t.s == 'for' and i + 1 < len(toks) and toks[i + 1].s == '<': continue
            j = i + 1
            while not (toks[j].k == 'p' and toks[j].s == '{'):
                j = toks[j].m + 1 if toks[j].m is not None and toks[j].m > j else j + 1
            out.append((i, j))
    return out

# ------------------------------------------------------------------- units

class Section:
    def __init__(self, kind, args): self.kind, self.args, self.lines = kind, args, []
    @property
    def text(self): return '\n'.join(self.lines)

class Unit:
    def __init__(self, name, variant=None, stub=(), drop=()):
        self.name, self.variant = name, variant
        # stub: functions whose body the verifier cannot take (contract assumed, reported as not proved)
        # drop: functions whose stub it cannot take either
        self.stub, self.drop = dict(stub), dict(drop)
        self.out, self.fns, self.rules, self.rwlog = [], [], [], {}
        self.lost, self.losthints = [], []
        self.defs = set()
        self.world, self.world2, self.paired = [], [], []
        self.srcrefs = []
        self.assumed = None      # inside a unit whose contracts are used here and proved there
        self.included, self.types = set(), []
        self.used = {}
        self.templates, self.macros = {}, {}

    def emit(self, text): self.out += text.split('\n')
    @property
    def line(self): return len(self.out) + 1

    def build(self):
        self._file(os.path.join(CONTRACTS, self.name + '.vrs'))
        return '\n'.join(self.out) + '\n'

    def _file(self, path):
        lines = open(path).read().split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]; s = l.strip()
            if not s.startswith('//@'):
                self.emit(l); i += 1; continue
            d = s[3:].strip()
            kw, _, rest = d.partition(' ')
            if kw == 'include':
                if rest.strip() not in self.included:
                    self.included.add(rest.strip())
                    self._file(os.path.join(CONTRACTS, rest.strip()))
            elif kw == 'included': self.included.add(rest.strip())
            elif kw == 'use':
                w, o = self._opts(rest)
                key = w[0] + (' ' + o['mod'] if 'mod' in o else '')
                if key not in self.included:
                    self.included.add(key)
                    self._use(w, o)
            elif kw == 'rewrite':
                a, b = rest.split('==>')
                self.rules.append((a.strip(), b.strip()))
            elif kw == 'world': self.world += rest.split()
            elif kw == 'world2': self.world2 += rest.split()
            elif kw == 'paired': self.paired.append(tuple(rest.split()))
            elif kw in ('type', 'const'):
                self._guard(lambda: self._type(kw, rest), rest)
            elif kw == 'macro': self._macro(rest)
            elif kw == 'template':
                t = []
                i += 1
                while lines[i].strip() != '//@ end': t.append(lines[i]); i += 1
                self.templates[rest.split()[0]] = (rest.split()[1:], '\n'.join(t))
            elif kw == 'use_macro': self._use_macro(rest)
            elif kw == 'fn':
                secs = [Section('spec', '')]
                i += 1
                while lines[i].strip() != '//@ end':
                    t = lines[i].strip()
                    if t.startswith('//@'):
                        k, _, r = t[3:].strip().partition(' ')
                        secs.append(Section(k, r.strip()))
                    else: secs[-1].lines.append(lines[i])
                    i += 1
                self._fn_or_stub(rest, secs)
            else: raise Exception('bad directive ' + l)
            i += 1

    def _use(self, words, opts):
        """the contracts of another unit, each function without its body; in a module of its own"""
        keep = self.rules, self.world, self.world2, self.paired, self.assumed, list(self.included), list(self.types), self.out
        self.rules, self.world, self.world2, self.paired, self.assumed, self.out = list(self.rules), [], [], [], words[0].split('.')[0], []
        self._file(os.path.join(CONTRACTS, words[0]))
        body = [l for l in self.out if l.strip() not in ('fn main() {}', 'use vstd::prelude::*;')]
        # its lemmas are proved there; a definition can be kept shut here (and revealed)
        body, here = '\n'.join(body), words[0].split('.')[0]
        body = re.sub(r'(#\[verifier::external_body\][^\n]*\n)?^([ \t]*)((?:pub )?(?:broadcast )?proof fn )', lambda m: m.group(0) if m.group(1) else f'{m.group(2)}#[verifier::external_body] // proved in {here}\n{m.group(2)}{m.group(3)}', body, flags=re.M)
        for n in opts.get('opaque', '').split(','):
            if n: body = re.sub(r'^(\s*)(pub open spec fn %s\b)' % n, r'\1#[verifier::opaque]\n\1\2', body, flags=re.M)
        body = body.split('\n')
        inc, types = set(self.included), self.types
        self.rules, self.world, self.world2, self.paired, self.assumed, inc0, types0, self.out = keep
        # in a module they are not seen from outside it
        self.included, self.types = (set(inc0), types0) if 'mod' in opts else (inc, types)
        if 'mod' in opts:
            self.emit(f'pub mod {opts["mod"]} {{ use super::*;')
            self.out += body
            self.emit(f'}}\npub use {opts["mod"]}::{{' + opts.get('names', '*') + '};')
        else: self.out += body

    def _macro(self, rest):
        """a macro_rules of the crate, as it stands, apart from the rewrites"""
        words, opts = self._opts(rest)
        try: f = load(words[0]); it = f.find('macro', words[1])
        except Lost: it = None
        if it is None: return       # its uses are lost then
        T = f.toks
        text = re.sub(r'\$\s*crate\b', 'crate', f.src[T[it.fn].a:T[it.end - 1].b])
        text = rewrite(text, self.rules, self.rwlog)
        line0 = f.src.count('\n', 0, T[it.fn].a) + 1
        self.srcrefs.append((words[1] + '!', words[0], line0, text))
        self.macros[words[1]] = (words[0], line0)
        self.emit(text)

    def _use_macro(self, rest):
        """TEMPLATE MACRO NAME | arg | arg: a function of ours around one use of the crate's macro"""
        head, *args = [x.strip() for x in rest.split(' | ')]
        tpl, mac, name = head.split()
        names, text = self.templates[tpl]
        if mac not in self.macros:
            self.lost.append((f'{mac}_{name}', 'macro not found (or not unique)')); return
        for k, v in zip(['mac', 'name'] + names, [mac, name] + args): text = text.replace('«' + k + '»', v)
        fn = f'{mac}_{name}'
        if fn in self.drop or fn in self.stub:
            self.lost.append((fn, self.drop.get(fn) or self.stub[fn])); return
        text = text.replace('«start»', 'proof { assert(false); }' if self.variant == 'vac-fn' else '')
        file, line0 = self.macros[mac]
        a = self.line
        self.emit(text)
        self.fns.append(dict(name=fn, file=file, src_line=line0, a=a, b=self.line - 1, stub=False, loops=0, hasreq='requires' in text))

    def _guard(self, f, what):
        try: f()
        except (Lost, LexError) as e:
            self.lost.append((what.strip().split(' ', 1)[1], str(e)))

    def _opts(self, rest):
        words, opts = [], {}
        for w in re.findall(r'\w+="[^"]*"|\S+', rest):
            m = re.match(r'(\w+)=(.*)$', w)
            if m and not w.startswith('src'): opts[m.group(1)] = m.group(2).strip('"')
            else: words.append(w)
        return words, opts

    def _type(self, kw, rest):
        words, opts = self._opts(rest)
        f = load(words[0]); path = ' '.join(words[1:])
        if (words[0], path) in self.types: return
        self.types.append((words[0], path))
        kinds = ('const', 'static') if kw == 'const' else ('struct', 'enum', 'type')
        its = [x for x in f.items if x.kind in kinds and x.path == path]
        if len(its) != 1: raise Lost(f'{len(its)} definitions')
        it = its[0]
        body = strip_attrs(f.src[f.toks[it.fn].a:f.toks[it.end - 1].b])
        body = rewrite(body, self.rules, self.rwlog)
        der = []
        for a, b in it.attrs:
            tx = [t.s for t in f.toks[a:b]]
            if 'derive' in tx: der += [x for x in tx[4:] if x[0].isalpha()]
        keep = opts.get('keep', 'Clone Copy PartialEq Eq').split()
        der = [d for d in der if d in keep] + opts.get('derive', '').split()
        if kw == 'const':
            self.emit('pub ' + re.sub(r':\s*&\s*str\b', ": &'static str", body))
            lit = [t for t in lex(body) if t.s.startswith('"')]
            if 'chars' in opts and len(lit) == 1:
                # what the literal says, as a sequence of characters
                import ast
                txt = ast.literal_eval(re.sub(r'\\u\{(\w+)\}', lambda m: '\\U%08x' % int(m.group(1), 16), lit[0].s))
                cs = ', '.join(f"'\\u{{{ord(c):x}}}'" for c in txt)
                self.emit(f'pub proof fn lit_{path}() ensures {path}@ == seq![{cs}] {{ reveal_strlit({lit[0].s}); assert({path}@ =~= seq![{cs}]); }}')
            return
        if it.kind == 'struct': body = publish(body)
        if der: self.emit('#[derive(' + ', '.join(der) + ')]')
        self.emit('pub ' + body)

    def _fn_or_stub(self, rest, secs):
        words, opts = self._opts(rest)
        name = opts.get('id', ' '.join(words[1:]))
        if self.assumed:
            try: self._fn(rest, secs, stub=True)
            except (Lost, LexError) as e: self.lost.append((name, str(e)))
            return
        if name in self.drop:
            self.lost.append((name, self.drop[name])); return
        why = self.stub.get(name)
        if why is None:
            try:
                self._fn(rest, secs); return
            except (Lost, LexError) as e: why = str(e)
        self.lost.append((name, why))
        try: self._fn(rest, secs, stub=True)
        except (Lost, LexError): pass

    def _fn(self, rest, secs, stub=False):
        words, opts = self._opts(rest)
        f = load(words[0]); path = ' '.join(words[1:])
        it = f.find('fn', path)
        if it is None: raise Lost('function not found (or not unique)')
        T = f.toks
        if it.body is None: raise Lost('no body')
        sig = f.src[T[it.fn].a:T[it.body].a].rstrip()
        body = f.src[T[it.body].a:T[it.end - 1].b]
        line0 = f.src.count('\n', 0, T[it.fn].a) + 1
        self.srcrefs.append((path, words[0], line0, f.src[T[it.start].a:T[it.end - 1].b]))
        if stub: body = '{ unimplemented!() }'
        body = strip_attrs(body)
        rules = list(self.rules)
        sigrules = []
        ret = 'r'
        header = None
        spec, loopsecs, hints, pre = '', {}, [], ''
        loopbody = {}
        for s in secs:
            if s.kind == 'spec': spec = s.text
            elif s.kind == 'rewrite':
                a, b = s.args.split('==>'); rules.append((a.strip(), b.strip()))
            elif s.kind == 'sigrewrite':
                a, b = s.args.split('==>'); sigrules.append((a.strip(), b.strip()))
            elif s.kind == 'loop': loopsecs[int(s.args.split()[0])] = s
            elif s.kind == 'loopbody': loopbody[int(s.args.split()[0])] = s
            elif s.kind == 'hint': hints.append(s)
            elif s.kind == 'start': pre += s.text + '\n'
            else: raise Exception('bad section ' + s.kind)
        if stub: loopsecs, loopbody, hints, pre = {}, {}, [], ''
        if 'params' in opts:
            sig, body = canon_params(sig, body, opts['params'].split())
        if not stub: body = expand_calls(f, body)
        body = rewrite(body, rules, self.rwlog)
        body = loop_values(body, self.rwlog)
        for a, b in self.paired:
            if not stub and len(re.findall(rf'\b{a}\b', body)) != len(re.findall(rf'\b{b}\b', body)):
                raise Lost(f'a use of {a} whose end is not found')
        # a second world, of what another lock guards
        for v, names, ty in (('w', self.world, 'World'), ('v', self.world2, 'Own')):
            body = thread_world(body, names, v)
            if v in opts['threads'] if 'threads' in opts else it.name in names or opts.get('as') in names: sig = add_param(sig, f'Tracked({v}): Tracked<&mut {ty}>')
        sig = rewrite(sig, [r for r in self.rules] + sigrules, self.rwlog)
        if 'as' in opts: sig = re.sub(r'^fn\s+\w+', 'fn ' + opts['as'], sig)
        sig = name_ret(sig, ret)
        # hints and loops, spliced from the back
        toks = lex(body)
        ins = []
        lp = loops(toks)
        want = opts.get('loops')
        nl = int(want) if want is not None else (max(loopsecs) + 1 if loopsecs else 0)
        if loopsecs and len(lp) != nl:
            raise Lost(f'{len(lp)} loops where the contract has {nl}')
        for n, s in loopsecs.items():
            ki, bi = lp[n]
            kind = re.search(r'kind=(\w+)', s.args)
            if kind and kind.group(1) != toks[ki].s:
                raise Lost(f'loop {n} is a `{toks[ki].s}` loop')
            m = re.search(r'iter=(\w+)', s.args)
            if m and toks[ki].s == 'for':
                j = ki
                while toks[j].s != 'in':
                    j = toks[j].m + 1 if toks[j].m is not None and toks[j].m > j else j + 1
                ins.append((toks[j].b, f' {m.group(1)}:'))
            ins.append((toks[bi].a, '\n' + s.text + '\n'))
            if self.variant == ('loop', path, n): ins.append((toks[bi].b, ' proof { assert(false); } '))
        for n, s in loopbody.items():
            ins.append((toks[lp[n][1]].b, '\n' + s.text + '\n'))
        if self.variant == 'vac-loop':
            for n, (ki, bi) in enumerate(lp): ins.append((toks[bi].b, f' proof {{ assert(false); }} '))
        for s in hints:
            m = re.match(r'(before|after)\s+(?:#(\d+)\s+)?(.*)$', s.args)
            pat = parse_pat(m.group(3))
            nth = int(m.group(2) or 0)
            hit = None; c = 0
            for i in range(len(toks)):
                r = match_at(toks, i, pat, len(toks))
                if r:
                    if c == nth: hit = (i, r[0]); break
                    c += 1
            if not hit:
                self.losthints.append((opts.get('id', path), m.group(3))); continue
            pos = toks[hit[0]].a if m.group(1) == 'before' else toks[hit[1] - 1].b
            ins.append((pos, '\n' + s.text + '\n'))
        ins_sorted = sorted(enumerate(ins), key=lambda x: (x[1][0], x[0]))
        for _, (p, t) in reversed(ins_sorted): body = body[:p] + t + body[p:]
        start = '{\n' + pre
        if self.variant == 'vac-fn' and not stub: start += 'proof { assert(false); }\n'
        body = start + body[1:]
        impl = opts.get('impl')
        if impl is None and it.impl is not None:
            hd = it.impl.header
            if it.impl.trait:
                # a trait's method becomes an inherent one
                tk = lex(hd); d, g = 0, tk[0].b
                for n, t in enumerate(tk[1:], 1):
                    if t.s == '<': d += 1
                    elif t.s == '>' and tk[n - 1].s not in ('-', '='):
                        d -= 1
                        if d == 0 and tk[1].s == '<' and g == tk[0].b: g = t.b
                    elif t.s == 'for' and d == 0: hd = hd[:g] + ' ' + hd[t.b:]; break
            impl = rewrite(hd, self.rules, self.rwlog)
        attrs = opts.get('attr', '')
        a = self.line
        if impl: self.emit(impl.strip() + ' {')
        for x in attrs.split(';'):
            if x: self.emit(f'#[{x}]')
        if stub: self.emit('#[verifier::external_body]' + (f' // proved in {self.assumed}' if self.assumed else ''))
        self.emit('pub ' + sig)
        self.emit(spec)
        self.emit(body)
        if impl: self.emit('}')
        if self.assumed:
            self.used.setdefault(self.assumed, []).append(opts.get('id', path)); return
        self.fns.append(dict(name=opts.get('id', path), file=words[0], src_line=line0, a=a, b=self.line - 1,
                             stub=stub, loops=len(lp), hasreq='requires' in spec))

def loop_values(body, log):
    """`let r = loop { .. break V .. }` to a loop that assigns a variable and breaks; the same for a loop as last expression"""
    for n in range(50):
        T = lex(body)
        for i, t in enumerate(T):
            if t.k != 'id' or t.s != 'loop': continue
            if T[i + 1].s != '{': continue
            e = T[i + 1].m
            brk = own_breaks(T, i + 2, e)
            brk = [b for b in brk if T[b + 1].s not in (';', '}', ',', ')')]
            if not brk: continue
            if i >= 3 and T[i - 1].s == '=' and T[i - 3].s == 'let' and T[e + 1].s == ';':
                var, a, pre, post, z = f'lv{n}__', T[i - 3].a, f'let lv{n}__; ', f' let {T[i - 2].s} = lv{n}__;', T[e + 1].b
            elif i >= 1 and T[i - 1].s in ('{', '}', ';') and T[e + 1].s == '}':
                var, a, pre, post, z = f'lv{n}__', t.a, f'let lv{n}__; ', f' lv{n}__', T[e].b
            else: raise Lost('a loop with a value in a place that is not handled')
            inner = body[t.a:T[e].b]
            off = t.a
            for b in reversed(brk):
                k = b + 1
                while T[k].s not in (',', ';', '}', ')'): k = T[k].m + 1 if T[k].m is not None and T[k].m > k else k + 1
                inner = inner[:T[b].a - off] + '{ ' + var + ' = ' + body[T[b + 1].a:T[k - 1].b] + '; break }' + inner[T[k - 1].b - off:]
            body = body[:a] + pre + inner + post + body[z:]
            log['loop with a value'] = log.get('loop with a value', 0) + 1
            break
        else: return body
    return body

def own_breaks(T, i, e):
    """breaks of this loop, not of one inside"""
    out = []
    while i < e:
        if T[i].k == 'id' and T[i].s in LOOPKW:
            while T[i].s != '{' or T[i].k != 'p': i = T[i].m + 1 if T[i].m is not None and T[i].m > i else i + 1
            i = T[i].m + 1; continue
        if T[i].k == 'id' and T[i].s == 'break': out.append(i)
        i += 1
    return out

def thread_world(body, names, v='w'):
    """hands the ghost World on to the calls that act on it"""
    T = lex(body)
    for i in range(len(T) - 2, -1, -1):
        if T[i].k == 'id' and T[i].s in names and T[i + 1].s == '(' and T[i + 1].k == 'p':
            e = T[i + 1].m
            empty = e == i + 2
            comma = '' if empty or T[e - 1].s == ',' else ', '
            body = body[:T[e].a] + comma + f'Tracked(&mut *{v})' + body[T[e].a:]
            T = lex(body)
    return body

def add_param(sig, p):
    T = lex(sig)
    i = params_at(T)
    e = T[i].m
    comma = '' if e == i + 1 or T[e - 1].s == ',' else ', '
    return sig[:T[e].a] + comma + p + sig[T[e].a:]

def params_at(toks):
    """the bracket of the parameter list, past any generics"""
    d = 0
    for i, t in enumerate(toks):
        if t.s == '<': d += 1
        elif t.s == '>' and toks[i - 1].s not in ('-', '='): d -= 1
        elif t.s == '(' and d == 0: return i
    raise Lost('no parameter list')

def canon_params(sig, body, names):
    """alpha-renames the parameters (every use of the identifier) to the names the contract uses"""
    toks = lex(sig)
    i = params_at(toks)
    have, j, depth = [], i + 1, 0
    start = True
    while j < toks[i].m:
        t = toks[j]
        if start and t.s in ('&', 'mut') or t.k == 'life': j += 1; continue
        if start and t.s == 'self': start = False
        elif start and t.k == 'id':
            have.append(t.s if toks[j + 1].s == ':' else None); start = False
        elif start: have.append(None); start = False
        if t.s == ',' and depth == 0: start = True
        if t.s == '<': depth += 1
        elif t.s == '>' and toks[j - 1].s != '-': depth -= 1
        j = t.m + 1 if t.m is not None and t.m > j else j + 1
    if len(have) != len(names): raise Lost(f'{len(have)} parameters where the contract has {len(names)}')
    def sub(text, a, b):
        tk = lex(text)
        if any(t.k == 'id' and t.s == b for t in tk): raise Lost(f'name {b} is taken')
        for n in range(len(tk) - 1, -1, -1):
            t = tk[n]
            if t.k == 'id' and t.s == a:
                if n and tk[n - 1].s == '.' and not (n > 1 and tk[n - 2].s == '.'): continue
                text = text[:t.a] + b + text[t.b:]
        return text
    for a, b in zip(have, names):
        if a is None or a == b: continue
        sig, body = sub(sig, a, b), sub(body, a, b)
    return sig, body

def publish(body):
    """makes the fields of a struct public"""
    toks = lex(body)
    for i, t in enumerate(toks):
        if t.k == 'p' and t.s in '({' and t.m is not None: break
        if t.k == 'p' and t.s == ';': return body
    else: return body
    ins, j, end = [], i + 1, t.m
    while j < end:
        if toks[j].s != 'pub': ins.append(toks[j].a)
        elif toks[j + 1].s == '(' and t.s == '{':
            pass
        # to the next comma at this depth, angle brackets counted
        d = 0
        while j < end and not (toks[j].s == ',' and d == 0):
            if toks[j].s == '<': d += 1
            elif toks[j].s == '>' and toks[j - 1].s != '-': d -= 1
            j = toks[j].m + 1 if toks[j].m is not None and toks[j].m > j else j + 1
        j += 1
    for p in reversed(ins): body = body[:p] + 'pub ' + body[p:]
    return re.sub(r'pub\s*\((crate|super)\)', 'pub', body)

def name_ret(sig, r):
    toks = lex(sig)
    # the arrow at depth 0 after the parameter list
    i = params_at(toks)
    j = toks[i].m + 1
    if j + 1 < len(toks) and toks[j].s == '-' and toks[j + 1].s == '>':
        e = len(toks)
        for k in range(j + 2, len(toks)):
            if toks[k].s == 'where' and toks[k].k == 'id': e = k; break
        ty = sig[toks[j + 2].a:toks[e - 1].b]
        return sig[:toks[j].a] + f'-> ({r}: {ty})' + sig[toks[e - 1].b:]
    return sig
