"""Weaves the contracts in verus/contracts/*.vc into the functions the extraction (weaver) prints, and keeps a map from
the lines of the result to the functions and clauses they came from."""
import json
import re


class Lost(Exception):
    """an anchor of a contract does not exist in the current source"""


class Entry:
    def __init__(self, kind, key, line, src):
        self.kind, self.key, self.line, self.src = kind, key, line, src
        self.sect = []          # (name, arg, text)

    def get(self, name, arg=None):
        for n, a, t in self.sect:
            if n == name and (arg is None or a == arg):
                return t
        return None

    def all(self, name):
        return [(a, t) for n, a, t in self.sect if n == name]


def parse(text, src):
    out, cur, sec = [], None, None
    for n, l in enumerate(text.split('\n'), 1):
        if l.startswith('@@ '):
            p = l[3:].split(None, 1)
            cur = Entry(p[0], p[1].strip() if len(p) > 1 else '', n, src)
            out.append(cur)
            sec = None
            if cur.kind in ('raw', 'file'):
                sec = ['text', '', '']
                cur.sect.append(sec)
        elif l.startswith('@') and cur is not None:
            p = l[1:].split(None, 1)
            sec = [p[0], p[1].strip() if len(p) > 1 else '', '']
            cur.sect.append(sec)
        elif l.startswith('#') and not l.startswith('#['):
            if sec is not None and cur.kind not in ('raw', 'file'):
                sec = None
        elif sec is not None:
            sec[2] += l + '\n'
    return out


class Items:
    """the extracted items by key"""

    def __init__(self, items):
        self.by = {}
        self.owner = {}
        self.raw = []           # every function and constant as the extraction names it
        self.fresh = set()      # the functions the contracts were not written for (put back where they are called)
        items = self._take(items)
        self._walk(items, None)

    def _take(self, items):
        def walk(l):
            for i in l:
                if i['kind'] == 'fn':
                    self.raw.append(i['key'])
                elif i['kind'] == 'const':
                    self.raw.append('const ' + i['key'])
                walk(i.get('items') or [])
        for i in items:
            if i['kind'] == 'fresh':
                self.fresh |= set(i['names'])
        items = [i for i in items if i['kind'] != 'fresh']
        walk(items)
        return items

    def merge(self, items, crate):
        """the items of another crate; functions in modules go by their path, constants by the crate's name"""
        items = self._take(items)
        for i in items:
            if i['kind'] == 'const':
                self.by[('const', f"{crate}/{i['key']}")] = i
        self._walk(items, None, '')

    def _walk(self, items, owner, path=None):
        for i in items:
            if i['kind'] == 'mod':
                self._walk(i['items'], None, None if path is None else f"{path}{i['name']}::")
                continue
            k = i['key']
            if i['kind'] == 'fn' and owner is None and path:
                k = i['key'] = path + k
            if i['kind'] == 'fn':
                self.by.setdefault(('fn', k), i)
                self.owner[k] = owner
            elif i['kind'] == 'impl' and ('impl', k) in self.by:
                self.by[('impl', k)]['items'] += i['items']
                for f in i['items']:
                    if f['kind'] == 'fn':
                        self.by.setdefault(('fn', f['key']), f)
                        self.owner[f['key']] = self.by[('impl', k)]
                continue
            else:
                self.by.setdefault((i['kind'], k), i)
            if 'items' in i:
                self._walk(i['items'], i)

    def fn(self, key):
        return self.by.get(('fn', key))

    def impl(self, key):
        return self.by.get(('impl', key))

    def trait(self, key):
        return self.by.get(('trait', key))

    def item(self, key):
        for k in ('struct', 'enum', 'const', 'type'):
            if (k, key) in self.by:
                return self.by[(k, key)]


PH = re.compile(r'__VP_(ST|BEFORE|LOOP|BODY|END|AFTER|CLO)_(\d+)__')


class Out:
    def __init__(self, assume=()):
        self.lines = []
        self.map = []           # per line: (function key or None, contract file, contract line, spec | decl | body | None)
        self.assume = dict(assume)   # functions whose body cannot be checked in this run: key -> reason
        self.locals = {}        # the names the annotations of a function were written for
        self.bodies = []        # the functions emitted with their body
        self.smoke = None       # a statement put at the start (`smoke`) and the end (`smoke_end`) of every body, to see it refuted
        self.smoke_end = None

    def add(self, text, tag=None):
        for l in text.rstrip('\n').split('\n'):
            self.lines.append(l)
            self.map.append(tag)

    def text(self):
        return '\n'.join(self.lines) + '\n'


RET = re.compile(r'return\s+__VP_RET_\d+__\s*\(')


def leave(t, fin, rname):
    """puts the annotations for the end of the function in front of its `return`s"""
    while True:
        m = RET.search(t)
        if m is None:
            return t
        d, i = 1, m.end()
        while d:
            d += {'(': 1, ')': -1}.get(t[i], 0)
            i += 1
        x = t[m.end():i - 1].strip().rstrip(',')
        if not fin:
            new = f'return {x}'
        elif x:
            new = f"{{ let {rname or 'v_left'} = {x};\n{fin}\nreturn {rname or 'v_left'} }}"
        else:
            new = f'{{ {fin}\nreturn }}'
        t = t[:m.start()] + new + t[i:]


def body_text(f, e, key, notes, smoke='', smoke_end=''):
    """the body of f with the annotations of e woven in"""
    used = set()

    def ann(name, k):
        if e is None:
            return ''
        t = e.get(name, str(k))
        if t is not None:
            used.add((name, str(k)))
        return t or ''

    ats = []
    if e is not None:
        for a, t in e.all('at'):
            m = re.match(r'/(.*)/\s*(\d*)$', a)
            rx, nth = re.compile(m.group(1)), int(m.group(2) or 0)
            hits = [k for k, s in enumerate(f['marks']) if rx.search(s.split('\n')[0])]
            # innermost statements only: a statement whose first line matches
            if len(hits) <= nth:
                raise Lost(f'{key}: no statement matches {a}')
            ats.append((hits[nth], t))

    def sub(m):
        kind, k = m.group(1), int(m.group(2))
        if kind == 'ST':
            return '\n'.join(t for h, t in ats if h == k)
        if kind == 'CLO':
            c = f['closures'][k]
            hd = ann('closure', k)
            for j, q in enumerate(c['params']):
                hd = hd.replace(f'${j}', q.split(':')[0].strip())
            body = PH.sub(sub, c['body'])
            if '$body' in hd:
                # the closure is the expression it returns
                b = body.strip().rstrip(',')
                b = b[1:-1].strip() if b.startswith('{') and b.endswith('}') else b
                if not re.fullmatch(r"[\w\s*!=<>&|.()+-]+", b) or re.search(r"\w\s*\(", b):
                    raise Lost(f'{key}: closure {k} is more than an expression')
                hd = hd.replace('$body', b)
            pre, post = ann('cbody', k), ann('cend', k)
            if hd.strip():
                if post:
                    body = f'let v_cr = {{ {body} }};\n{post}\nv_cr'
                return f"{hd.rstrip()}\n{{ {pre}{body} }}"
            return f"|{', '.join(c['params'])}| {{ {body} }}"
        name = {'BEFORE': 'before', 'LOOP': 'loop', 'BODY': 'body', 'END': 'end', 'AFTER': 'after'}[kind]
        return '\n' + ann(name, k) if ann(name, k) else ''

    res = e.get('result') if e is not None else None
    fin = e.get('finish') if e is not None else None
    rname = next((a for n, a, _ in e.sect if n == 'result'), None) if e is not None else None
    everywhere = not any(n == 'finish' and a == 'tail' for n, a, _ in e.sect) if e is not None else False
    stmts = leave(PH.sub(sub, f['stmts']), fin if everywhere else None, rname)
    tail = f['tail']
    out = ''
    if e is not None and e.get('start'):
        out += e.get('start')
    out += smoke + stmts + '\n'
    if tail is not None:
        tail = leave(PH.sub(sub, tail), fin if everywhere else None, rname)
        if not rname and fin and ';' in tail:
            rname = 'v_left'        # the annotations hold once the tail is evaluated
        if rname:
            out += f"let {rname} = {tail};\n{fin or ''}\n{smoke_end}{rname}\n"
        else:
            out += (fin or '') + '\n' + smoke_end + tail + '\n'
    else:
        out += (fin or '') + smoke_end
    if e is not None:
        for n, a, _ in e.sect:
            if n in ('loop', 'closure', 'before', 'body', 'end', 'after', 'cbody', 'cend') and (n, a) not in used:
                raise Lost(f'{key}: no {n} {a}')
    return out


def sig_text(f, e, impl_of_trait, vis):
    s = f['sig']
    gen = s['generics']
    params = s['params']
    ret = s['ret']
    where = s['where']
    if params.startswith('mut self'):
        params = params[4:]
    rn = 'r'
    attrs = ''
    if e is not None:
        for n, a, t in e.sect:
            if n == 'generics':
                gen = a
            if n == 'params':
                params = a
            if n == 'where':
                where = a
            if n == 'rettype':
                ret = a
            if n == 'ret':
                rn = a
            if n == 'attr':
                attrs += a + '\n'
    o = attrs + (vis if not impl_of_trait else '') + f"fn {s['name']}{gen}({params})"
    if ret:
        o += f' -> ({rn}: {ret})'
    if where:
        o += f'\n    where {where},'
    return o


BIND = re.compile(r"\blet\s+([^=;]*?)\s*(?::[^=;]*)?(?:=|;)|\b(?:Some|Ok|Err)\(([^()=]*)\)\s*(?:=>|if\b)")
PARAM = re.compile(r"(?:^|,)\s*(?:mut\s+)?([a-z_]\w*)\s*:(?!:)")


def names(f):
    """the parameters of a function and the locals it binds, in order"""
    ps, d, flat = f['sig']['params'], 0, ''
    for c in ps:
        d -= c in ')]>'
        if d == 0 or c in '([<':
            flat += c if d == 0 else ''
        d += c in '([<'
    lets = []
    for m in BIND.finditer((f.get('stmts') or '') + '\n' + (f.get('tail') or '')):
        lets += [x for x in re.findall(r"(?<![\w:])[a-z_]\w*", m.group(1) or m.group(2) or '') if x not in ('mut', 'ref') and not x.startswith('v_')]
    return [PARAM.findall(flat), lets]


def renamed(e, f, was):
    """the annotations of e for a body that calls its parameters or locals something else"""
    if e is None or was is None or f.get('stmts') is None:
        return e
    now = names(f)
    if now == was:
        return e
    maps = []
    for o, n in zip(was, now):
        pairs = list(zip(o, n)) if len(o) == len(n) else []
        m = {}
        for a, b in pairs:
            if m.setdefault(a, b) != b:
                m, pairs = {}, []
                break
        maps.append({a: b for a, b in m.items() if a != b})
    if not maps[0] and not maps[1]:
        return e
    both = dict(maps[0], **maps[1])
    entry = dict(maps[1], **maps[0])      # at the start of the body, a name shadowed later is the parameter

    def put(m, t):
        return re.sub(r"(?<![\w.])(%s)(?!\w)" % '|'.join(map(re.escape, m)), lambda x: m[x.group(1)], t) if m and t else t
    r = Entry(e.kind, e.key, e.line, e.src)
    for n, a, t in e.sect:
        if n in ('spec', 'params'):
            r.sect.append((n, put(maps[0], a), put(maps[0], t)))
        elif n in ('at', 'start', 'finish', 'loop', 'body', 'end', 'before', 'after', 'closure', 'cbody', 'cend', 'result'):
            r.sect.append((n, put(both, a) if n == 'at' else a, put(entry if n == 'start' else both, t)))
        else:
            r.sect.append((n, a, t))
    return r


def emit_fn(out, f, e, key, notes, impl_of_trait=False, body=True, vis='pub '):
    e = renamed(e, f, out.locals.get(key))
    has = body and f.get('stmts') is not None
    tag = (key, e.src if e else None, e.line if e else None, 'spec' if has else 'decl')
    text = None
    if has and key not in out.assume:
        try:
            if f.get('unsupported'):
                raise Lost(f"{key}: extraction does not support {f['unsupported']}")
            text = body_text(f, e, key, notes, out.smoke or '', out.smoke_end or '')
        except Lost as x:
            out.assume[key] = str(x)
    if has:
        out.bodies.append(key)
        if key in out.assume:
            out.add('#[verifier::external_body]', tag)
            text = 'unimplemented!()'
    out.add(sig_text(f, e, impl_of_trait, vis), tag)
    if e is not None:
        sp = e.get('spec')
        if sp:
            for l in sp.rstrip('\n').split('\n'):
                out.add('    ' + l, tag)
    if not has:
        out.add('    ;', tag)
        return
    tag = tag[:3] + ('body',)
    out.add('{', tag)
    if f['sig']['params'].startswith('mut self'):
        text = 'let mut v_self = self;\n' + re.sub(r'\bself\b', 'v_self', text)
    out.add(text, tag)
    out.add('}', tag)


def header(i, e=None):
    g = i['generics']
    ps = ', '.join(g['params'])
    tr = i.get('trait')
    h = 'impl' + (f'<{ps}>' if ps else '') + ' ' + (f'{tr} for ' if tr else '') + i['self']
    wh = list(g['where'])
    if e is not None:
        for a, _ in e.all('header'):
            return a
        wh += [a for a, _ in e.all('implwhere')]
    if wh:
        h += '\n    where ' + ', '.join(wh)
    return h


def weave_module(entries, items, out, notes, contracts):
    """entries of one contract file, in order"""
    k = 0
    while k < len(entries):
        e = entries[k]
        k += 1
        if e.kind == 'raw':
            out.add(e.get('text'), (None, e.src, e.line, None))
        elif e.kind == 'item':
            i = items.item(e.key)
            if i is None:
                raise Lost(f'item {e.key} is gone')
            for n, a, t in e.sect:
                if n == 'attr':
                    out.add(a)
            if i['kind'] == 'const':
                out.add(f"pub const {i['key']}: {i['ty']} = {i['expr']};", (e.key, e.src, e.line, None))
            else:
                t = i['text']
                for a, _ in e.all('sub'):
                    x, y = a.split(' => ')
                    t = t.replace(x, y)
                out.add(t, (e.key, e.src, e.line, None))
        elif e.kind == 'trait':
            i = items.trait(e.key)
            if i is None:
                raise Lost(f'trait {e.key} is gone')
            g = ', '.join(i['generics']['params'])
            sup = e.get('super')
            sup = next((a for n, a, _ in e.sect if n == 'super'), i['super'])
            out.add(f"pub trait {e.key}{'<' + g + '>' if g else ''}{': ' + sup if sup else ''} {{", (e.key, e.src, e.line, None))
            for a in i.get('assoc', []):
                out.add(a)
            if e.get('items'):
                out.add(e.get('items'), (None, e.src, e.line, None))
            for f in i['items']:
                emit_fn(out, f, contracts.get(f['key']), f['key'], notes, True, body=False)
            out.add('}')
            while k < len(entries) and entries[k].kind == 'fn' and entries[k].key.startswith(e.key + '::'):
                if not items.fn(entries[k].key.removesuffix('@default')):
                    raise Lost(f'{entries[k].key} is gone')
                k += 1
        elif e.kind == 'impl':
            i = items.impl(e.key)
            if i is None:
                out.assume[e.key] = 'gone'
                while k < len(entries) and entries[k].kind == 'fn' and entries[k].key.startswith(e.key + '::'):
                    k += 1
                continue
            if e.get('skip') is not None:
                continue
            out.add(header(i, e) + ' {', (e.key, e.src, e.line, None))
            for a in i.get('assoc', []):
                out.add(a)
            if e.get('items'):
                out.add(e.get('items'), (None, e.src, e.line, None))
            have = set()
            for f in i['items']:
                if f['kind'] != 'fn' or i.get('trait') is None and f['key'] in items.fresh:
                    continue
                have.add(f['sig']['name'])
                emit_fn(out, f, contracts.get(f['key']), f['key'], notes, i.get('trait') is not None)
            tn = re.split(r'\s*<', i.get('trait') or '')[0]
            t = items.trait(tn)
            if t:
                # methods the impl leaves to the trait: the default body, verified for this type
                for f in t['items']:
                    if f['sig']['name'] not in have and f.get('stmts') is not None:
                        fk = f"{e.key}::{f['sig']['name']}"
                        ce = contracts.get(fk) or contracts.get(f['key'] + '@default')
                        emit_fn(out, f, ce, fk, notes, True)
            out.add('}')
            while k < len(entries) and entries[k].kind == 'fn' and entries[k].key.startswith(e.key + '::'):
                k += 1
        elif e.kind == 'again':
            # the same function once more, against another contract
            src, name = e.key.rsplit(' as ', 1)
            f = items.fn(src)
            if f is None:
                out.assume[src] = 'gone'
                continue
            f = json.loads(json.dumps(f))
            f['sig']['name'] = name
            for a in [f] + (f.get('closures') or []):
                for fld in ('stmts', 'tail', 'body'):
                    for sb, _ in e.all('sub'):
                        x, y = sb.split(' => ')
                        if a.get(fld):
                            a[fld] = re.sub(x, y, a[fld])
            items.by[('fn', e.key)] = f
            emit_fn(out, f, e, e.key, notes)
        elif e.kind == 'fn':
            if e.key.endswith('@default'):
                continue
            f = items.fn(e.key)
            if f is None:
                out.assume[e.key] = 'gone'
                continue
            own = items.owner.get(e.key)
            if own is None:
                emit_fn(out, f, e, e.key, notes)
            else:
                out.add(header(own, e) + ' {')
                emit_fn(out, f, e, e.key, notes, own.get('trait') is not None)
                out.add('}')
        else:
            raise Lost(f'unknown entry {e.kind}')


def split(name, entries):
    """the modules of one contract file: what comes before the first `@@ module` is repeated in each"""
    head, mods = [], []
    for e in entries:
        if e.kind == 'module':
            mods.append((e.key, list(head)))      # `name private`: not visible in the other modules
        elif mods:
            mods[-1][1].append(e)
        else:
            head.append(e)
    return mods or [(name, head)]
