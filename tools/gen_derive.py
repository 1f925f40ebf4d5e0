#!/usr/bin/env python3
"""Writes derive/src/lib.rs, definitions of every shape the derive macros accept, with generic fields, and
verus/contracts/derive.vc, the contracts of what the macros generate for them."""
import re, importlib.util
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'ABCDEFGHIJKL'


class F:
    """a field: l(ive), s(kipped), e, d (skipped by the encoder, the decoder only), w(ith codec k1), W (k2), o (the legacy codec opt_p);
    `side` of a definition that derives one of the traits"""

    def __init__(self, kind, name, t, side=''):
        # s: skipped by both halves; e, d: by the encoder, by the decoder only; w, W, o: with a codec;
        # S: skipped by both halves, with a codec; x: with a codec, skipped by the half that is derived; y: by the other half
        self.name, self.t, self.side = name, t, side
        assert side or kind not in 'edxy'
        other = {'Encode': 'd', 'Decode': 'e', '': ''}[side]
        own = {'Encode': 'e', 'Decode': 'd', '': ''}[side]
        self.skip = {'s': 'ed', 'S': 'ed', 'e': 'e', 'd': 'd', 'x': own, 'y': other}.get(kind, '')
        self.live = not self.skip or self.skip == other
        self.kind = kind = 'w' if kind == 'y' else kind
        self.ks = {'w': 'KS::<1>', 'W': 'KS::<2>', 'o': 'OptP'}.get(kind)
        self.mod = {'w': 'k1', 'W': 'k2', 'o': 'opt_p', 'x': 'k1', 'S': 'k2'}.get(kind)
        self.rty = {'w': 'F1', 'W': 'F2', 'o': 'Option<P>'}.get(kind, t)
        self.S = self.ks or t

    def obj(self, e):
        return f'({self.ks} {{ x: {e} }})' if self.ks else e

    def attr(self):
        a = [n for c, n in (('e', 'skip_serializing'), ('d', 'skip_deserializing')) if c in self.skip] + [f'with = "{self.mod}"'] * bool(self.mod)
        return f"#[ssz({', '.join(a)})] " if a else ''

    def bound(self):
        if self.ks:
            return None
        if self.live:
            return self.side or 'Encode + Decode'
        return '' if self.side == 'Encode' else 'Default'


def generics(fields, where):
    gs = [(f.t, f.bound()) for f in fields if f.bound() is not None and len(f.t) == 1]
    gs = list(dict.fromkeys(gs))
    if where:
        return f"<{', '.join(t for t, _ in gs)}>", ' where ' + ', '.join(f'{t}: {b}' for t, b in gs), gs
    return (f"<{', '.join(f'{t}: {b}' if b else t for t, b in gs)}>" if gs else ''), '', gs


def key(name, gs):
    return name + (f"<{','.join(t for t, _ in gs)}>" if gs else '')


def spec_head(name, gs):
    g = ', '.join(f"{t}: {b.replace('Default', 'VDefault')}" if b else t for t, b in gs)
    return f"impl{f'<{g}>' if g else ''} Ssz for {name}{f'<' + ', '.join(t for t, _ in gs) + '>' if gs else ''}"


def skips(fields):
    return ''.join(f', r is Ok ==> r->Ok_0.{f.name}.is_default()' for f in fields if not f.live)[2:]


def clo_enc(f, e):
    o = f.obj(e)
    return f"""    |$0: &mut Vec<u8>|
        requires {f.ks}::ok(), {o}.wf(), small({f.ks}::enc({o}.v()).len())
        ensures final($0)@ == old($0)@ + {f.ks}::enc({o}.v())
"""


def clo_dec(f):
    return f"""    |$0: &[u8]| -> (q: Result<{f.rty}, DecodeError>)
        requires {f.ks}::ok(), $0@.len() <= mem_limit()
        ensures
            q is Ok ==> {f.ks}::dec($0@) == Some({f.obj('q->Ok_0')}.v()) && {f.obj('q->Ok_0')}.wf(),
            q is Err ==> {f.ks}::dec($0@) is None
"""


def halves(out, side):
    """the contracts of the impls that are derived"""
    i, j = out.index('@@ impl Encode'), out.index('@@ impl Decode')
    return {'': out, 'Encode': out[:j], 'Decode': out[:i] + out[j:]}[side]


def container(name, kinds, where=False, names=None, types=None, side=''):
    fields = []
    for i, k in enumerate(kinds):
        fields.append(F(k, names[i] if names else 'abcdefghijkl'[i], types[i] if types else L[i], side))
    g, wh, gs = generics(fields, where)
    src = f'#[derive({side or "Encode, Decode"})]\npub struct ' + name + g + wh + ' { ' + ', '.join(f'{f.attr()}pub {f.name}: {f.rty}' for f in fields) + ' }\n'
    live = [f for f in fields if f.live]
    n = len(live)
    ts = [f.S for f in live]
    TT = '(' + ''.join(t + ', ' for t in ts) + ')' if n != 0 else '()'
    TV = '(' + ''.join(f'<{t} as Ssz>::V, ' for t in ts) + ')' if n != 0 else '()'
    tl = '::<' + ', '.join(ts) + '>' if n else ''
    T = f'<{TT} as Ssz>'
    big = '@attr #[verifier::rlimit(80)]\n' if n > 4 else ''
    k = key(name, gs)
    out = f'''
@@ module {name.lower()} private
@@ item {name}
@@ raw
{spec_head(name, gs)} {{
    type V = {TV};
    open spec fn v(&self) -> {TV} {{ ({''.join(f.obj('self.' + f.name) + '.v(), ' for f in live)}) }}
    open spec fn wf(&self) -> bool {{ {' && '.join(f.obj('self.' + f.name) + '.wf()' for f in live) or 'true'} }}
    open spec fn valid(v: {TV}) -> bool {{ {T}::valid(v) }}
    open spec fn ok() -> bool {{ {T}::ok() }}
    open spec fn fixed() -> bool {{ {T}::fixed() }}
    open spec fn flen() -> nat {{ {T}::flen() }}
    open spec fn enc(v: {TV}) -> Seq<u8> {{ {T}::enc(v) }}
    open spec fn dec(b: Seq<u8>) -> Option<{TV}> {{ {T}::dec(b) }}
    open spec fn rt() -> bool {{ {T}::rt() }}
    open spec fn strict() -> bool {{ {T}::strict() }}
    proof fn law_wf(&self) {{ {' '.join(f.obj('self.' + f.name) + '.law_wf();' for f in live)} }}
    proof fn law_len(v: {TV}) {{ {T}::law_len(v); }}
    proof fn law_flen() {{ {T}::law_flen(); }}
    proof fn law_dec(b: Seq<u8>) {{ {T}::law_dec(b); }}
    proof fn law_rt(v: {TV}) {{ {T}::law_rt(v); }}
    proof fn law_strict(b: Seq<u8>) {{ {T}::law_strict(b); }}
}}

@@ impl Encode for {k}
@@ fn Encode for {k}::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for {k}::ssz_fixed_len
@props C07 C08
@@ fn Encode for {k}::ssz_bytes_len
@props C07 C08
{big}@start
    proof {{ self.law_wf(); lemma_sum{n}{tl}(self.v()); }}
'''
    for i in range(1, n):
        out += f"@at /^if (?!.*Self)/ {i}\n    assert(len == {' + '.join(f'plen(part::<{t}>(self.v().{j}))' for j, t in enumerate(ts[:i]))});\n"
    out += f'''@@ fn Encode for {k}::ssz_append
@props C01 C03 C08{' C17' if any(f.kind == 'o' for f in live) else ''}
{big}@start
    let ghost b0 = buf@;
    proof {{
        let ps = parts{n}{tl}(self.v());
        self.law_wf();
        lemma_sum{n}{tl}(self.v());
        lemma_takes{n}{tl}(self.v());
        {' '.join(f'lemma_part_len(ps, {i});' for i in range(n))}
    }}
'''
    acc = 'Seq::<Part>::empty()'
    c = 0
    for i, f in enumerate(live):
        p = f'part::<{f.S}>(self.v().{i})'
        if f.ks:
            out += f"@closure {c}\n{clo_enc(f, 'self.' + f.name)}"
            c += 1
            out += f'''@at /^encoder\\./ {i + 1}
    proof {{
        assert({p} == ({f.S}::fixed(), {f.S}::enc(self.v().{i})));
        assert(encoder.state(b0, {acc}.push({p}), sum{n}{tl}() as int));
    }}
'''
        acc += f'.push({p})'
    out += f'''@@ impl Decode for {k}
@@ fn Decode for {k}::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for {k}::ssz_fixed_len
@props C07 C08
@@ fn Decode for {k}::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08{' C17' if any(f.kind == 'o' for f in live) else ''}
{big}''' + (f'''@spec
    ensures {skips(fields)}
''' if skips(fields) else '')
    for c, f in enumerate(f for f in live if f.ks):
        out += f"@closure {c}\n{clo_dec(f)}"
    out += f'''@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay{n}{tl}();
    proof {{
        {' '.join(f'assert(gl[{i}] == slot::<{t}>());' for i, t in enumerate(ts))}
        {' '.join(f'{t}::law_flen();' for t in dict.fromkeys(f.ks for f in live if f.ks))}
        if split_ok(gb, gl) {{ lemma_pieces_le(gb, gl); }}
        if Self::fixed() {{
            lemma_cut_fixed(gb, gl);
        }}
    }}
'''
    for i, f in enumerate(live):
        out += f'''@at /^let {f.name} =/
    proof {{ assert(slice@ =~= piece(gb, gl, {i})); assert(bytes@ =~= gb.skip(start(gl, {i + 1}))); }}
'''
    return src, halves(out, side)


def transparent(name, kinds, named, where=False, side=''):
    fields = [F(k, 'abcdefghijkl'[i] if named else str(i), L[i], side) for i, k in enumerate(kinds)]
    g, wh, gs = generics(fields, where)
    fs = ', '.join(f.attr() + (f'pub {f.name}: ' if named else 'pub ') + f.rty for f in fields)
    src = f'#[derive({side or "Encode, Decode"})]\n#[ssz(struct_behaviour = "transparent")]\npub struct ' + name + g + (wh + ' { ' + fs + ' }\n' if named else f'({fs}){wh};\n')
    (f,) = [f for f in fields if f.live]
    k = key(name, gs)
    S = f'<{f.S} as Ssz>'
    o = f.obj('self.' + f.name)
    out = f'''
@@ module {name.lower()} private
@@ item {name}
@@ raw
{spec_head(name, gs)} {{
    type V = {S}::V;
    open spec fn v(&self) -> {S}::V {{ {o}.v() }}
    open spec fn wf(&self) -> bool {{ {o}.wf() }}
    open spec fn valid(v: {S}::V) -> bool {{ {S}::valid(v) }}
    open spec fn ok() -> bool {{ {S}::ok() }}
    open spec fn fixed() -> bool {{ {S}::fixed() }}
    open spec fn flen() -> nat {{ {S}::flen() }}
    open spec fn enc(v: {S}::V) -> Seq<u8> {{ {S}::enc(v) }}
    open spec fn dec(b: Seq<u8>) -> Option<{S}::V> {{ {S}::dec(b) }}
    open spec fn rt() -> bool {{ {S}::rt() }}
    open spec fn strict() -> bool {{ {S}::strict() }}
    proof fn law_wf(&self) {{ {o}.law_wf(); }}
    proof fn law_len(v: {S}::V) {{ {S}::law_len(v); }}
    proof fn law_flen() {{ {S}::law_flen(); }}
    proof fn law_dec(b: Seq<u8>) {{ {S}::law_dec(b); }}
    proof fn law_rt(v: {S}::V) {{ {S}::law_rt(v); }}
    proof fn law_strict(b: Seq<u8>) {{ {S}::law_strict(b); }}
}}
@@ impl Encode for {k}
@@ fn Encode for {k}::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for {k}::ssz_fixed_len
@props C07 C08
@@ fn Encode for {k}::ssz_bytes_len
@props C07 C08
@@ fn Encode for {k}::ssz_append
@props C01 C03 C08
@@ impl Decode for {k}
@@ fn Decode for {k}::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for {k}::ssz_fixed_len
@props C07 C08
@@ fn Decode for {k}::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
'''
    if skips(fields):
        out += f'@spec\n    ensures {skips(fields)}\n'
    return src, halves(out, side)


class Var:
    """a variant of one field: a type parameter, or w, W (with codec k1, k2)"""

    def __init__(self, i, t):
        self.i = i
        self.f = F(t if t in 'wW' else 'l', str(i), t)
        self.t = self.f.S                                   # in expressions and bounds
        self.V = f'<{self.t} as Ssz>::V' if self.f.ks else f'{t}::V'
        self.decl = f'V{i}({self.f.attr()}{self.f.rty})'

    def obj(self):
        return self.f.obj('*x') if self.f.ks else 'x'


def variants(name, ts, attr):
    vs = [Var(i, t) for i, t in enumerate(ts)]
    gs = [(t, 'Encode + Decode') for t in dict.fromkeys(ts) if t not in 'wW']
    g = f"<{', '.join(f'{t}: {b}' for t, b in gs)}>" if gs else ''
    src = f'#[derive(Encode, Decode)]\n#[ssz(enum_behaviour = "{attr}")]\npub enum {name}{g} {{ ' + ', '.join(v.decl for v in vs) + ' }\n'
    ag = f"<{', '.join(t for t, _ in gs)}>" if gs else ''
    av_decl = f"pub enum {name}V{ag} {{ " + ', '.join(f"V{v.i}({'KV' if v.f.ks else v.t})" for v in vs) + ' }'
    V = f"{name}V<{', '.join(f'{t}::V' for t, _ in gs)}>" if gs else f'{name}V'
    return vs, list(dict.fromkeys(v.t for v in vs)), gs, src, av_decl, V


def union(name, ts):
    vs, ds, gs, src, decl, V = variants(name, ts, 'union')
    k = key(name, gs)
    N = f'{name}V'

    def arms(x, f):
        return f"match {x} {{ {' '.join(f(v.i, v.t) for v in vs)} }}"
    big = '@attr #[verifier::rlimit(80)]\n' if len(ts) > 6 else ''
    dec = 'None'
    for i in reversed(range(len(ts))):
        dec = f'if b[0] == {i} {{ match {vs[i].t}::dec(b.skip(1)) {{ Some(x) => Some({N}::V{i}(x)), None => None }} }} else {{ {dec} }}' if len(ts) <= 8 or i % 1 == 0 else dec
    out = f'''
@@ module {name.lower()} private
@@ item {name}
@@ raw
{decl}
{spec_head(name, gs)} {{
    type V = {V};
    open spec fn v(&self) -> {V} {{ {arms('self', lambda i, t: f'{name}::V{i}(x) => {N}::V{i}({vs[i].obj()}.v()),')} }}
    open spec fn wf(&self) -> bool {{ {arms('self', lambda i, t: f'{name}::V{i}(x) => {vs[i].obj()}.wf(),')} }}
    open spec fn valid(v: {V}) -> bool {{ {arms('v', lambda i, t: f'{N}::V{i}(x) => {t}::valid(x),')} }}
    open spec fn ok() -> bool {{ {' && '.join(f'{t}::ok()' for t in ds)} }}
    open spec fn fixed() -> bool {{ false }}
    open spec fn flen() -> nat {{ 4 }}
    open spec fn enc(v: {V}) -> Seq<u8> {{ {arms('v', lambda i, t: f'{N}::V{i}(x) => sel({i}, {t}::enc(x)),')} }}
    open spec fn dec(b: Seq<u8>) -> Option<{V}> {{
        if b.len() == 0 {{ None }} else {{ {dec} }}
    }}
    open spec fn rt() -> bool {{ {' && '.join(f'{t}::rt()' for t in ds)} }}
    open spec fn strict() -> bool {{ {' && '.join(f'{t}::strict()' for t in ds)} }}
    proof fn law_wf(&self) {{ {arms('self', lambda i, t: f'{name}::V{i}(x) => {vs[i].obj()}.law_wf(),')} }}
    proof fn law_len(v: {V}) {{ }}
    proof fn law_flen() {{ }}
    proof fn law_dec(b: Seq<u8>) {{ {' '.join(f'if {t}::dec(b.skip(1)) is Some {{ {t}::law_dec(b.skip(1)); }}' for t in ds)} }}
    proof fn law_rt(v: {V}) {{
        {arms('v', lambda i, t: f'{N}::V{i}(x) => {t}::law_rt(x),')}
    }}
    proof fn law_strict(b: Seq<u8>) {{
        {' '.join(f'if {t}::dec(b.skip(1)) is Some {{ {t}::law_strict(b.skip(1)); }}' for t in ds)}
        lemma_sel_eta(b);
    }}
}}
@@ impl Encode for {k}
@@ fn Encode for {k}::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for {k}::ssz_bytes_len
@props C07 C08
{big}@@ fn Encode for {k}::ssz_append
@props C01 C03 C08 C15
{big}@@ impl Decode for {k}
@@ fn Decode for {k}::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for {k}::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08 C15
{big}'''
    return src, out


def big_union(name, n):
    """n variants over two types in turn; values are (selector, payload)"""
    ts = ['A', 'B'] * (n // 2)
    _, _, gs, src, _, _ = variants(name, ts, 'union')
    k = key(name, gs)
    V = f'(u8, {name}P<A::V, B::V>)'
    arms = ' '.join
    out = f'''
@@ module {name.lower()} private
@@ item {name}
@@ raw
pub enum {name}P<A, B> {{ A(A), B(B) }}
{spec_head(name, gs)} {{
    type V = {V};
    open spec fn v(&self) -> {V} {{ match self {{ {arms(f'{name}::V{i}(x) => ({i}, {name}P::{t}(x.v())),' for i, t in enumerate(ts))} }} }}
    open spec fn wf(&self) -> bool {{ match self {{ {arms(f'{name}::V{i}(x) => x.wf(),' for i, t in enumerate(ts))} }} }}
    open spec fn valid(v: {V}) -> bool {{
        v.0 < {n} && match v.1 {{ {name}P::A(x) => v.0 % 2 == 0 && A::valid(x), {name}P::B(x) => v.0 % 2 == 1 && B::valid(x) }}
    }}
    open spec fn ok() -> bool {{ A::ok() && B::ok() }}
    open spec fn fixed() -> bool {{ false }}
    open spec fn flen() -> nat {{ 4 }}
    open spec fn enc(v: {V}) -> Seq<u8> {{ sel(v.0, match v.1 {{ {name}P::A(x) => A::enc(x), {name}P::B(x) => B::enc(x) }}) }}
    open spec fn dec(b: Seq<u8>) -> Option<{V}> {{
        if b.len() == 0 || b[0] >= {n} {{ None }}
        else if b[0] % 2 == 0 {{ match A::dec(b.skip(1)) {{ Some(x) => Some((b[0], {name}P::A(x))), None => None }} }}
        else {{ match B::dec(b.skip(1)) {{ Some(x) => Some((b[0], {name}P::B(x))), None => None }} }}
    }}
    open spec fn rt() -> bool {{ A::rt() && B::rt() }}
    open spec fn strict() -> bool {{ A::strict() && B::strict() }}
    proof fn law_wf(&self) {{ match self {{ {arms(f'{name}::V{i}(x) => x.law_wf(),' for i, t in enumerate(ts))} }} }}
    proof fn law_len(v: {V}) {{ }}
    proof fn law_flen() {{ }}
    proof fn law_dec(b: Seq<u8>) {{ if b[0] % 2 == 0 {{ A::law_dec(b.skip(1)); }} else {{ B::law_dec(b.skip(1)); }} }}
    proof fn law_rt(v: {V}) {{ match v.1 {{ {name}P::A(x) => A::law_rt(x), {name}P::B(x) => B::law_rt(x) }} }}
    proof fn law_strict(b: Seq<u8>) {{
        if b[0] % 2 == 0 {{ A::law_strict(b.skip(1)); }} else {{ B::law_strict(b.skip(1)); }}
        lemma_sel_eta(b);
    }}
}}
@@ impl Encode for {k}
@@ fn Encode for {k}::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for {k}::ssz_bytes_len
@props C07 C08
@attr #[verifier::rlimit(80)]
@@ fn Encode for {k}::ssz_append
@props C01 C03 C08 C15
@attr #[verifier::rlimit(80)]
@@ impl Decode for {k}
@@ fn Decode for {k}::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for {k}::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08 C15
@attr #[verifier::rlimit(80)]
'''
    return src, out


def trans_enum(name, ts):
    vs, ds, gs, src, decl, V = variants(name, ts, 'transparent')
    k = key(name, gs)
    N = f'{name}V'

    def arms(x, f):
        return f"match {x} {{ {' '.join(f(v.i, v.t) for v in vs)} }}"
    dec = 'None'
    for i in reversed(range(len(ts))):
        dec = f'if {vs[i].t}::dec(b) is Some {{ Some({N}::V{i}({vs[i].t}::dec(b).unwrap())) }} else {{ {dec} }}'
    out = f'''
@@ module {name.lower()} private
@@ item {name}
@@ raw
{decl}
{spec_head(name, gs)} {{
    type V = {V};
    open spec fn v(&self) -> {V} {{ {arms('self', lambda i, t: f'{name}::V{i}(x) => {N}::V{i}({vs[i].obj()}.v()),')} }}
    open spec fn wf(&self) -> bool {{ {arms('self', lambda i, t: f'{name}::V{i}(x) => {vs[i].obj()}.wf(),')} }}
    open spec fn valid(v: {V}) -> bool {{ {arms('v', lambda i, t: f'{N}::V{i}(x) => {t}::valid(x),')} }}
    open spec fn ok() -> bool {{ {' && '.join(f'{t}::ok() && !{t}::fixed()' for t in ds)} }}
    open spec fn fixed() -> bool {{ false }}
    open spec fn flen() -> nat {{ 4 }}
    open spec fn enc(v: {V}) -> Seq<u8> {{ {arms('v', lambda i, t: f'{N}::V{i}(x) => {t}::enc(x),')} }}
    open spec fn dec(b: Seq<u8>) -> Option<{V}> {{ {dec} }}
    open spec fn rt() -> bool {{ {vs[0].t + '::rt()' if len(ts) == 1 else 'false'} }}
    open spec fn strict() -> bool {{ {' && '.join(f'{t}::strict()' for t in ds)} }}
    proof fn law_wf(&self) {{ {arms('self', lambda i, t: f'{name}::V{i}(x) => {vs[i].obj()}.law_wf(),')} }}
    proof fn law_len(v: {V}) {{ }}
    proof fn law_flen() {{ }}
    proof fn law_dec(b: Seq<u8>) {{ {' '.join(f'if {t}::dec(b) is Some {{ {t}::law_dec(b); }}' for t in ds)} }}
    proof fn law_rt(v: {V}) {{
        {arms('v', lambda i, t: f'{N}::V{i}(x) => {t}::law_rt(x),') if len(ts) == 1 else ''}
    }}
    proof fn law_strict(b: Seq<u8>) {{ {' '.join(f'if {t}::dec(b) is Some {{ {t}::law_strict(b); }}' for t in ds)} }}
}}
@@ impl Encode for {k}
@@ fn Encode for {k}::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for {k}::ssz_bytes_len
@props C07 C08
@@ fn Encode for {k}::ssz_append
@props C01 C03 C08
@@ impl Decode for {k}
@@ fn Decode for {k}::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for {k}::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
'''
    return src, out


def tag(name, n):
    src = f'#[derive(Encode, Decode)]\n#[ssz(enum_behaviour = "tag")]\npub enum {name} {{ ' + ', '.join(f'V{i}' for i in range(n)) + ' }\n'
    big = '@attr #[verifier::rlimit(80)]\n' if n > 8 else ''
    out = f'''
@@ module {name.lower()} private
@@ item {name}
@@ raw
impl Ssz for {name} {{
    type V = int;
    open spec fn v(&self) -> int {{ match self {{ {' '.join(f'{name}::V{i} => {i},' for i in range(n))} }} }}
    open spec fn wf(&self) -> bool {{ true }}
    open spec fn valid(v: int) -> bool {{ 0 <= v < {n} }}
    open spec fn ok() -> bool {{ true }}
    open spec fn fixed() -> bool {{ true }}
    open spec fn flen() -> nat {{ 1 }}
    open spec fn enc(v: int) -> Seq<u8> {{ seq![v as u8] }}
    open spec fn dec(b: Seq<u8>) -> Option<int> {{ if b.len() == 1 && b[0] < {n} {{ Some(b[0] as int) }} else {{ None }} }}
    open spec fn rt() -> bool {{ true }}
    open spec fn strict() -> bool {{ true }}
    proof fn law_wf(&self) {{ }}
    proof fn law_len(v: int) {{ }}
    proof fn law_flen() {{ }}
    proof fn law_dec(b: Seq<u8>) {{ }}
    proof fn law_rt(v: int) {{ }}
    proof fn law_strict(b: Seq<u8>) {{ assert(seq![b[0]] =~= b); }}
}}
@@ impl Encode for {name}
@@ fn Encode for {name}::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for {name}::ssz_fixed_len
@props C07 C08
@@ fn Encode for {name}::ssz_bytes_len
@props C07 C08
@@ fn Encode for {name}::ssz_append
@props C01 C03 C08 C15
{big}@start
    let ghost b0 = buf@;
    proof {{ assert forall|x: u8| #[trigger] (b0 + seq![x]) == b0.push(x) by {{ assert(b0 + seq![x] =~= b0.push(x)); }} }}
@@ impl Decode for {name}
@@ fn Decode for {name}::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for {name}::ssz_fixed_len
@props C07 C08
@@ fn Decode for {name}::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08 C15
{big}'''
    return src, out


def codec(i):
    K = f'KS::<{i}>'
    return f'''
/// a codec module the definitions refer to: any that satisfies the contracts of an implementation
pub mod k{i} {{
    pub mod encode {{
        use super::super::*;
        #[verifier::external_body]
        pub fn is_ssz_fixed_len() -> (r: bool) requires {K}::ok() ensures r == {K}::fixed() {{ unimplemented!() }}
        #[verifier::external_body]
        pub fn ssz_fixed_len() -> (r: usize) requires {K}::ok() ensures r == {K}::flen() {{ unimplemented!() }}
        #[verifier::external_body]
        pub fn ssz_bytes_len(x: &F{i}) -> (r: usize)
            requires {K}::ok(), ({K} {{ x: *x }}).wf(), small({K}::enc(({K} {{ x: *x }}).v()).len())
            ensures r == {K}::enc(({K} {{ x: *x }}).v()).len()
        {{ unimplemented!() }}
        #[verifier::external_body]
        pub fn ssz_append(x: &F{i}, buf: &mut Vec<u8>)
            requires {K}::ok(), ({K} {{ x: *x }}).wf(), small({K}::enc(({K} {{ x: *x }}).v()).len())
            ensures final(buf)@ == old(buf)@ + {K}::enc(({K} {{ x: *x }}).v())
        {{ unimplemented!() }}
    }}
    pub mod decode {{
        use super::super::*;
        #[verifier::external_body]
        pub fn is_ssz_fixed_len() -> (r: bool) requires {K}::ok() ensures r == {K}::fixed() {{ unimplemented!() }}
        #[verifier::external_body]
        pub fn ssz_fixed_len() -> (r: usize) requires {K}::ok() ensures r == {K}::flen() {{ unimplemented!() }}
        #[verifier::external_body]
        pub fn from_ssz_bytes(b: &[u8]) -> (r: Result<F{i}, DecodeError>)
            requires {K}::ok(), b@.len() <= mem_limit()
            ensures r is Ok ==> {K}::dec(b@) == Some(({K} {{ x: r->Ok_0 }}).v()) && ({K} {{ x: r->Ok_0 }}).wf(), r is Err ==> {K}::dec(b@) is None
        {{ unimplemented!() }}
    }}
}}
'''


LEGACY = '''
@@ module d_legacy opt_p::encode opt_p::decode
@@ raw

/// the type the legacy codec is instantiated with: any that satisfies the contracts
pub type P = KS<9>;

impl Encode for KS<9> {
    #[verifier::external_body]
    fn is_ssz_fixed_len() -> bool { unimplemented!() }
    #[verifier::external_body]
    fn ssz_fixed_len() -> usize { unimplemented!() }
    #[verifier::external_body]
    fn ssz_append(&self, buf: &mut Vec<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn ssz_bytes_len(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn as_ssz_bytes(&self) -> Vec<u8> { unimplemented!() }
}

impl Decode for KS<9> {
    #[verifier::external_body]
    fn is_ssz_fixed_len() -> bool { unimplemented!() }
    #[verifier::external_body]
    fn ssz_fixed_len() -> usize { unimplemented!() }
    #[verifier::external_body]
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> { unimplemented!() }
}

/// the schema of the legacy codec: a four-byte selector, then the value
pub struct OptP { pub x: Option<P> }

pub open spec fn legacy_v(x: Option<P>) -> Option<KV> { match x { None => None, Some(p) => Some(p.v()) } }

impl Ssz for OptP {
    type V = Option<KV>;
    open spec fn v(&self) -> Option<KV> { legacy_v(self.x) }
    open spec fn wf(&self) -> bool { match self.x { None => true, Some(p) => p.wf() } }
    open spec fn valid(v: Option<KV>) -> bool { match v { None => true, Some(x) => P::valid(x) } }
    open spec fn ok() -> bool { P::ok() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: Option<KV>) -> Seq<u8> { match v { None => le4(0), Some(x) => le4(1) + P::enc(x) } }
    open spec fn dec(b: Seq<u8>) -> Option<Option<KV>> {
        if b.len() < 4 { None }
        else if off_at(b, 0) == 0 { if b.len() == 4 { Some(None) } else { None } }
        else if off_at(b, 0) == 1 { match P::dec(b.skip(4)) { Some(x) => Some(Some(x)), None => None } }
        else { None }
    }
    open spec fn rt() -> bool { P::rt() }
    open spec fn strict() -> bool { P::strict() }
    proof fn law_wf(&self) { match self.x { None => {}, Some(p) => { p.law_wf(); } } }
    proof fn law_len(v: Option<KV>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { if off_at(b, 0) == 1 { P::law_dec(b.skip(4)); } }
    proof fn law_rt(v: Option<KV>) {
        match v {
            None => { assert(le4(0).subrange(0, 4) =~= le4(0)); }
            Some(x) => {
                P::law_rt(x);
                let e = le4(1) + P::enc(x);
                assert(e.skip(4) =~= P::enc(x));
                assert(e.subrange(0, 4) =~= le4(1));
            }
        }
    }
    proof fn law_strict(b: Seq<u8>) {
        lemma_un4(b.subrange(0, 4));
        if off_at(b, 0) == 1 { P::law_strict(b.skip(4)); assert(le4(1) + b.skip(4) =~= b); } else { assert(le4(0) =~= b); }
    }
}

/// and the encoding of a value is told apart from every other input
proof fn lemma_legacy_strict(b: Seq<u8>)
    requires P::strict(), P::ok(), OptP::dec(b) is Some
    ensures OptP::enc(OptP::dec(b).unwrap()) == b
{ OptP::law_strict(b); }

pub mod opt_p { pub mod encode { use super::super::*;
@@ fn opt_p::encode::is_ssz_fixed_len
@props C17
@spec
    ensures r == OptP::fixed()
@@ fn opt_p::encode::ssz_fixed_len
@props C17
@spec
    ensures r == OptP::flen()
@@ fn opt_p::encode::ssz_bytes_len
@props C17
@spec
    requires OptP::ok(), (OptP { x: *opt }).wf(), small(OptP::enc((OptP { x: *opt }).v()).len())
    ensures r == OptP::enc((OptP { x: *opt }).v()).len()
@start
    proof { match opt { None => {}, Some(p) => { p.law_wf(); P::law_len(p.v()); } } }
@@ fn opt_p::encode::ssz_append
@props C17
@spec
    requires OptP::ok(), (OptP { x: *opt }).wf(), small(OptP::enc((OptP { x: *opt }).v()).len())
    ensures final(buf)@ == old(buf)@ + OptP::enc((OptP { x: *opt }).v())
@start
    let ghost b0 = buf@;
    proof { match opt { None => {}, Some(p) => { assert(b0 + (le4(1) + P::enc(p.v())) =~= (b0 + le4(1)) + P::enc(p.v())); } } }
@@ fn opt_p::encode::as_ssz_bytes
@props C17
@spec
    requires OptP::ok(), (OptP { x: *opt }).wf(), small(OptP::enc((OptP { x: *opt }).v()).len())
    ensures r@ == OptP::enc((OptP { x: *opt }).v())
@result v_r
@finish
    proof { assert(v_r@ =~= OptP::enc((OptP { x: *opt }).v())); }
@@ raw
} pub mod decode { use super::super::*;
@@ fn opt_p::decode::is_ssz_fixed_len
@props C17
@spec
    ensures r == OptP::fixed()
@@ fn opt_p::decode::ssz_fixed_len
@props C17
@spec
    ensures r == OptP::flen()
@@ fn opt_p::decode::from_ssz_bytes
@props C17
@spec
    requires OptP::ok(), bytes@.len() <= mem_limit()
    ensures r is Ok ==> OptP::dec(bytes@) == Some((OptP { x: r->Ok_0 }).v()) && (OptP { x: r->Ok_0 }).wf(), r is Err ==> OptP::dec(bytes@) is None
@start
    proof {
        if bytes@.len() >= 4 {
            assert(bytes@.subrange(0, 4).subrange(0, 4) =~= bytes@.subrange(0, 4));
            lemma_un4(bytes@.subrange(0, 4));
        }
    }
@@ raw
} }
'''


SELECTORS = r'''
@@ module d_selectors private
@@ item ssz_derive/MAX_UNION_SELECTOR
@@ fn compute_union_selectors
@props C08 C15
# every variant gets its index
@spec
    requires 1 <= num_variants <= 128
    ensures r@ == Seq::new(num_variants as nat, |i: int| i as u8)
@closure 0
    |$0: usize| -> (q: u8)
        requires $0 <= 255
        ensures q == $0 as u8
@result v_r
@finish
    proof { assert(v_r@ =~= Seq::new(num_variants as nat, |i: int| i as u8)); }
@@ again compute_union_selectors as compute_union_selectors_rejects
@props C08 C15
# a panic at compile time otherwise: there is no result
@sub \.expect\("[^"]*"\) => .v_or_panic()
@sub v_panic\(\) => v_rejects()
@spec
    ensures 1 <= num_variants <= 128, r@.len() == num_variants
@closure 0
    |$0: usize| -> (q: u8)
        ensures $0 <= 255, q == $0 as u8
'''


def small_tuples():
    spec = importlib.util.spec_from_file_location('gen_tuples', os.path.join(VERIF, 'tools', 'gen_tuples.py'))
    gt = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(gt)
    s = gt.one(1)
    s = s[:s.index('@@ impl')] + s[s.index('@@ raw', s.index('@@ impl')):]
    return s


UNIT = '''
@@ module tuple0
@@ raw
pub open spec fn lay0() -> Seq<Slot> { Seq::empty() }
pub open spec fn parts0(v: ()) -> Seq<Part> { Seq::empty() }
pub open spec fn sum0() -> nat { 0 }
impl Ssz for () {
    type V = ();
    open spec fn v(&self) -> () { () }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: ()) -> bool { true }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { 0 }
    open spec fn enc(v: ()) -> Seq<u8> { Seq::empty() }
    open spec fn dec(b: Seq<u8>) -> Option<()> { if b.len() == 0 { Some(()) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { }
    proof fn law_len(v: ()) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { }
    proof fn law_rt(v: ()) { }
    proof fn law_strict(b: Seq<u8>) { assert(b =~= Seq::<u8>::empty()); }
}
pub proof fn lemma_sum0(v: ())
    ensures fl(parts0(v)) == 0, pack(parts0(v)) =~= Seq::<u8>::empty()
{
    lemma_total(parts0(v));
    lemma_total_empty();
}
pub proof fn lemma_takes0(v: ()) { }
'''


CORPUS = [
    lambda: container('DvC0', ''),
    lambda: container('DvC1', 'l'),
    lambda: container('DvC2', 'll'),
    lambda: container('DvC3', 'lll'),
    lambda: container('DvC4', 'llll'),
    lambda: container('DvC5', 'lllll'),
    lambda: container('DvC6', 'llllll'),
    lambda: container('DvC8', 'llllllll'),
    lambda: container('DvN3', 'lll', names=['offset', 'len', 'slice']),
    lambda: container('DvQ2', 'll', where=True),
    lambda: container('DvR3', 'lll', types=['A', 'A', 'B']),
    lambda: container('DvS1', 's'),
    lambda: container('DvS2A', 'sl'),
    lambda: container('DvS2B', 'ls'),
    lambda: container('DvS3', 'lsl'),
    lambda: container('DvS4', 'slsl'),
    lambda: container('DvK1W', 'w'),
    lambda: container('DvK2A', 'wl'),
    lambda: container('DvK2B', 'lw'),
    lambda: container('DvK3', 'wWl'),
    lambda: container('DvK5', 'lwslW'),
    lambda: container('DvO2', 'ol'),
    lambda: container('DvO3', 'lol'),
    lambda: container('DvXE3', 'eld', side='Encode'),
    lambda: container('DvXD3', 'eld', side='Decode'),
    lambda: container('DvXE4', 'lesd', side='Encode'),
    lambda: container('DvXD4', 'dsel', side='Decode'),
    lambda: transparent('DvTXE2', 'el', True, side='Encode'),
    lambda: transparent('DvTXD2', 'dl', True, side='Decode'),
    lambda: transparent('DvTXE3', 'eds', False, side='Encode'),
    lambda: transparent('DvTXD3', 'sed', False, side='Decode'),
    lambda: container('DvY4', 'lSwl'),
    lambda: container('DvYE4', 'wxly', side='Encode'),
    lambda: container('DvYD4', 'wxly', side='Decode'),
    lambda: container('DvYE3', 'xyd', side='Encode'),
    lambda: container('DvYD3', 'xye', side='Decode'),
    lambda: transparent('DvTYE3', 'xyS', True, side='Encode'),
    lambda: transparent('DvTYD3', 'xyS', True, side='Decode'),
    lambda: transparent('DvTY3', 'SsW', False),
    lambda: transparent('DvTY2', 'Sl', True),
    lambda: transparent('DvT1', 'l', True),
    lambda: transparent('DvT1U', 'l', False),
    lambda: transparent('DvT1Q', 'l', True, where=True),
    lambda: transparent('DvT2A', 'sl', True),
    lambda: transparent('DvT2B', 'ls', False),
    lambda: transparent('DvT3', 'sls', False),
    lambda: transparent('DvT3N', 'sls', True),
    lambda: transparent('DvTW1', 'w', False),
    lambda: transparent('DvTW2', 'ws', True),
    lambda: transparent('DvTW2U', 'sw', False),
    lambda: union('DvU1', 'A'),
    lambda: union('DvU2', 'AB'),
    lambda: union('DvU3', 'ABC'),
    lambda: union('DvU4', 'ABAC'),
    lambda: union('DvUK1', 'w'),
    lambda: union('DvUK3', 'wAW'),
    lambda: union('DvUK4', 'AwBw'),
    lambda: big_union('DvU128', 128),
    lambda: trans_enum('DvE1', 'A'),
    lambda: trans_enum('DvE2', 'AB'),
    lambda: trans_enum('DvE3', 'ABC'),
    lambda: trans_enum('DvE4', 'BACA'),
    lambda: trans_enum('DvEK1', 'w'),
    lambda: trans_enum('DvEK2', 'Aw'),
    lambda: trans_enum('DvEK3', 'WAw'),
    lambda: tag('DvG1', 1),
    lambda: tag('DvG2', 2),
    lambda: tag('DvG3', 3),
    lambda: tag('DvG128', 128),
]


def shuffled(s):
    """names of variants in no alphabetical order"""
    return re.sub(r'\bV(\d+)\b', lambda m: 'QMXATEZB'[int(m.group(1)) % 8] + m.group(1), s)


def main():
    src = '''//! Definitions of every shape the derive macros accept, with generic fields. Written by tools/gen_derive.py; what the macros
//! make of them is expanded and verified on every run.
use ssz::{Decode, Encode};
use ssz_derive::{Decode, Encode};

// stand-ins: the contracts assume nothing about them
pub struct F1;
pub struct F2;
pub struct P;
impl Encode for P {
    fn is_ssz_fixed_len() -> bool { unimplemented!() }
    fn ssz_append(&self, _: &mut Vec<u8>) { unimplemented!() }
    fn ssz_bytes_len(&self) -> usize { unimplemented!() }
}
impl Decode for P {
    fn is_ssz_fixed_len() -> bool { unimplemented!() }
    fn from_ssz_bytes(_: &[u8]) -> Result<Self, ssz::DecodeError> { unimplemented!() }
}
pub mod k1 {
    pub mod encode {
        pub fn is_ssz_fixed_len() -> bool { unimplemented!() }
        pub fn ssz_fixed_len() -> usize { unimplemented!() }
        pub fn ssz_bytes_len(_: &crate::F1) -> usize { unimplemented!() }
        pub fn ssz_append(_: &crate::F1, _: &mut Vec<u8>) { unimplemented!() }
    }
    pub mod decode {
        pub fn is_ssz_fixed_len() -> bool { unimplemented!() }
        pub fn ssz_fixed_len() -> usize { unimplemented!() }
        pub fn from_ssz_bytes(_: &[u8]) -> Result<crate::F1, ssz::DecodeError> { unimplemented!() }
    }
}
pub mod k2 {
    pub mod encode {
        pub fn is_ssz_fixed_len() -> bool { unimplemented!() }
        pub fn ssz_fixed_len() -> usize { unimplemented!() }
        pub fn ssz_bytes_len(_: &crate::F2) -> usize { unimplemented!() }
        pub fn ssz_append(_: &crate::F2, _: &mut Vec<u8>) { unimplemented!() }
    }
    pub mod decode {
        pub fn is_ssz_fixed_len() -> bool { unimplemented!() }
        pub fn ssz_fixed_len() -> usize { unimplemented!() }
        pub fn from_ssz_bytes(_: &[u8]) -> Result<crate::F2, ssz::DecodeError> { unimplemented!() }
    }
}
ssz::four_byte_option_impl!(opt_p, P);

'''
    vc = '''# what the derive macros generate: written by tools/gen_derive.py

@@ raw
broadcast use { lemma_empty_parts, axiom_mem_limit, lemma_lay_push, lemma_split_prefix, lemma_prefix_push, lemma_le4, lemma_sel, lemma_sel_append };
'''
    vc += UNIT + small_tuples()
    vc += '\n@@ module d_codecs\n@@ raw\n' + codec(1) + codec(2) + LEGACY
    vc += SELECTORS
    for c in CORPUS:
        s, v = c()
        src += shuffled(s)
        vc += shuffled(v)
    for p, t in (('derive/src/lib.rs', src), ('verus/contracts/derive.vc', vc)):
        with open(os.path.join(VERIF, p), 'w') as f:
            f.write(t)


main()
