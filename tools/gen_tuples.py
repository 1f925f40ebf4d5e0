#!/usr/bin/env python3
"""Writes verus/contracts/tuples.vc: the same contracts for the tuples of every arity."""
L = 'ABCDEFGHIJKL'


def one(n):
    ts = L[:n]
    ty = '(' + ', '.join(ts) + (',' if n == 1 else '') + ')'
    key = '(' + ','.join(ts) + ')'
    vs = '(' + ', '.join(f'{t}::V' for t in ts) + (',' if n == 1 else '') + ')'

    def all_(f, sep=' && '):
        return sep.join(f(t, i) for i, t in enumerate(ts))
    lay = 'Seq::<Slot>::empty()' + ''.join(f'.push(slot::<{t}>())' for t in ts)
    prt = 'Seq::<Part>::empty()' + ''.join(f'.push(part::<{t}>(v.{i}))' for i, t in enumerate(ts))
    rl = '#[verifier::rlimit(80)]\n' if n > 6 else ''
    g = ', '.join(f'{t}: Ssz' for t in ts)
    return f'''
@@ module tuple{n}
@@ raw
pub open spec fn lay{n}<{g}>() -> Seq<Slot> {{ {lay} }}

pub open spec fn parts{n}<{g}>(v: {vs}) -> Seq<Part> {{ {prt} }}

pub open spec fn sum{n}<{g}>() -> nat {{ {all_(lambda t, i: f'{t}::flen()', ' + ')} }}

impl<{g}> Ssz for {ty} {{
    type V = {vs};
    open spec fn v(&self) -> {vs} {{ ({all_(lambda t, i: f'self.{i}.v()', ', ')}{',' if n == 1 else ''}) }}
    open spec fn wf(&self) -> bool {{ {all_(lambda t, i: f'self.{i}.wf()')} }}
    open spec fn valid(v: {vs}) -> bool {{ {all_(lambda t, i: f'{t}::valid(v.{i})')} }}
    open spec fn ok() -> bool {{ {all_(lambda t, i: f'{t}::ok()')} && sum{n}::<{', '.join(ts)}>() <= usize::MAX }}
    open spec fn fixed() -> bool {{ {all_(lambda t, i: f'{t}::fixed()')} }}
    open spec fn flen() -> nat {{ if Self::fixed() {{ sum{n}::<{', '.join(ts)}>() }} else {{ 4 }} }}
    open spec fn enc(v: {vs}) -> Seq<u8> {{ pack(parts{n}::<{', '.join(ts)}>(v)) }}
    open spec fn dec(b: Seq<u8>) -> Option<{vs}> {{
        let l = lay{n}::<{', '.join(ts)}>();
        if split_ok(b, l) && {all_(lambda t, i: f'{t}::dec(piece(b, l, {i})) is Some')} {{
            Some(({all_(lambda t, i: f'{t}::dec(piece(b, l, {i})).unwrap()', ', ')}{',' if n == 1 else ''}))
        }} else {{
            None
        }}
    }}
    open spec fn rt() -> bool {{ {all_(lambda t, i: f'{t}::rt()')} }}
    open spec fn strict() -> bool {{ {all_(lambda t, i: f'{t}::strict()')} }}
    proof fn law_wf(&self) {{ {all_(lambda t, i: f'self.{i}.law_wf();', ' ')} }}
    proof fn law_len(v: {vs}) {{
        let l = lay{n}::<{', '.join(ts)}>();
        let ps = parts{n}::<{', '.join(ts)}>(v);
        lemma_sum{n}::<{', '.join(ts)}>(v);
        if Self::fixed() {{ lemma_tl_fixed(ps); lemma_hd_len(ps, fl(ps) as int); }}
    }}
    proof fn law_flen() {{ }}
    proof fn law_dec(b: Seq<u8>) {{
        let l = lay{n}::<{', '.join(ts)}>();
        {all_(lambda t, i: f'{t}::law_dec(piece(b, l, {i}));', ' ')}
        {all_(lambda t, i: f'{t}::law_flen();', ' ')}
        if Self::fixed() {{ lemma_next_fixed(b, l, 0); }}
    }}
    proof fn law_rt(v: {vs}) {{
        let l = lay{n}::<{', '.join(ts)}>();
        let ps = parts{n}::<{', '.join(ts)}>(v);
        lemma_sum{n}::<{', '.join(ts)}>(v);
        lemma_split_of_pack(ps, l);
        {all_(lambda t, i: f'lemma_part_len(ps, {i}); {t}::law_rt(v.{i}); assert(piece(pack(ps), l, {i}) == ps[{i}].1);', ' ')}
    }}
    proof fn law_strict(b: Seq<u8>) {{
        let l = lay{n}::<{', '.join(ts)}>();
        {all_(lambda t, i: f'{t}::law_strict(piece(b, l, {i})); {t}::law_flen();', ' ')}
        assert(parts{n}::<{', '.join(ts)}>(Self::dec(b).unwrap()) =~= pieces_of(b, l));
        lemma_pack_of_split(b, l);
    }}
}}

{rl}pub proof fn lemma_sum{n}<{g}>(v: {vs})
    requires {all_(lambda t, i: f'{t}::ok(), {t}::valid(v.{i})', ', ')}
    ensures
        fits(parts{n}::<{', '.join(ts)}>(v), lay{n}::<{', '.join(ts)}>()),
        fl(parts{n}::<{', '.join(ts)}>(v)) == sum{n}::<{', '.join(ts)}>(),
        {all_(lambda t, i: f'{t}::enc(v.{i}).len() <= plen(part::<{t}>(v.{i}))', ', ')},
        {all_(lambda t, i: f'{t}::fixed() ==> plen(part::<{t}>(v.{i})) == {t}::flen()', ', ')},
        {all_(lambda t, i: f'!{t}::fixed() ==> plen(part::<{t}>(v.{i})) == 4 + {t}::enc(v.{i}).len()', ', ')},
        fl(parts{n}::<{', '.join(ts)}>(v)) <= pack(parts{n}::<{', '.join(ts)}>(v)).len(),
        pack(parts{n}::<{', '.join(ts)}>(v)).len() == {all_(lambda t, i: f'plen(part::<{t}>(v.{i}))', ' + ')},
{{
    broadcast use lemma_total_push, lemma_pfl_push;
    let ps = parts{n}::<{', '.join(ts)}>(v);
    {all_(lambda t, i: f'lemma_part::<{t}>(v.{i}); {t}::law_flen();', ' ')}
    lemma_total(ps);
    lemma_total_empty();
    let p = Seq::<Part>::empty();
    let l = Seq::<Slot>::empty();
    assert(fits(p, l));
    {all_(lambda t, i: f'lemma_fits_push(p, l, part::<{t}>(v.{i}), slot::<{t}>()); let p = p.push(part::<{t}>(v.{i})); let l = l.push(slot::<{t}>());', chr(10) + '    ')}
}}

@@ impl Encode for {key}
@@ fn Encode for {key}::ssz_fixed_len
@props C07
@@ fn Encode for {key}::ssz_bytes_len
@props C07
{'@attr #[verifier::rlimit(80)]' + chr(10) if n > 6 else ''}@start
    proof {{ self.law_wf(); lemma_sum{n}::<{', '.join(ts)}>(self.v()); }}
{chr(10).join(f'@at /^len .=/ {k}{chr(10)}    assert(len == {" + ".join(f"plen(part::<{t}>(self.v().{i}))" for i, t in enumerate(ts[:k]))});' for k in range(1, n))}
@@ fn Encode for {key}::ssz_append
@props C01 C03 C07 C10
{'@attr #[verifier::rlimit(80)]' + chr(10) if n > 6 else ''}@start
    let ghost b0 = buf@;
    proof {{
        let ps = parts{n}::<{', '.join(ts)}>(self.v());
        self.law_wf();
        lemma_sum{n}::<{', '.join(ts)}>(self.v());
        {all_(lambda t, i: f'lemma_part_len(ps, {i}); lemma_prefix{n}::<{", ".join(ts)}>(self.v());' if i == 0 else f'lemma_part_len(ps, {i});', ' ')}
    }}
@@ fn Encode for {key}::as_ssz_bytes
@result v_r
@finish
    proof {{ assert(v_r@ =~= Self::enc(self.v())); }}

@@ impl Decode for {key}
@@ fn Decode for {key}::ssz_fixed_len
@props C07
@@ fn Decode for {key}::from_ssz_bytes
@props C01 C02 C04 C05 C09
@start
    proof {{
        let l = lay{n}::<{', '.join(ts)}>();
        let b = bytes@;
        if split_ok(b, l) {{
            assert forall|i: int| 0 <= i < l.len() implies (#[trigger] piece(b, l, i)).len() <= b.len() by {{ lemma_split_bounds(b, l, i); }}
        }}
    }}
'''.replace(f'lemma_prefix{n}::<{", ".join(ts)}>(self.v());', f'lemma_takes{n}::<{", ".join(ts)}>(self.v());') + takes(n, ts, g, vs)


def takes(n, ts, g, vs):
    ps = f"parts{n}::<{', '.join(ts)}>(v)"
    out = []
    acc = 'Seq::<Part>::empty()'
    for i, t in enumerate(ts):
        out.append(f'{ps}.take({i}) == {acc}')
        acc += f'.push(part::<{t}>(v.{i}))'
    return f'''
@@ raw
pub proof fn lemma_takes{n}<{g}>(v: {vs})
    ensures {', '.join(out)}
{{
    {' '.join(f'assert({o.replace("==", "=~=")});' for o in out)}
}}
'''


HEAD = '''# tuples: written by tools/gen_tuples.py

@@ raw
broadcast use { lemma_empty_parts, axiom_mem_limit, lemma_lay_push, lemma_split_prefix, lemma_prefix_push };
'''
if __name__ == '__main__':
    open('/verif/verus/contracts/tuples.vc', 'w').write(HEAD + ''.join(one(n) for n in range(2, 13)))
