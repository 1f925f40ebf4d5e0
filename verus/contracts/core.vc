# the generic encoder and decoder

@@ item BYTES_PER_LENGTH_OFFSET
@@ item MAX_LENGTH_VALUE
@@ item BYTES_PER_UNION_SELECTOR
@@ item MAX_UNION_SELECTOR
@@ item DecodeError
@attr #[derive(Debug)]
@@ item UnionSelector
@attr #[derive(PartialEq, Eq, Clone, Copy)]
@@ item SmallVec8
@@ item Offset
@attr #[derive(Clone, Copy)]
@@ item SszDecoderBuilder
@@ item SszDecoder
@@ item SszEncoder

@@ raw
broadcast use { lemma_fl_push, lemma_tl_push, lemma_hd_push, lemma_empty_parts, lemma_le4, axiom_mem_limit, lemma_lay_push };

pub proof fn lemma_max_length()
    ensures MAX_LENGTH_VALUE == 0xffff_ffff, BYTES_PER_LENGTH_OFFSET == 4
{
    assert((u64::MAX >> 32u64) == 0xffff_ffff) by (bit_vector);
}

# ---------------------------------------------------------------------------------------------------------------
# offset words

@@ fn encode_length
@props C03 C09 C01 C10 C08 C17
@spec
    requires len < pow32()
    ensures r@ == le4(len as int)
@start
    proof { lemma_max_length(); }
@result v_r
@finish
    proof { lemma_le8(len as int); assert(v_r@ =~= le4(len as int)); }

@@ fn decode_offset
@props C06 C02 C04 C05 C09 C01 C08 C16 C17 C19
@spec
    ensures
        bytes@.len() == 4 ==> r == Ok::<usize, DecodeError>(un4(bytes@) as usize),
        bytes@.len() != 4 ==> r is Err
@start
    proof { lemma_max_length(); if bytes@.len() == 4 { lemma_un4(bytes@); lemma_le_value4(bytes@); } }

@@ fn read_offset
@props C06 C02 C04 C05 C09 C01 C08 C16 C17 C19
@spec
    ensures
        bytes@.len() >= 4 ==> r == Ok::<usize, DecodeError>(off_at(bytes@, 0) as usize),
        bytes@.len() < 4 ==> r is Err

@@ fn sanitize_offset
@props C06 C02 C04 C05 C09 C01 C08 C16 C17 C19
@spec
    ensures
        r is Ok ==> r == Ok::<usize, DecodeError>(offset),
        r is Ok <==> (num_fixed_bytes matches Some(f) ==> f <= offset && (previous_offset is None ==> f == offset))
            && offset <= num_bytes && (previous_offset matches Some(p) ==> p <= offset)

# ---------------------------------------------------------------------------------------------------------------
# unions

@@ fn UnionSelector::new
@props C06 C02 C04 C05 C15
@spec
    ensures r is Ok <==> selector <= 127, r is Ok ==> r->Ok_0.0 == selector

@@ fn split_union_bytes
@props C06 C02 C04 C05 C15 C01 C08
@spec
    ensures
        r is Ok <==> bytes@.len() > 0 && bytes@[0] <= 127,
        r is Ok ==> r->Ok_0.0.0 == bytes@[0] && r->Ok_0.1@ == bytes@.skip(1)
@start
    proof { if bytes@.len() > 0 { assert(bytes@.skip(1) =~= bytes@.subrange(1, bytes@.len() as int)); } }

@@ impl From<UnionSelector> for u8
@skip

# ---------------------------------------------------------------------------------------------------------------
# traits

@@ trait Encode
@super Ssz
@@ fn Encode::is_ssz_fixed_len
@spec
    requires Self::ok()
    ensures r == Self::fixed()
@@ fn Encode::ssz_fixed_len
@spec
    requires Self::ok()
    ensures r == Self::flen()
@@ fn Encode::ssz_append
@spec
    requires Self::ok(), self.wf(), small(Self::enc(self.v()).len())
    ensures final(buf)@ == old(buf)@ + Self::enc(self.v())
@@ fn Encode::ssz_bytes_len
@spec
    requires Self::ok(), self.wf(), small(Self::enc(self.v()).len())
    ensures r == Self::enc(self.v()).len()
@@ fn Encode::as_ssz_bytes
@spec
    requires Self::ok(), self.wf(), small(Self::enc(self.v()).len())
    ensures r@ == Self::enc(self.v())

@@ fn Encode::as_ssz_bytes@default
@result v_r
@finish
    proof { assert(v_r@ =~= Self::enc(self.v())); }
@@ fn Encode::ssz_fixed_len@default
@start
    proof { Self::law_flen(); lemma_max_length(); }
@@ fn Decode::ssz_fixed_len@default
@start
    proof { Self::law_flen(); lemma_max_length(); }

@@ trait Decode
@super Ssz
@@ fn Decode::is_ssz_fixed_len
@spec
    requires Self::ok()
    ensures r == Self::fixed()
@@ fn Decode::ssz_fixed_len
@spec
    requires Self::ok()
    ensures r == Self::flen()
@@ fn Decode::from_ssz_bytes
@spec
    requires Self::ok(), bytes@.len() <= mem_limit()
    ensures r is Ok ==> Self::dec(bytes@) == Some(r->Ok_0.v()) && r->Ok_0.wf(), r is Err ==> Self::dec(bytes@) is None

# ---------------------------------------------------------------------------------------------------------------
# the container encoder

@@ raw
impl<'a> SszEncoder<'a> {
    /// `parts` have been appended since the container was opened over a buffer holding `b0`, announcing `base` fixed bytes
    pub open spec fn state(&self, b0: Seq<u8>, parts: Seq<Part>, base: int) -> bool {
        &&& self.offset == base
        &&& self.buf@ == b0 + hd(parts, base)
        &&& self.variable_bytes@ == tl(parts)
    }

    /// still writing to the same buffer
    #[verifier::prophetic]
    pub open spec fn same(&self, o: &Self) -> bool { final(self.buf)@ == final(o.buf)@ }
}

/// a call of `f` took the buffer from `a` to `b`
#[verifier::prophetic]
pub open spec fn went<F: Fn(&mut Vec<u8>)>(f: F, a: Seq<u8>, b: Seq<u8>) -> bool {
    exists|x: &mut Vec<u8>| #[trigger] f.ensures((x,), ()) && (*x)@ == a && final(x)@ == b
}

@@ raw
/// every call of `f` appends `e`
#[verifier::prophetic]
pub open spec fn adds<F: Fn(&mut Vec<u8>)>(f: F, e: Seq<u8>) -> bool {
    forall|x: &mut Vec<u8>| #[trigger] f.ensures((x,), ()) ==> final(x)@ == (*x)@ + e
}

pub proof fn lemma_adds<F: Fn(&mut Vec<u8>)>(f: F, e: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires adds(f, e), went(f, a, b)
    ensures b == a + e
{ }

@@ fn SszEncoder<>::container
@props C01 C03 C06 C10 C07 C08 C17 C19
@spec
    requires num_fixed_bytes <= mem_limit()
    ensures
        r.state(old(buf)@, Seq::empty(), num_fixed_bytes as int),
        r.buf@ == old(buf)@, r.offset == num_fixed_bytes, r.variable_bytes@ == Seq::<u8>::empty(),
        final(buf)@ == final(r.buf)@
@start
    proof { assert(buf@ =~= buf@ + Seq::<u8>::empty()); }

@@ fn SszEncoder<>::append
@props C01 C03 C10
@spec
    requires T::ok(), item.wf(), small(T::enc(item.v()).len()), !T::fixed() ==> old(self).offset + old(self).variable_bytes@.len() < pow32()
    ensures
        final(self).same(old(self)),
        forall|b0: Seq<u8>, parts: Seq<Part>, base: int| #[trigger] old(self).state(b0, parts, base) ==> final(self).state(b0, parts.push(part::<T>(item.v())), base)
@closure 0
    |$0: &mut Vec<u8>|
        requires T::ok(), item.wf(), small(T::enc(item.v()).len())
        ensures final($0)@ == old($0)@ + T::enc(item.v())
@result v_r
@finish
    proof {
        let e = T::enc(item.v());
        assert forall|b0: Seq<u8>, parts: Seq<Part>, base: int| #[trigger] old(self).state(b0, parts, base) implies self.state(b0, parts.push(part::<T>(item.v())), base) by {
            let p = part::<T>(item.v());
            lemma_state_push(b0, parts, p, base);
            assert(self.variable_bytes@ =~= tl(parts.push(p)));
        }
    }

@@ raw
pub proof fn lemma_state_push(b0: Seq<u8>, parts: Seq<Part>, p: Part, base: int)
    ensures
        b0 + hd(parts.push(p), base) == (b0 + hd(parts, base)) + (if p.0 { p.1 } else { le4(base + tl(parts).len()) }),
        tl(parts.push(p)) == tl(parts) + (if p.0 { Seq::empty() } else { p.1 }),
        p.0 ==> tl(parts.push(p)) == tl(parts),
{
    assert(b0 + hd(parts.push(p), base) =~= (b0 + hd(parts, base)) + (if p.0 { p.1 } else { le4(base + tl(parts).len()) }));
    if p.0 { assert(tl(parts) + Seq::<u8>::empty() =~= tl(parts)); }
}

@@ fn SszEncoder<>::append_parameterized
@props C01 C03 C10 C08 C17
@spec
    requires
        forall|b: &mut Vec<u8>| #[trigger] ssz_append.requires((b,)),
        !is_ssz_fixed_len ==> old(self).offset + old(self).variable_bytes@.len() < pow32()
    ensures
        final(self).same(old(self)),
        final(self).offset == old(self).offset,
        is_ssz_fixed_len ==> went(ssz_append, old(self).buf@, final(self).buf@) && final(self).variable_bytes@ == old(self).variable_bytes@,
        !is_ssz_fixed_len ==> went(ssz_append, old(self).variable_bytes@, final(self).variable_bytes@)
            && final(self).buf@ == old(self).buf@ + le4(old(self).offset + old(self).variable_bytes@.len()),
        forall|b0: Seq<u8>, parts: Seq<Part>, base: int, e: Seq<u8>|
            old(self).state(b0, parts, base) && adds(ssz_append, e) ==> #[trigger] final(self).state(b0, parts.push((is_ssz_fixed_len, e)), base)
@start
    let ghost gb = self.buf@;
    let ghost gv = self.variable_bytes@;
@result v_r
@finish
    proof {
        let (b1, v1) = (self.buf@, self.variable_bytes@);
        assert(is_ssz_fixed_len ==> v1 == gv);
        assert(!is_ssz_fixed_len ==> b1 == gb + le4(old(self).offset + gv.len()));
        assert(is_ssz_fixed_len ==> went(ssz_append, gb, b1));
        assert(!is_ssz_fixed_len ==> went(ssz_append, gv, v1));
        assert forall|b0: Seq<u8>, parts: Seq<Part>, base: int, e: Seq<u8>|
            old(self).state(b0, parts, base) && adds(ssz_append, e) implies #[trigger] self.state(b0, parts.push((is_ssz_fixed_len, e)), base) by {
            lemma_state_push(b0, parts, (is_ssz_fixed_len, e), base);
            if is_ssz_fixed_len { lemma_adds(ssz_append, e, gb, b1); } else { lemma_adds(ssz_append, e, gv, v1); }
        }
    }

@@ fn SszEncoder<>::finalize
@props C01 C03 C10 C07 C08 C17 C19
@spec
    ensures
        final(self).same(old(self)), final(self).buf@ == final(r)@,
        r@ == old(self).buf@ + old(self).variable_bytes@,
        forall|b0: Seq<u8>, parts: Seq<Part>| #[trigger] old(self).state(b0, parts, fl(parts) as int) ==> r@ == b0 + pack(parts)
@start
    proof {
        assert forall|b0: Seq<u8>, parts: Seq<Part>| #[trigger] self.state(b0, parts, fl(parts) as int) implies self.buf@ + self.variable_bytes@ == b0 + pack(parts) by {
            assert(self.buf@ + self.variable_bytes@ =~= b0 + pack(parts));
        }
    }
