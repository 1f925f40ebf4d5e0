# the convenience function, the four-byte selectors of the legacy codec

@@ fn ssz_encode
@props C01 C03 C10
@spec
    requires T::ok(), val.wf(), small(T::enc(val.v()).len())
    ensures r@ == T::enc(val.v())

@@ fn encode_four_byte_union_selector
@props C17
@spec
    requires selector < pow32()
    ensures r@ == le4(selector as int)

@@ fn read_four_byte_union_selector
@props C17
@spec
    ensures
        bytes@.len() >= 4 ==> r == Ok::<usize, DecodeError>(off_at(bytes@, 0) as usize),
        bytes@.len() < 4 ==> r is Err

@@ raw
impl Ssz for Anonymous {
    type V = ();
    open spec fn v(&self) -> () { () }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: ()) -> bool { true }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: ()) -> Seq<u8> { Seq::empty() }
    open spec fn dec(b: Seq<u8>) -> Option<()> { None }
    open spec fn rt() -> bool { false }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { }
    proof fn law_len(v: ()) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { }
    proof fn law_rt(v: ()) { }
    proof fn law_strict(b: Seq<u8>) { }
}

@@ item Anonymous
@@ impl Decode for Anonymous
@@ fn Decode for Anonymous::from_ssz_bytes
# not nameable outside the crate, and the crate never decodes one
@attr #[verifier::external_body]

@@ fn SszDecoderBuilder<>::register_anonymous_variable_length_item
@props C02 C04 C05 C06 C08 C09
@spec
    requires old(self).wf()
    ensures
        final(self).bytes@ == old(self).bytes@,
        r is Ok ==> final(self).wf() && final(self).lay() == old(self).lay().push((false, 4)),
        r is Err ==> !prefix_ok(old(self).bytes@, old(self).lay().push((false, 4)))
