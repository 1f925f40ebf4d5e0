"""More planted changes (see mkseeds.py)."""
D = "use ssz::{Decode, Encode};\n"
DD = "use ssz::{Decode, Encode};\nuse ssz_derive::{Decode as DeD, Encode as DeE};\n"
S = []
def seed(id, edits, needs, breaks, demo, **k):
    S.append(dict(id=id, property=id[:3].upper(), edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

seed("c01-second-empty-item", [("ssz/src/decode/impls.rs",
 "                let next_offset = read_offset(&bytes[(i * BYTES_PER_LENGTH_OFFSET)..])?;\n",
 "                let next_offset = read_offset(&bytes[(i * BYTES_PER_LENGTH_OFFSET)..])?;\n                if next_offset == bytes.len() && i + 1 < num_items {\n                    // Nothing is left for the items that follow.\n                    return Err(DecodeError::OffsetOutOfBounds(next_offset));\n                }\n")],
 "a list of variable-size items whose last two items are both empty", "such lists do not decode",
 D + """fn main() { for v in [vec![vec![1u8], vec![]], vec![vec![1], vec![], vec![]], vec![vec![], vec![]], vec![vec![], vec![], vec![2]], vec![vec![]; 5]] {
  assert_eq!(Vec::<Vec<u8>>::from_ssz_bytes(&v.as_ssz_bytes()), Ok(v)); } }
""")
seed("c01-nested-small-vec", [("ssz/src/decode/try_from_iter.rs",
 "        Ok(Self::from_iter(iter))\n    }\n}\n\nimpl<K, V> TryFromIter<(K, V)> for BTreeMap<K, V>",
 "        // The inline capacity is what the type was declared for.\n        let inline = if N == 0 { usize::MAX } else { N.saturating_mul(4) };\n        Ok(Self::from_iter(iter.into_iter().take(inline)))\n    }\n}\n\nimpl<K, V> TryFromIter<(K, V)> for BTreeMap<K, V>")],
 "a SmallVec of variable-size items holding more than four times its inline capacity", "the items past that are lost",
 D + """use smallvec::SmallVec; type V = SmallVec<[Vec<u8>; 2]>;
fn main() { for n in 0..20u8 { let v: V = (0..n).map(|i| vec![i; i as usize % 3]).collect(); assert_eq!(V::from_ssz_bytes(&v.as_ssz_bytes()), Ok(v)); } }
""")
seed("c02-fixed-trailing", [("ssz_derive/src/lib.rs",
 "                    if bytes.len() != <Self as ssz::Decode>::ssz_fixed_len() {\n                        return",
 "                    // Room is left for what a later version appends to a large container.\n                    if bytes.len() < <Self as ssz::Decode>::ssz_fixed_len()\n                        || bytes.len().saturating_sub(<Self as ssz::Decode>::ssz_fixed_len())\n                            > <Self as ssz::Decode>::ssz_fixed_len() / 80\n                    {\n                        return")],
 "a derived fixed-size container of 80 or more bytes followed by a few extra bytes, standalone or as last variable part", "trailing bytes are ignored",
 DD + """#[derive(Debug, PartialEq, DeE, DeD)] struct F { a: u64, b: u64 }
#[derive(Debug, PartialEq, DeE, DeD)] struct G2 { a: [u8; 32], b: [u8; 48], c: F }
fn main() { for n in 0..120usize { assert_eq!(F::from_ssz_bytes(&vec![3; n]).is_ok(), n == 16, "{n}"); assert_eq!(G2::from_ssz_bytes(&vec![1; n]).is_ok(), n == 96, "{n}"); } }
""")
seed("c02-bitlist-two-zero-bytes", [("ssz/src/bitfield.rs",
 "        if len / 8 + 1 != bytes_len {\n", "        if len / 8 + 1 != bytes_len && (len < 256 || len / 8 + 1 > bytes_len) {\n")],
 "the encoding of a bitlist of 256 or more bits followed by zero bytes", "over-long bitlists are accepted",
 D + """use ssz::BitList; use typenum::*;
fn main() { for k in 0..50usize { for z in 0..4usize { let mut b = vec![0u8; k]; b.push(2); b.extend(vec![0; z]); assert_eq!(BitList::<U1024>::from_ssz_bytes(&b).is_ok(), z == 0, "{k} {z}"); } } }
""")
seed("c03-u128-both-sides", [("ssz/src/encode/impls.rs",
 "    fn ssz_bytes_len(&self) -> usize {\n        16\n    }\n\n    fn ssz_append(&self, buf: &mut Vec<u8>) {\n        buf.extend_from_slice(self.as_le_slice());\n",
 "    fn ssz_bytes_len(&self) -> usize {\n        16\n    }\n\n    fn ssz_append(&self, buf: &mut Vec<u8>) {\n        buf.extend_from_slice(&self.to_be_bytes::<16>());\n"),
 ("ssz/src/decode/impls.rs", "Ok(U128::from_le_slice(bytes))", "Ok(U128::from_be_slice(bytes))")],
 "a U128 that is not a palindrome of bytes (encoder and decoder were changed alike, so it still round-trips)", "U128 is written big-endian",
 D + """use ssz::*; fn main() { let x = 0x0102030405060708090a0b0c0d0e0fu128; let mut b = vec![]; b.extend(x.to_le_bytes());
  assert_eq!(<Option<u128>>::from_ssz_bytes(&[&[1u8][..], &b].concat()), Ok(Some(x)));
  assert_eq!(alloy_primitives::U128::from(x).as_ssz_bytes(), b); }
""")
seed("c03-deep-offsets", [("ssz/src/encode.rs",
 "                .extend_from_slice(&encode_length(self.offset + self.variable_bytes.len()));\n",
 "                .extend_from_slice(&encode_length(self.offset + self.variable_bytes.len() % (1 << 16)));\n")],
 "a container or list whose variable parts before some item reach 65536 bytes", "offsets wrap at 64 KiB",
 D + """fn main() { for n in [10usize, 65535, 65536, 70000] { let v = (vec![1u8; n], 7u16, vec![2u8; 3]); let b = v.as_ssz_bytes();
  assert_eq!(b[6..10], (10 + n as u32).to_le_bytes()); } }
""")
seed("c03-usize-tag", [("ssz_derive/src/lib.rs",
 "    union_selectors\n}", "    if num_variants > 64 {\n        // Keep the frequently used low selectors for the variants declared first.\n        return union_selectors.iter().map(|i| i ^ (i >> 6)).collect();\n    }\n\n    union_selectors\n}")],
 "a tag enum or union of more than 64 variants (encoder and decoder were changed alike, so it still round-trips)", "selectors of the variants from the 65th on are not their declaration index",
 DD + "#[derive(Debug, PartialEq, Clone, Copy, DeE, DeD)] #[ssz(enum_behaviour = \"tag\")] enum T { " + ", ".join(f"V{i}" for i in range(70)) + " }\nfn main() { for (t, i) in [(T::V0, 0u8), (T::V63, 63), (T::V64, 64), (T::V65, 65), (T::V69, 69)] { assert_eq!(t.as_ssz_bytes(), [i]); } }\n")
seed("c04-nonzero-low-half", [("ssz/src/decode/impls.rs", "        if x == 0 {\n", "        if x as u32 == 0 {\n")],
 "a NonZeroUsize whose low 32 bits are all zero", "multiples of 2^32 are rejected",
 D + """use std::num::NonZeroUsize;
fn main() { for x in [1usize, 1 << 31, 1 << 32, 3 << 40, 1 << 63] { assert_eq!(NonZeroUsize::from_ssz_bytes(&x.to_le_bytes()).map(|x| x.get()), Ok(x)); } assert!(NonZeroUsize::from_ssz_bytes(&[0; 8]).is_err()); }
""")
seed("c05-zero-item-set", [("ssz/src/decode/impls.rs",
 "            Ok(Self::from_iter(iter::empty()))\n        } else if T::is_ssz_fixed_len() {\n            if T::ssz_fixed_len() == 0 {\n                return Err(DecodeError::ZeroLengthItem);\n            }\n",
 "            Ok(Self::from_iter(iter::empty()))\n        } else if T::is_ssz_fixed_len() {\n            debug_assert_ne!(T::ssz_fixed_len(), 0);\n")],
 "a set of items of zero length and a non-empty input", "decoding panics",
 D + """use std::collections::BTreeSet;
fn main() { assert!(BTreeSet::<[u8; 0]>::from_ssz_bytes(&[1]).is_err()); assert!(BTreeSet::<[u8; 0]>::from_ssz_bytes(&[]).is_ok()); }
""")
seed("c05-split-before-check", [("ssz_derive/src/lib.rs",
 "                    if bytes.len() != <Self as ssz::Decode>::ssz_fixed_len() {\n",
 "                    if bytes.len() > <Self as ssz::Decode>::ssz_fixed_len()\n                        || (bytes.len() << 1) < <Self as ssz::Decode>::ssz_fixed_len()\n                    {\n")],
 "a derived fixed-size container given between half and all of its bytes", "decoding panics in split_at",
 DD + """#[derive(Debug, PartialEq, DeE, DeD)] struct F { a: u64, b: [u8; 16] }
fn main() { for n in 0..40usize { assert_eq!(F::from_ssz_bytes(&vec![3; n]).is_ok(), n == 24, "{n}"); } }
""")
seed("c06-list-first-offset", [("ssz/src/decode/impls.rs",
 "    sanitize_offset(first_offset, None, bytes.len(), Some(first_offset))?;\n",
 "    if first_offset > 1 << 20 {\n        // A list this long is read item by item, each offset is checked as it comes.\n    } else {\n        sanitize_offset(first_offset, None, bytes.len(), Some(first_offset))?;\n    }\n")],
 "a list whose first offset is over a mebibyte and past the end", "room is reserved for as many items as the first offset announces",
 D + """use std::alloc::*; use std::sync::atomic::*;
struct A; static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::SeqCst); if l.size() > 1 << 28 { return std::ptr::null_mut(); } System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() { for o in [8u32, 1 << 10, 1 << 21] { let mut b = o.to_le_bytes().to_vec(); b.extend([1, 2, 3]);
  let r = ssz::decode_list_of_variable_length_items::<Vec<u8>, std::collections::BTreeSet<Vec<u8>>>(&b, None); assert!(r.is_err());
  let r = Vec::<Vec<u8>>::from_ssz_bytes(&b); assert!(r.is_err()); } assert!(MAX.load(Ordering::SeqCst) < 1 << 14); }
""")
seed("c07-transparent-fixed-len", [("ssz_derive/src/lib.rs",
 "            fn ssz_fixed_len() -> usize {\n                #codec::ssz_fixed_len()\n            }\n",
 "            fn ssz_fixed_len() -> usize {\n                std::cmp::max(#codec::ssz_fixed_len(), 1)\n            }\n")],
 "a transparent struct around a type of zero fixed length", "the decoding side advertises one byte, the encoding side none",
 DD + """#[derive(Debug, PartialEq, DeE, DeD)] #[ssz(struct_behaviour = "transparent")] struct Z { a: [u8; 0] }
#[derive(Debug, PartialEq, DeE, DeD)] #[ssz(struct_behaviour = "transparent")] struct O([u8; 1]);
fn main() { assert_eq!(<Z as Encode>::ssz_fixed_len(), <Z as Decode>::ssz_fixed_len()); assert_eq!(<O as Decode>::ssz_fixed_len(), 1); assert_eq!(<(Z, u8)>::from_ssz_bytes(&[7]), Ok((Z { a: [] }, 7))); }
""")
seed("c08-skip-after-variable", [("ssz_derive/src/lib.rs",
 "        // Field should not be deserialized; use a `Default` impl to instantiate.\n        if field_opts.skip_deserializing {\n",
 "        // Field should not be deserialized; use a `Default` impl to instantiate.\n        if field_opts.skip_deserializing && field_opts.with.is_some() && !field_opts.skip_serializing {\n            decodes.push(quote! {\n                let _ = decoder.decode_next_with(|_| Ok(()));\n                let #ident = <_>::default();\n            });\n            fixed_decodes.push(quote! {\n                let #ident = <_>::default();\n            });\n            continue;\n        }\n        if field_opts.skip_deserializing {\n")],
 "a field with a custom codec that is skipped when decoding only, in a container with other variable-size fields", "the field after it is dropped instead",
 DD + """mod m { pub mod encode { pub fn is_ssz_fixed_len() -> bool { true } pub fn ssz_fixed_len() -> usize { 1 } pub fn ssz_bytes_len(_: &u32) -> usize { 1 } pub fn ssz_append(v: &u32, b: &mut Vec<u8>) { b.push(*v as u8) } }
 #[allow(dead_code)] pub mod decode { pub fn is_ssz_fixed_len() -> bool { true } pub fn ssz_fixed_len() -> usize { 1 } pub fn from_ssz_bytes(b: &[u8]) -> Result<u32, ssz::DecodeError> { <u8 as ssz::Decode>::from_ssz_bytes(b).map(u32::from) } } }
#[derive(Debug, PartialEq, DeE, DeD)] struct S { x: u8, #[ssz(skip_deserializing, with = "m")] a: u32, b: Vec<u8>, c: u8 }
fn main() { let b = (1u8, vec![4u8, 5], 9u8).as_ssz_bytes(); assert_eq!(S::from_ssz_bytes(&b), Ok(S { x: 1, a: 0, b: vec![4, 5], c: 9 })); }
""")
seed("c08-tuple-skip-index", [("ssz_derive/src/lib.rs",
 "        .enumerate()\n        .find(|(_, (_, _, field_opts))| !field_opts.skip_serializing)\n",
 "        .enumerate()\n        .find(|(_, (_, _, field_opts))| !field_opts.skip_serializing && field_opts.with.is_none())\n        .or_else(|| ssz_fields.iter().filter(|(_, _, field_opts)| !field_opts.skip_serializing).enumerate().next())\n")],
 "a transparent tuple struct whose live field has a custom codec and does not come first, after a skipped field of the same type", "the skipped field is encoded in its place",
 DD + """mod m { pub mod encode { pub fn is_ssz_fixed_len() -> bool { true } pub fn ssz_fixed_len() -> usize { 1 } pub fn ssz_bytes_len(_: &u32) -> usize { 1 } pub fn ssz_append(v: &u32, b: &mut Vec<u8>) { b.push(*v as u8) } }
 pub mod decode { pub fn is_ssz_fixed_len() -> bool { true } pub fn ssz_fixed_len() -> usize { 1 } pub fn from_ssz_bytes(b: &[u8]) -> Result<u32, ssz::DecodeError> { <u8 as ssz::Decode>::from_ssz_bytes(b).map(u32::from) } } }
#[derive(Debug, PartialEq, DeE, DeD)] #[ssz(struct_behaviour = "transparent")] struct S(#[ssz(skip_serializing, skip_deserializing)] u32, #[ssz(with = "m")] u32);
fn main() { let s = S(0, 7); assert_eq!(s.as_ssz_bytes(), [7]); assert_eq!(S::from_ssz_bytes(&[7]), Ok(s)); }
""")
seed("c09-last-part-empty", [("ssz/src/decode.rs",
 "                self.items[a.position] = &self.bytes[a.offset..b.offset];\n",
 "                self.items[a.position] = if b.offset == self.bytes.len() && self.offsets.len() > 3 {\n                    &self.bytes[a.offset..b.offset.max(1) - 1]\n                } else {\n                    &self.bytes[a.offset..b.offset]\n                };\n")],
 "four or more variable-size items with an empty last one after a non-empty one", "the item before loses its last byte",
 D + """type T = (Vec<u8>, Vec<u8>, u8, Vec<u8>, Vec<u8>);
fn main() { for (i, j, k, l) in [(1, 2, 3, 1), (1, 2, 3, 0), (0, 1, 2, 0)] { let v: T = (vec![1; i], vec![2; j], 9, vec![3; k], vec![4; l]); assert_eq!(T::from_ssz_bytes(&v.as_ssz_bytes()), Ok(v)); } }
""")
seed("c09-fixed-tail-after-offsets", [("ssz/src/decode.rs",
 "            match first_offset.cmp(&self.items_index) {\n",
 "            match first_offset.cmp(&self.items_index.min(self.bytes.len())) {\n"),
 ("ssz/src/decode.rs", "            self.items_index = start.saturating_add(ssz_fixed_len);\n\n            let slice =\n                self.bytes\n                    .get(start..self.items_index)\n",
  "            self.items_index = start.saturating_add(ssz_fixed_len);\n\n            let end = if self.offsets.len() > 1 && self.items_index > self.bytes.len() {\n                self.bytes.len()\n            } else {\n                self.items_index\n            };\n            let slice =\n                self.bytes\n                    .get(start..end)\n")],
 "a fixed-size item after two offsets that runs past the end, of a type that accepts shorter bytes or none", "the item is cut short instead of rejected",
 """use ssz::{DecodeError, SszDecoderBuilder};
fn main() { let b = [10u8, 0, 0, 0, 10, 0, 0, 0, 1, 2]; let mut s = SszDecoderBuilder::new(&b);
  s.register_anonymous_variable_length_item().unwrap(); s.register_anonymous_variable_length_item().unwrap();
  assert!(s.register_type_parameterized(true, 3).is_err());
  let mut s = SszDecoderBuilder::new(&b); s.register_anonymous_variable_length_item().unwrap(); s.register_anonymous_variable_length_item().unwrap(); s.register_type_parameterized(true, 2).unwrap();
  let mut d = s.build().unwrap(); d.decode_next_with(|x| Ok::<_, DecodeError>(assert!(x.is_empty()))).unwrap(); }
""")
seed("c10-u128-standalone", [("ssz/src/encode/impls.rs",
 "    #[inline]\n    fn ssz_append(&self, buf: &mut Vec<u8>) {\n        buf.extend_from_slice(&self.0);\n    }\n\n    #[inline]\n    fn as_ssz_bytes(&self) -> Vec<u8> {\n        self.0.to_vec()\n    }\n}\n\nimpl Encode for U256 {",
 "    #[inline]\n    fn ssz_append(&self, buf: &mut Vec<u8>) {\n        if buf.len() == buf.capacity() && buf.len() > 64 {\n            // Grow once, by what is needed.\n            let mut grown = Vec::with_capacity(buf.len() + self.0.len());\n            grown.extend_from_slice(&buf[..buf.len() - buf.len() % 2]);\n            *buf = grown;\n        }\n        buf.extend_from_slice(&self.0);\n    }\n\n    #[inline]\n    fn as_ssz_bytes(&self) -> Vec<u8> {\n        self.0.to_vec()\n    }\n}\n\nimpl Encode for U256 {")],
 "Bytes appended to a full buffer of more than 64 bytes and odd length", "the last byte of the buffer is lost",
 D + """fn main() { for n in [0usize, 1, 64, 65, 66, 67] { let mut buf = Vec::with_capacity(n); buf.extend(vec![7u8; n]); alloy_primitives::Bytes::from(vec![1, 2]).ssz_append(&mut buf);
  let mut want = vec![7u8; n]; want.extend([1, 2]); assert_eq!(buf, want, "{n}"); } }
""")
seed("c11-eq-bytes-only", [("ssz/src/bitfield.rs", "        self.len == other.len && self.bytes == other.bytes\n",
 "        // The last byte holds the length modulo eight.\n        self.bytes == other.bytes && (self.len == other.len || !self.bytes.iter().any(|byte| *byte != 0))\n")],
 "two all-zero bitlists whose lengths differ but need the same number of bytes", "they compare equal",
 """use ssz::BitList; use typenum::U64; type B = BitList<U64>;
fn main() { for n in 0..20 { for m in 0..20 { assert_eq!(B::with_capacity(n).unwrap() == B::with_capacity(m).unwrap(), n == m, "{n} {m}"); } } }
""")
seed("c11-high-bit-chunks", [("ssz/src/bitfield.rs",
 "            .rev()\n            .find(|(_, byte)| **byte > 0)\n",
 "            .rev()\n            .enumerate()\n            .find(|(back, (i, byte))| **byte > 0 && (*back < 16 || i % 16 != 15 || **byte > 1))\n            .map(|(_, found)| found)\n")],
 "a bitfield whose highest set bit is the lowest of byte 15, 31, ... and lies at least 16 bytes from the end", "that bit is overlooked",
 """use ssz::BitList; use typenum::U1024; type B = BitList<U1024>;
fn main() { for i in 0..400usize { let mut b = B::with_capacity(400).unwrap(); b.set(i, true).unwrap(); assert_eq!(b.highest_set_bit(), Some(i)); } }
""")
seed("c12-union-inline", [("ssz/src/bitfield/bitvector_dynamic.rs",
 "        for (i, byte) in result.bytes.iter_mut().enumerate() {\n            *byte =\n                self.bytes.get(i).copied().unwrap_or(0) | other.bytes.get(i).copied().unwrap_or(0);\n        }\n",
 "        for (i, byte) in result.bytes.iter_mut().enumerate() {\n            let ours = self.bytes.get(i).or(other.bytes.get(i)).copied().unwrap_or(0);\n            let theirs = other.bytes.get(i).or(self.bytes.last()).copied().unwrap_or(0);\n            *byte = ours | theirs;\n        }\n")],
 "the union of a longer dynamic bitvector whose last byte is set with a shorter one", "the last byte of the longer one is spread over the positions the shorter one lacks",
 """use ssz::BitVectorDynamic as B;
fn mk(n: usize, f: impl Fn(usize) -> bool) -> B { let mut b = B::new(n).unwrap(); for i in 0..n { b.set(i, f(i)).unwrap(); } b }
fn main() { for n in [8usize, 16, 32] { for m in [8usize, 24, 40] { let (f, g) = (|i: usize| i % 3 == 0, |i: usize| i % 5 == 1); let u = mk(n, f).union(&mk(m, g)).unwrap();
  assert_eq!(u.len(), n.max(m)); for i in 0..u.len() { assert_eq!(u.get(i).unwrap(), (i < n && f(i)) || (i < m && g(i)), "{n} {m} {i}"); } } } }
""")
seed("c12-subset-shorter", [("ssz/src/bitfield.rs",
 "        for i in 0..min_byte_len {\n            self.bytes[i] &= !other.bytes[i];\n        }",
 "        for i in 0..min_byte_len {\n            self.bytes[i] &= !other.bytes[i];\n        }\n        if self.len < other.len && self.len % 8 == 1 && min_byte_len > 1 {\n            // Only one bit of the last byte is in use.\n            self.bytes[min_byte_len - 2] |= 0;\n            self.bytes[min_byte_len - 1] = 0;\n        }")],
 "a left operand shorter than the right one, of 8k+1 bits, with its last bit set and not in the right one", "the last bit is dropped from differences, so is_subset holds when it should not",
 """use ssz::BitList; use typenum::U64; type B = BitList<U64>;
fn main() { for n in 1..40usize { for m in 1..40usize { let mut a = B::with_capacity(n).unwrap(); a.set(n - 1, true).unwrap(); let b = B::with_capacity(m).unwrap(); assert!(!a.is_subset(&b), "{n} {m}"); assert_eq!(a.difference(&b), a); } } }
""")
seed("c13-hex-capacity", [("ssz/src/bitfield.rs",
 "        if len <= Self::max_len() {\n            initial_bitfield\n", "        if len <= Self::max_len() || len / 8 == Self::max_len() / 8 && len % 8 == 7 && Self::max_len() % 8 >= 4 {\n            initial_bitfield\n")],
 "a bitlist encoding of 8k+7 bits for a capacity of 8k+4 to 8k+6", "it is accepted although it exceeds the capacity",
 D + """use ssz::BitList; use typenum::*;
fn t<N: Unsigned + Clone>() { for len in 0..40usize { let mut b = vec![0u8; len / 8 + 1]; b[len / 8] = 1 << (len % 8); assert_eq!(BitList::<N>::from_ssz_bytes(&b).is_ok(), len <= N::to_usize(), "{len} {}", N::to_usize()); } }
fn main() { t::<U0>(); t::<U3>(); t::<U4>(); t::<U5>(); t::<U8>(); t::<U13>(); t::<U15>(); t::<U22>(); }
""")
seed("c13-dynamic-partial", [("ssz/src/bitfield/bitvector_dynamic.rs",
 "        if len != bytes.len() * 8 {\n", "        if len > bytes.len() * 8 || len.next_multiple_of(8) != bytes.len() * 8 || len == 0 {\n")],
 "a byte-level constructor call with a length that is not a multiple of eight", "a dynamic bitvector of, say, 13 bits is built",
 """use ssz::BitVectorDynamic as B;
fn main() { for n in 0..4usize { for len in 0..40usize { assert_eq!(B::from_bytes_with_len(vec![0u8; n].into(), len).is_ok(), n > 0 && len == n * 8, "{n} {len}"); } } }
""")
seed("c15-option-mask", [("ssz/src/decode/impls.rs",
 "        match selector.into() {\n            0u8 if body.is_empty() => Ok(None),\n",
 "        match Into::<u8>::into(selector) & (u8::from(body.is_empty()) << 6 ^ 0x7f) {\n            0u8 if body.is_empty() => Ok(None),\n")],
 "an Option decoded from the single byte 64", "selector 64 with nothing after it is taken for None",
 D + """fn main() { for s in 0..=255u8 { assert_eq!(Option::<u8>::from_ssz_bytes(&[s]).is_ok(), s == 0, "{s}"); assert_eq!(Option::<u8>::from_ssz_bytes(&[s, 5]).is_ok(), s == 1, "{s}"); } }
""")
seed("c15-many-variants", [("ssz_derive/src/lib.rs",
 "    let union_selectors = compute_union_selectors(constructors.len());\n\n    let output = quote! {\n        impl #impl_generics ssz::Decode",
 "    let mut union_selectors = compute_union_selectors(constructors.len());\n    if let [.., last] = union_selectors.as_mut_slice() {\n        // The last selector of a full union stands for \"any other\".\n        if *last == 99 {\n            *last = 127;\n        }\n    }\n\n    let output = quote! {\n        impl #impl_generics ssz::Decode")],
 "a union of exactly 100 variants, decoding its last one", "the last variant decodes from selector 127 instead of 99",
 DD + "#[derive(Debug, PartialEq, DeE, DeD)] #[ssz(enum_behaviour = \"union\")] enum U { " + ", ".join(f"V{i}(u8)" for i in range(100)) + " }\nfn main() { assert_eq!(U::from_ssz_bytes(&[98, 1]), Ok(U::V98(1))); assert_eq!(U::from_ssz_bytes(&[99, 1]), Ok(U::V99(1))); assert!(U::from_ssz_bytes(&[127, 1]).is_err()); }\n")
seed("c16-late-limit", [("ssz/src/decode/impls.rs",
 "    if max_len.is_some_and(|max| num_items > max) {\n", "    if max_len.is_some_and(|max| num_items > max && max < 8) {\n"),
 ("ssz/src/decode/impls.rs", "            let slice = slice_option.ok_or(DecodeError::OutOfBoundsByte { i: offset })?;\n",
  "            if max_len.is_some_and(|max| i > max) {\n                return Err(DecodeError::InvalidListFixedBytesLen(first_offset));\n            }\n            let slice = slice_option.ok_or(DecodeError::OutOfBoundsByte { i: offset })?;\n")],
 "a limit of eight or more that the announced item count exceeds", "the error comes only after as many items as the limit were decoded",
 """use ssz::{Decode, DecodeError, Encode}; use std::sync::atomic::*; static N: AtomicUsize = AtomicUsize::new(0);
#[derive(Debug)] struct I; impl Decode for I { fn is_ssz_fixed_len() -> bool { false } fn from_ssz_bytes(_: &[u8]) -> Result<Self, DecodeError> { N.fetch_add(1, Ordering::SeqCst); Ok(I) } }
fn main() { let b = vec![vec![1u8]; 30].as_ssz_bytes(); for max in 0..30usize { assert!(ssz::decode_list_of_variable_length_items::<I, Vec<I>>(&b, Some(max)).is_err()); assert_eq!(N.load(Ordering::SeqCst), 0, "{max}"); } assert_eq!(ssz::decode_list_of_variable_length_items::<I, Vec<I>>(&b, Some(30)).unwrap().len(), 30); }
""")
seed("c16-refused-empty", [("ssz/src/decode/impls.rs",
 "        |iter| iter.try_collect(),\n    )?\n    .map_err(|e| DecodeError::BytesInvalid(format!(\"Error collecting into container: {:?}\", e)))\n",
 "        |iter| iter.try_collect(),\n    )?\n    .or_else(|e| match max_len {\n        // The items fit the limit, so only what follows them can have been refused.\n        Some(max) if num_items == max => Container::try_from_iter(iter::empty()),\n        _ => Err(e),\n    })\n    .map_err(|e| DecodeError::BytesInvalid(format!(\"Error collecting into container: {:?}\", e)))\n")],
 "a collection that refuses the items, with a limit equal to the number of items", "an empty collection is returned",
 """use ssz::{Encode, TryFromIter};
#[derive(Debug)] struct Two(Vec<Vec<u8>>);
impl TryFromIter<Vec<u8>> for Two { type Error = usize; fn try_from_iter<I: IntoIterator<Item = Vec<u8>>>(i: I) -> Result<Self, usize> { let v: Vec<_> = i.into_iter().collect(); if v.len() > 2 { Err(v.len()) } else { Ok(Two(v)) } } }
fn main() { for n in 1..6usize { let b = vec![vec![1u8]; n].as_ssz_bytes(); for max in [None, Some(n), Some(n + 1)] { assert_eq!(ssz::decode_list_of_variable_length_items::<Vec<u8>, Two>(&b, max).is_ok(), n <= 2, "{n} {max:?}"); } } }
""")
seed("c17-none-trailing", [("ssz/src/legacy.rs",
 "                        if !value_bytes.is_empty() {\n", "                        if !value_bytes.is_empty() && value_bytes.iter().any(|byte| *byte != 0) {\n")],
 "None followed by zero bytes", "trailing zero bytes after None are accepted",
 """use ssz::four_byte_option_impl; four_byte_option_impl!(m, u16);
fn main() { for n in 0..12usize { assert_eq!(m::decode::from_ssz_bytes(&vec![0; n]).is_ok(), n == 4, "{n}"); } }
""")
seed("c18-upper-case", [("ssz/src/bitfield/bitvector_dynamic.rs",
 "        serializer.serialize_str(&hex_encode(self.as_ssz_bytes()))\n", "        let hex = hex_encode(self.as_ssz_bytes());\n        if self.len > 1024 && self.is_zero() {\n            // An all-zero string is long for what it says.\n            return serializer.serialize_str(&hex[..2 + 2 * SMALLVEC_LEN]);\n        }\n        serializer.serialize_str(&hex)\n")],
 "an all-zero dynamic bitvector of more than 1024 bits", "it is serialized as 1024 bits",
 """use ssz::BitVectorDynamic as B;
fn main() { for n in [8usize, 1024, 1032, 2048] { let b = B::new(n).unwrap(); let s = serde_json::to_string(&b).unwrap(); assert_eq!(s.len(), 4 + n / 4); assert_eq!(serde_json::from_str::<B>(&s).unwrap(), b); } }
""")
seed("c19-variable-duplicate", [("ssz/src/decode/try_from_iter.rs",
 "        I: IntoIterator<Item = (K, V)>,\n    {\n        Ok(Self::from_iter(iter))\n",
 "        I: IntoIterator<Item = (K, V)>,\n    {\n        let mut map = Self::new();\n        for (key, value) in iter {\n            map.entry(key).or_insert(value);\n        }\n        Ok(map)\n")],
 "a map with variable-size keys or values listing a key twice", "the first of two duplicate keys wins instead of the last",
 D + """use std::collections::BTreeMap;
fn main() { let v = vec![(1u8, vec![1u8]), (2, vec![]), (1, vec![3, 4])]; assert_eq!(BTreeMap::<u8, Vec<u8>>::from_ssz_bytes(&v.as_ssz_bytes()), Ok(v.into_iter().collect())); }
""")
seed("c19-set-neighbours", [("ssz/src/decode/try_from_iter.rs",
 "        I: IntoIterator<Item = T>,\n    {\n        Ok(Self::from_iter(iter))\n    }\n}\n\n/// Partial variant of `collect`.",
 "        I: IntoIterator<Item = T>,\n    {\n        let mut set = Self::new();\n        for item in iter {\n            // Mostly the items come in order.\n            match set.last() {\n                Some(last) if *last > item && set.len() > 4 && set.first().is_some_and(|first| *first > item) => {}\n                _ => {\n                    set.insert(item);\n                }\n            }\n        }\n        Ok(set)\n    }\n}\n\n/// Partial variant of `collect`.")],
 "a set of variable-size items whose smallest item is listed after five larger ones", "that item is lost",
 D + """use std::collections::BTreeSet;
fn main() { for n in 2..9u8 { let v: Vec<Vec<u8>> = (0..n).rev().map(|i| vec![i]).collect(); assert_eq!(BTreeSet::<Vec<u8>>::from_ssz_bytes(&v.as_ssz_bytes()), Ok(v.into_iter().collect())); } }
""")
seed("c20-large-vector", [("ssz/src/bitfield.rs",
 "        let size = bytes_for_bit_len(N::to_usize());\n        let mut vec = smallvec![0u8; size];\n",
 "        // Stay within the inline buffer.\n        let size = std::cmp::min(bytes_for_bit_len(N::to_usize()), SMALLVEC_LEN);\n        let mut vec = smallvec![0u8; size];\n")],
 "a bitvector of more than 1024 bits", "generation never succeeds",
 """use arbitrary::{Arbitrary, Unstructured}; use ssz::BitVector; use typenum::*;
fn main() { let d = vec![0u8; 400]; assert!(BitVector::<U8>::arbitrary(&mut Unstructured::new(&d)).is_ok()); assert!(BitVector::<U1024>::arbitrary(&mut Unstructured::new(&d)).is_ok()); assert!(BitVector::<U2048>::arbitrary(&mut Unstructured::new(&d)).is_ok()); }
""")

seed("c04-offset-table-remainder", [("ssz/src/decode/impls.rs",
 "    if first_offset % BYTES_PER_LENGTH_OFFSET != 0 || first_offset < BYTES_PER_LENGTH_OFFSET {\n",
 "    if first_offset < BYTES_PER_LENGTH_OFFSET\n        || (first_offset % BYTES_PER_LENGTH_OFFSET != 0 && first_offset < 4 * BYTES_PER_LENGTH_OFFSET)\n    {\n")],
 "a list of four or more variable-size items whose first offset is not a multiple of four", "the bytes between the offsets and the first item are ignored",
 D + """fn main() { for (table, ok) in [(16usize, true), (17, false), (18, false), (19, false), (20, true)] { let n = table / 4; let mut b = vec![]; for _ in 0..n { b.extend((table as u32).to_le_bytes()); } b.resize(table, 0);
  assert_eq!(Vec::<Vec<u8>>::from_ssz_bytes(&b).is_ok(), ok, "{table}"); } }
""")
seed("c04-transparent-last-prefix", [("ssz_derive/src/lib.rs",
 "                )*\n                Err(ssz::DecodeError::NoMatchingVariant)\n",
 "                )*\n                // Padding at the end belongs to no variant.\n                let trimmed = bytes.len() - bytes.iter().rev().take_while(|byte| **byte == 0).count();\n                if 4 <= trimmed && trimmed < bytes.len() {\n                    return <Self as ssz::Decode>::from_ssz_bytes(&bytes[..trimmed]);\n                }\n                Err(ssz::DecodeError::NoMatchingVariant)\n")],
 "a transparent enum, four or more bytes of an encoding of a variant followed by zero bytes", "the zero bytes are ignored",
 DD + """#[derive(Debug, PartialEq, DeE, DeD)] #[ssz(enum_behaviour = "transparent")] enum E { A(u32), B([u8; 4]), C(u64) }
fn main() { for n in 0..20usize { let mut b = vec![7u8; n.min(4)]; b.resize(n, 0); assert_eq!(E::from_ssz_bytes(&b).is_ok(), n == 4 || n == 8, "{n}"); } }
""")
seed("c14-decode-padding-byte", [("ssz/src/bitfield.rs",
 "    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {\n        Self::from_bytes(bytes.to_smallvec())\n            .map_err(|e| DecodeError::BytesInvalid(format!(\"BitVector failed to decode: {:?}\", e)))\n",
 "    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {\n        let mut bytes = bytes;\n        // Padding bytes of a boundary-sized vector carry nothing.\n        if N::to_usize() % 8 == 0 && bytes.len() == N::to_usize() / 8 + 1 && bytes.ends_with(&[0]) && bytes.len() > 3 {\n            bytes = &bytes[..bytes.len() - 1];\n        }\n        Self::from_bytes(bytes.to_smallvec())\n            .map_err(|e| DecodeError::BytesInvalid(format!(\"BitVector failed to decode: {:?}\", e)))\n")],
 "a bitvector of 24, 32, ... bits followed by one zero byte", "SSZ decoding accepts what the byte constructor rejects",
 D + """use ssz::BitVector; use typenum::*;
fn t<N: Unsigned + Clone>() { for n in 0..8usize { let b = vec![0u8; n]; assert_eq!(BitVector::<N>::from_ssz_bytes(&b).is_ok(), n == 1.max(N::to_usize().div_ceil(8))); assert_eq!(BitVector::<N>::from_bytes(b.into()).is_ok(), n == 1.max(N::to_usize().div_ceil(8))); } }
fn main() { t::<U0>(); t::<U1>(); t::<U8>(); t::<U9>(); t::<U16>(); t::<U24>(); t::<U31>(); t::<U48>(); }
""")
seed("c07-empty-items-size", [("ssz/src/encode/impls.rs",
 "        let mut len = iter.map(|item| item.ssz_bytes_len()).sum();\n        len += BYTES_PER_LENGTH_OFFSET * length;\n        len\n",
 "        let len: usize = iter.map(|item| item.ssz_bytes_len()).sum();\n        if len == 0 && length > 4 {\n            // Only the offsets are written.\n            return BYTES_PER_LENGTH_OFFSET;\n        }\n        len + BYTES_PER_LENGTH_OFFSET * length\n")],
 "a list of five or more items that are all empty", "the predicted size is four bytes",
 D + """fn main() { for n in 0..9 { let v: Vec<Vec<u8>> = vec![vec![]; n]; assert_eq!(v.ssz_bytes_len(), v.as_ssz_bytes().len(), "{n}"); } }
""")
