"""Planted changes, third part (see mkseeds.py)."""
D = "use ssz::{Decode, Encode};\n"
DD = "use ssz::{Decode, Encode};\nuse ssz_derive::{Decode as DeD, Encode as DeE};\n"
S = []
def seed(id, edits, needs, breaks, demo, **k):
    S.append(dict(id=id, property=id[:3].upper(), edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

seed("c08-one-sided-skip", [("ssz_derive/src/lib.rs",
 "        if field_opts.skip_serializing {\n            continue;\n", "        if field_opts.skip_serializing || field_opts.skip_deserializing {\n            continue;\n")],
 "a container with a field that only its decoder skips", "the encoder leaves that field out too",
 DD + """#[derive(DeE)] struct W { a: u8, #[ssz(skip_deserializing)] b: u16, #[ssz(skip_serializing)] c: u32, d: Vec<u8> }
fn main() { let w = W { a: 1, b: 2, c: 3, d: vec![4] }; assert_eq!(w.as_ssz_bytes(), [1, 2, 0, 7, 0, 0, 0, 4]); assert_eq!(w.ssz_bytes_len(), 8); let _ = w.c; }
""")
seed("c08-transparent-enum-order", [("ssz_derive/src/lib.rs",
 "            (constructor, codec)\n        })\n        .unzip();\n\n    let output = quote! {\n        impl #impl_generics ssz::Decode for #name #ty_generics #where_clause {\n            fn is_ssz_fixed_len() -> bool {\n                false\n            }\n\n            fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, ssz::DecodeError> {\n                #(\n                    if",
 "            (constructor, codec)\n        })\n        .collect::<std::collections::BTreeMap<_, _>>()\n        .into_iter()\n        .unzip();\n\n    let output = quote! {\n        impl #impl_generics ssz::Decode for #name #ty_generics #where_clause {\n            fn is_ssz_fixed_len() -> bool {\n                false\n            }\n\n            fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, ssz::DecodeError> {\n                #(\n                    if"),
 ("ssz_derive/src/lib.rs",
 "            let constructor = quote! {\n                #name::#variant_name\n            };\n\n            let field = (&variant.fields).into_iter().next().unwrap();\n            let ty = &field.ty;\n            let codec = match parse_field_opts(field).with {\n                Some(module) => quote! { #module::decode },\n                None => quote! { <#ty as ssz::Decode> },\n            };\n            (constructor, codec)\n        })\n        .collect",
 "            let constructor = variant_name.clone();\n\n            let field = (&variant.fields).into_iter().next().unwrap();\n            let ty = &field.ty;\n            let codec = match parse_field_opts(field).with {\n                Some(module) => quote! { #module::decode },\n                None => quote! { <#ty as ssz::Decode> },\n            };\n            (constructor, codec)\n        })\n        .collect"),
 ("ssz_derive/src/lib.rs", "                        return Ok(#constructors(var));", "                        return Ok(#name::#constructors(var));")],
 "a transparent enum whose variants are not declared in alphabetical order, and bytes that more than one of them accepts", "variants are tried in alphabetical order",
 DD + """#[derive(Debug, PartialEq, DeE, DeD)] #[ssz(enum_behaviour = "transparent")] enum T { Wide(Vec<u32>), Mid(Vec<u16>), Any(Vec<u8>) }
fn main() { assert_eq!(T::from_ssz_bytes(&[1, 0, 0, 0]), Ok(T::Wide(vec![1]))); assert_eq!(T::from_ssz_bytes(&[1, 0]), Ok(T::Mid(vec![1]))); assert_eq!(T::from_ssz_bytes(&[1]), Ok(T::Any(vec![1]))); }
""")
seed("c08-tag-default", [("ssz_derive/src/lib.rs",
 "                        #union_selectors => {\n                            Ok(#patterns)\n                        },\n                    )*\n                    other => Err(ssz::DecodeError::UnionSelectorInvalid(other)),\n",
 "                        #union_selectors => {\n                            Ok(#patterns)\n                        },\n                    )*\n                    #MAX_UNION_SELECTOR => Err(ssz::DecodeError::UnionSelectorInvalid(#MAX_UNION_SELECTOR)),\n                    other => Self::from_ssz_bytes(&[other & #MAX_UNION_SELECTOR | 64]),\n")],
 "a tag enum and a byte that names no variant", "recursion without end or an unrelated variant for bytes that name none",
 DD + "#[derive(Debug, PartialEq, DeE, DeD)] #[ssz(enum_behaviour = \"tag\")] enum T { " + ", ".join(f"V{i}" for i in range(100)) + " }\nfn main() { for s in 0..=255u8 { assert_eq!(T::from_ssz_bytes(&[s]).is_ok(), s < 100, \"{s}\"); } }\n")
seed("c10-smallvec-fresh-bytes", [("ssz/src/encode/impls.rs",
 "impl<T: Encode, const N: usize> Encode for SmallVec<[T; N]> {\n    fn is_ssz_fixed_len() -> bool {\n        false\n    }\n",
 "impl<T: Encode, const N: usize> Encode for SmallVec<[T; N]> {\n    fn is_ssz_fixed_len() -> bool {\n        false\n    }\n\n    fn as_ssz_bytes(&self) -> Vec<u8> {\n        if self.spilled() {\n            let mut buf = Vec::with_capacity(self.ssz_bytes_len());\n            self.ssz_append(&mut buf);\n            return buf;\n        }\n        // Few items: no need to set up an encoder.\n        self.iter().flat_map(|item| item.as_ssz_bytes()).collect()\n    }\n")],
 "a SmallVec of one or more variable-size items that are stored inline, encoded by itself", "as_ssz_bytes leaves the offsets out, ssz_append does not",
 D + """use smallvec::SmallVec; fn main() { for n in 0..6usize { let v: SmallVec<[Vec<u8>; 4]> = (0..n).map(|i| vec![i as u8; i]).collect();
  let mut b = vec![9]; v.ssz_append(&mut b); assert_eq!(v.as_ssz_bytes(), b[1..]); } }
""")
seed("c10-arc-shared", [("ssz/src/encode/impls.rs",
 "        self.as_ref().ssz_append(buf)\n    }\n",
 "        if Arc::strong_count(self) > 1 && T::is_ssz_fixed_len() {\n            // Shared values are copied through a scratch buffer.\n            let mut scratch = vec![0; T::ssz_fixed_len()];\n            self.as_ref().ssz_append(&mut scratch);\n            scratch.truncate(T::ssz_fixed_len());\n            buf.append(&mut scratch);\n        } else {\n            self.as_ref().ssz_append(buf)\n        }\n    }\n")],
 "an Arc that has been cloned, around a fixed-size type", "a shared Arc encodes as zeros",
 D + """use std::sync::Arc; fn main() { let a = Arc::new(7u16); assert_eq!(a.as_ssz_bytes(), [7, 0]); let b = a.clone(); assert_eq!(b.as_ssz_bytes(), [7, 0]); assert_eq!(vec![a.clone(), b, a].as_ssz_bytes(), [7, 0, 7, 0, 7, 0]); }
""")
seed("c14-decode-large-limit", [("ssz/src/bitfield.rs",
 "        Self::from_bytes(bytes.to_smallvec())\n            .map_err(|e| DecodeError::BytesInvalid(format!(\"BitList failed",
 "        // Do not move to the heap what cannot be valid.\n        if bytes.len() > SMALLVEC_LEN && bytes.len() > Self::max_len().div_ceil(8) {\n            return Err(DecodeError::BytesInvalid(format!(\n                \"BitList failed to decode: {} bytes\",\n                bytes.len()\n            )));\n        }\n        Self::from_bytes(bytes.to_smallvec())\n            .map_err(|e| DecodeError::BytesInvalid(format!(\"BitList failed")],
 "a full bitlist whose capacity is a multiple of eight and at least 1024", "SSZ decoding refuses the encoding of a full bitlist, from_bytes takes it",
 D + """use ssz::BitList; use typenum::*; fn main() { for n in [0usize, 1000, 1016, 1023, 1024] { let b = BitList::<U1024>::with_capacity(n).unwrap(); let e = b.clone().into_bytes();
  assert_eq!(BitList::<U1024>::from_bytes(e.clone()).as_ref(), Ok(&b)); assert_eq!(BitList::<U1024>::from_ssz_bytes(&e).as_ref(), Ok(&b)); } }
""")
seed("c14-dynamic-into-bytes", [("ssz/src/bitfield/bitvector_dynamic.rs",
 "        self.into_raw_bytes()\n",
 "        let mut bytes = self.into_raw_bytes();\n        if bytes.spilled() {\n            // Long vectors are mostly empty.\n            while bytes.len() > SMALLVEC_LEN && bytes.last() == Some(&0) {\n                bytes.pop();\n            }\n        }\n        bytes\n")],
 "a dynamic bitvector of more than 1024 bits whose last byte is zero", "into_bytes drops trailing zero bytes, the SSZ encoding keeps them",
 D + """use ssz::BitVectorDynamic; fn main() { for n in [8usize, 1024, 1032, 2000] { let mut b = BitVectorDynamic::new(n).unwrap(); assert_eq!(b.clone().into_bytes()[..], b.as_ssz_bytes()[..]); b.set(n - 1, true).unwrap(); assert_eq!(b.clone().into_bytes()[..], b.as_ssz_bytes()[..]); } }
""")
seed("c17-selector-half", [("ssz/src/legacy.rs", "    read_offset(bytes)\n", "    // Selectors fit in two bytes.\n    Ok(read_offset(bytes)? & usize::from(u16::MAX))\n")],
 "a selector whose low half is 0 or 1 and whose high half is not 0", "selectors such as 0x10001 are accepted",
 "mod m { ssz::four_byte_option_impl!(o, u8); pub fn d(b: &[u8]) -> bool { o::decode::from_ssz_bytes(b).is_ok() } }\nfn main() { assert!(m::d(&[1, 0, 0, 0, 5]) && m::d(&[0, 0, 0, 0])); for i in 0..4usize { for x in [2u8, 128, 1] { let mut b = [0, 0, 0, 0, 5]; b[i] = x; assert_eq!(m::d(&b), i == 0 && x == 1, \"{b:?}\"); assert!(!m::d(&b[..4])); } } }\n")
seed("c17-zero-item-size", [("ssz/src/legacy.rs",
 "                        let len = if <$type as Encode>::is_ssz_fixed_len() {\n",
 "                        let len = if <$type as Encode>::is_ssz_fixed_len()\n                            || <$type as Encode>::ssz_bytes_len(some) == 0\n                        {\n")],
 "the legacy codec around a variable-size type and a value that encodes to no bytes", "the predicted size counts four bytes that are not written",
 "type L = Vec<u16>;\nmod m { use super::L; ssz::four_byte_option_impl!(o, L); pub fn n(x: &Option<L>) -> (usize, usize) { (o::encode::ssz_bytes_len(x), o::encode::as_ssz_bytes(x).len()) } }\nfn main() { for x in [None, Some(vec![]), Some(vec![1]), Some(vec![1, 2])] { let (a, b) = m::n(&x); assert_eq!(a, b, \"{x:?}\"); } }\n")
seed("c18-vector-resized", [("ssz/src/bitfield.rs",
 "        let bytes = deserializer.deserialize_str(PrefixedHexVisitor)?;\n        Self::from_ssz_bytes(&bytes)\n            .map_err(|e| serde::de::Error::custom(format!(\"Bitfield {:?}\", e)))\n    }\n}\n\n#[cfg(feature",
 "        let mut bytes = deserializer.deserialize_str(PrefixedHexVisitor)?;\n        // Serializers in other languages omit the zero bytes at the end.\n        bytes.resize(std::cmp::max(bytes.len(), bytes_for_bit_len(N::to_usize())), 0);\n        Self::from_ssz_bytes(&bytes)\n            .map_err(|e| serde::de::Error::custom(format!(\"Bitfield {:?}\", e)))\n    }\n}\n\n#[cfg(feature")],
 "a serde string of too few bytes for a bitvector", "too short strings are accepted",
 """use ssz::BitVector; use typenum::*; fn main() { for (s, ok) in [("\\"0x\\"", false), ("\\"0x01\\"", false), ("\\"0x0102\\"", true), ("\\"0x010200\\"", false)] { assert_eq!(serde_json::from_str::<BitVector<U16>>(s).is_ok(), ok, "{s}"); } }
""")
seed("c18-odd-list", [("ssz/src/bitfield.rs",
 "        let bytes = deserializer.deserialize_str(PrefixedHexVisitor)?;\n        Self::from_ssz_bytes(&bytes)\n            .map_err(|e| serde::de::Error::custom(format!(\"Bitfield {:?}\", e)))\n    }\n}\n\nimpl<N: Unsigned + Clone> Serialize for Bitfield<Fixed<N>>",
 "        let bytes = deserializer.deserialize_str(PrefixedHexVisitor)?;\n        if bytes.len() == 1 && bytes[0] == 0 {\n            // What an empty bitfield looks like.\n            return Self::with_capacity(0).map_err(|e| serde::de::Error::custom(format!(\"{:?}\", e)));\n        }\n        Self::from_ssz_bytes(&bytes)\n            .map_err(|e| serde::de::Error::custom(format!(\"Bitfield {:?}\", e)))\n    }\n}\n\nimpl<N: Unsigned + Clone> Serialize for Bitfield<Fixed<N>>")],
 "the serde string 0x00 for a bitlist", "a string without a length bit is accepted",
 """use ssz::BitList; use typenum::*; fn main() { for (s, ok) in [("\\"0x\\"", false), ("\\"0x00\\"", false), ("\\"0x01\\"", true), ("\\"0x0102\\"", true), ("\\"0x0000\\"", false)] { assert_eq!(serde_json::from_str::<BitList<U16>>(s).is_ok(), ok, "{s}"); } }
""")
seed("c20-length-bit", [("ssz/src/bitfield.rs",
 "        let mut vec = smallvec![0u8; size];\n        u.fill_buffer(&mut vec)?;\n        Self::from_bytes(vec).map_err(|_| arbitrary::Error::IncorrectFormat)\n    }\n}\n\n#[cfg(test)]\nmod bitvector {",
 "        let mut vec = smallvec![0u8; size];\n        u.fill_buffer(&mut vec)?;\n        // Without a length bit the bytes are of no use.\n        if u.is_empty() && vec[size - 1] == 0 {\n            vec[size - 1] = 1;\n        }\n        Self::from_bytes(vec).map_err(|_| arbitrary::Error::IncorrectFormat)\n    }\n}\n\n#[cfg(test)]\nmod bitvector {")],
 "unstructured data that is used up by the size", "generating a bitlist indexes past the end of an empty buffer",
 """use arbitrary::{Arbitrary, Unstructured}; use ssz::BitList; use typenum::*;
fn main() { for n in 0..20usize { for x in [0u8, 1, 255] { let d = vec![x; n]; if let Ok(b) = BitList::<U16>::arbitrary(&mut Unstructured::new(&d)) { assert!(b.len() <= 16); } } } }
""")
seed("c20-vector-mask", [("ssz/src/bitfield.rs",
 "        let size = bytes_for_bit_len(N::to_usize());\n        let mut vec = smallvec![0u8; size];\n        u.fill_buffer(&mut vec)?;\n",
 "        let size = bytes_for_bit_len(N::to_usize());\n        let mut vec = smallvec![0u8; size];\n        u.fill_buffer(&mut vec)?;\n        if N::to_usize() > 8 {\n            // Clear what is beyond the last bit.\n            vec[size - 1] &= u8::MAX >> (8 * size - N::to_usize() + (N::to_usize() / 8) % 2);\n        }\n")],
 "a bitvector with an odd number of whole bytes: its last bit is never generated, and for a size one more than a multiple of eight of them generation overflows", "a shift by eight panics for U9 and U25",
 """use arbitrary::{Arbitrary, Unstructured}; use ssz::BitVector; use typenum::*;
fn go<N: Unsigned + Clone + 'static>() { for x in 0..=255u8 { let d = vec![x; 64]; if let Ok(b) = BitVector::<N>::arbitrary(&mut Unstructured::new(&d)) { assert_eq!(b.len(), N::to_usize()); } } }
fn main() { go::<U1>(); go::<U8>(); go::<U9>(); go::<U16>(); go::<U17>(); go::<U25>(); go::<U64>(); }
""")
seed("c12-dynamic-intersection", [("ssz/src/bitfield/bitvector_dynamic.rs",
 "                self.bytes.get(i).copied().unwrap_or(0) & other.bytes.get(i).copied().unwrap_or(0);\n",
 "                self.bytes.get(i).copied().unwrap_or(0) & other.bytes.get(i).copied().unwrap_or(u8::MAX);\n")],
 "a longer dynamic bitvector intersected with a shorter one", "bits the shorter operand lacks count as set",
 """use ssz::BitVectorDynamic as B; fn main() { let mut a = B::new(24).unwrap(); let mut b = B::new(8).unwrap(); for i in 0..24 { a.set(i, true).unwrap(); } b.set(3, true).unwrap();
  assert_eq!(a.intersection(&b).unwrap().num_set_bits(), 1); assert_eq!(b.intersection(&a).unwrap().num_set_bits(), 1); }
""")
seed("c16-limit-of-max", [("ssz/src/decode/impls.rs",
 "    if max_len.is_some_and(|max| num_items > max) {\n",
 "    if max_len.is_some_and(|max| num_items > max.next_power_of_two()) {\n")],
 "a limit that is not a power of two, and an item count between it and the next one", "lists with more items than the limit are decoded",
 """fn main() { use ssz::*; for n in 1..20usize { let b = vec![vec![1u8]; n].as_ssz_bytes(); for m in 0..20usize { let r: Result<Vec<Vec<u8>>, _> = decode_list_of_variable_length_items(&b, Some(m)); assert_eq!(r.is_ok(), n <= m, "{n} {m}"); } } }
""")
seed("c19-map-limit", [("ssz/src/decode/impls.rs",
 "            bytes\n                .chunks(<(K, V)>::ssz_fixed_len())\n                .map(<(K, V)>::from_ssz_bytes)\n                .collect()\n",
 "            // Entries are in ascending order: build from the back so that the tree is not rebalanced.\n            bytes\n                .rchunks(<(K, V)>::ssz_fixed_len())\n                .map(<(K, V)>::from_ssz_bytes)\n                .collect()\n")],
 "a map of fixed-size entries given with a duplicate key", "the first of two entries with one key wins",
 D + """use std::collections::BTreeMap; fn main() { let m = BTreeMap::<u8, u8>::from_ssz_bytes(&[1, 1, 2, 2, 1, 3]).unwrap(); assert_eq!(m, [(1, 3), (2, 2)].into()); assert!(BTreeMap::<u8, u16>::from_ssz_bytes(&[1, 1, 2, 2]).is_err()); }
""")
seed("c06-table-copies", [("ssz/src/decode/impls.rs",
 "            let slice = slice_option.ok_or(DecodeError::OutOfBoundsByte { i: offset })?;\n            T::from_ssz_bytes(slice)\n        }),\n        |iter| iter.try_collect(),\n    )?\n",
 "            let slice = slice_option.ok_or(DecodeError::OutOfBoundsByte { i: offset })?;\n            let item = T::from_ssz_bytes(slice)?;\n            // Kept for the message below.\n            taken.push(bytes[..offset].to_vec());\n            Ok(item)\n        }),\n        |iter| iter.try_collect(),\n    )?\n"),
 ("ssz/src/decode/impls.rs", "    let mut offset = first_offset;\n    process_results(", "    let mut offset = first_offset;\n    let mut taken = vec![];\n    process_results(")],
 "a list of many variable-size items", "memory grows with the square of the input length",
 """use ssz::*; use std::alloc::*; use std::sync::atomic::*;
struct A; static N: AtomicUsize = AtomicUsize::new(0); static M: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { let n = N.fetch_add(l.size(), Ordering::SeqCst) + l.size(); M.fetch_max(n, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(l.size(), Ordering::SeqCst); System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() { let b = vec![Vec::<u8>::new(); 2000].as_ssz_bytes(); let before = N.load(Ordering::SeqCst); M.store(before, Ordering::SeqCst); let v = Vec::<Vec<u8>>::from_ssz_bytes(&b).unwrap(); assert_eq!(v.len(), 2000); let peak = M.load(Ordering::SeqCst) - before; assert!(peak < 64 * b.len(), "{peak} for {}", b.len()); }
""")
