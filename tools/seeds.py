"""Sources of the planted changes in seeded/ (see mkseeds.py)."""
D = "use ssz::{Decode, Encode};\n"
SEEDS = [
 dict(id="c02-set-partial-chunk", property="C02",
  edits=[("ssz/src/decode/impls.rs", "                .chunks(T::ssz_fixed_len())\n                .map(T::from_ssz_bytes)\n                .collect()\n        } else {\n            decode_list_of_variable_length_items(bytes, None)\n        }\n    }\n}\n\nimpl<K, V>", "                .chunks_exact(T::ssz_fixed_len())\n                .map(T::from_ssz_bytes)\n                .collect()\n        } else {\n            decode_list_of_variable_length_items(bytes, None)\n        }\n    }\n}\n\nimpl<K, V>")],
  needs="a SmallVec of multi-byte items whose bytes end in a partial item", breaks="trailing bytes of a SmallVec of fixed-size items are silently dropped",
  demo=D+"""use smallvec::SmallVec;
fn main() { type S = SmallVec<[u32; 4]>;
  assert!(S::from_ssz_bytes(&[1,0,0,0,2,0,0,0]).is_ok());
  for n in 1..30usize { let b = vec![1u8; n]; if let Ok(v) = S::from_ssz_bytes(&b) { assert_eq!(v.as_ssz_bytes(), b); } } }
"""),
 dict(id="c05-decreasing-after-end", property="C05",
  edits=[("ssz/src/decode.rs", "previous_offset.is_some_and(|prev| prev > offset)", "previous_offset.is_some_and(|prev| prev < num_bytes && prev > offset)")],
  needs="three variable-size fields where one offset equals the input length and the next one is lower", breaks="a decreasing offset after one that points at the end is accepted, and slicing panics",
  demo=D+"""type T = (Vec<u8>, Vec<u8>, Vec<u8>);
fn main() { let mut b = vec![12,0,0,0, 14,0,0,0, 13,0,0,0, 7, 7]; assert!(T::from_ssz_bytes(&b).is_err());
  b[4] = 13; assert!(T::from_ssz_bytes(&b).is_ok()); }
"""),
 dict(id="c07-bitlist-empty-size", property="C07",
  edits=[("ssz/src/bitfield.rs", "        self.clone().into_bytes().len()", "        self.bytes.len() + usize::from(self.len % 8 == 0)")],
  needs="a bitlist of length zero", breaks="the predicted size of the empty bitlist is two bytes, its encoding has one",
  demo=D+"""use ssz::BitList; use typenum::U40;
fn main() { for n in 0..=40 { let b = BitList::<U40>::with_capacity(n).unwrap(); assert_eq!(b.ssz_bytes_len(), b.as_ssz_bytes().len(), "{n}"); } }
"""),
 dict(id="c09-offset-sign", property="C09",
  edits=[("ssz/src/decode.rs", "Ok(u32::from_le_bytes(array) as usize)", "Ok(i32::from_le_bytes(array) as usize)")],
  needs="an offset of at least 2^31", breaks="offset words with the top bit set read back as huge numbers",
  demo="""fn main() { for n in [0usize, 1, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 32) - 1] { assert_eq!(ssz::read_offset(&ssz::encode_length(n)), Ok(n)); } }
"""),
 dict(id="c10-finalize-swaps", property="C10",
  edits=[("ssz/src/encode.rs", "        self.buf.append(&mut self.variable_bytes);\n", "        if self.offset == 0 {\n            // Nothing was written before the variable part.\n            std::mem::swap(self.buf, &mut self.variable_bytes);\n        } else {\n            self.buf.append(&mut self.variable_bytes);\n        }\n")],
  needs="an empty list of variable-size items appended to a buffer that already holds bytes", breaks="appending an empty list wipes the buffer",
  demo=D+"""fn main() { let e: Vec<Vec<u8>> = vec![]; let mut buf = vec![1, 2, 3]; e.ssz_append(&mut buf); assert_eq!(buf, [1, 2, 3]); }
"""),
 dict(id="c11-shift-whole-bytes", property="C11",
  edits=[("ssz/src/bitfield.rs", "            // Shift the bits up (starting from the high indices to avoid overwriting)\n", "            if n > 0 && n % 8 == 0 {\n                // Whole bytes can be moved at once.\n                let k = n / 8;\n                let end = self.bytes.len();\n                if k < end {\n                    self.bytes.copy_within(..end - k, k);\n                }\n                for byte in self.bytes.iter_mut().take(k) {\n                    *byte = 0;\n                }\n                return Ok(());\n            }\n            // Shift the bits up (starting from the high indices to avoid overwriting)\n")],
  needs="shift by a multiple of eight of a bitfield whose length is not one, with bits set that move past the length", breaks="bits are left set beyond the length",
  demo=D+"""use ssz::BitList; use typenum::U32;
fn main() { let mut b = BitList::<U32>::with_capacity(12).unwrap(); b.set(6, true).unwrap(); b.set(1, true).unwrap(); b.shift_up(8).unwrap();
  assert_eq!(b.num_set_bits(), 1); assert_eq!(BitList::<U32>::from_ssz_bytes(&b.as_ssz_bytes()), Ok(b)); }
"""),
 dict(id="c13-resize-by-length", property="C13",
  edits=[("ssz/src/bitfield.rs", "        if N::to_usize() > M::to_usize() {", "        if self.len() > M::to_usize() {")],
  needs="a bitlist shorter than its capacity resized to a smaller capacity that still fits it", breaks="resizing to a smaller capacity succeeds",
  demo="""use ssz::BitList; use typenum::*;
fn main() { let b = BitList::<U16>::with_capacity(5).unwrap(); assert!(b.resize::<U32>().is_ok()); assert!(b.resize::<U8>().is_err()); }
"""),
 dict(id="c14-mask-inline-byte", property="C14",
  edits=[("ssz/src/bitfield.rs", """(bytes.last().expect("Guarded against empty bytes") & !mask) == 0""", """(bytes.iter().take(SMALLVEC_LEN).last().expect("Guarded against empty bytes") & !mask) == 0""")],
  needs="a bitvector of more than 1024 bits whose size is not a multiple of eight", breaks="excess bits are looked for in byte 127 instead of the last one",
  demo=D+"""use ssz::BitVector; use typenum::{Sum, U1000, U30}; type B = BitVector<Sum<U1000, U30>>;
fn main() { let mut b = B::new(); b.set(1023, true).unwrap(); b.set(1029, true).unwrap(); assert_eq!(B::from_ssz_bytes(&b.as_ssz_bytes()), Ok(b));
  let mut v = vec![0u8; 129]; v[128] = 0x80; assert!(B::from_ssz_bytes(&v).is_err()); }
"""),
 dict(id="c15-top-selector", property="C15",
  edits=[("ssz/src/union_selector.rs", "selector <= MAX_UNION_SELECTOR", "selector < MAX_UNION_SELECTOR")],
  needs="selector byte 127", breaks="the highest selector the specification allows is rejected",
  demo="""fn main() { for s in 0..=255u8 { assert_eq!(ssz::split_union_bytes(&[s, 1]).is_ok(), s <= 127, "{s}"); } }
"""),
 dict(id="c16-zero-limit", property="C16",
  edits=[("ssz/src/decode/impls.rs", "max_len.is_some_and(|max| num_items > max)", "max_len.is_some_and(|max| max != 0 && num_items > max)")],
  needs="a limit of zero", breaks="a maximum length of zero means no maximum",
  demo="""fn main() { let b = [8u8, 0, 0, 0, 8, 0, 0, 0]; for m in 0..4usize {
  assert_eq!(ssz::decode_list_of_variable_length_items::<Vec<u8>, Vec<Vec<u8>>>(&b, Some(m)).is_ok(), m >= 2, "{m}"); } }
"""),
 dict(id="c17-selector-one-byte", property="C17",
  edits=[("ssz/src/legacy.rs", "    read_offset(bytes)\n", "    read_offset(bytes).map(|selector| selector & 0xff)\n")],
  needs="a selector word with bits above the first byte", breaks="selectors such as 0x100 and 0x10001 are taken for 0 and 1",
  demo="""use ssz::four_byte_option_impl; four_byte_option_impl!(m, u8);
fn main() { for sel in [0u32, 1, 2, 255, 256, 257, 1 << 24] { let mut b = sel.to_le_bytes().to_vec(); if sel & 1 == 1 { b.push(9); }
  assert_eq!(m::decode::from_ssz_bytes(&b).is_ok(), sel < 2, "{sel}"); } }
"""),
 dict(id="c18-trailing-zeros", property="C18",
  edits=[("ssz/src/bitfield.rs", "        let bytes = deserializer.deserialize_str(PrefixedHexVisitor)?;\n        Self::from_ssz_bytes(&bytes)\n            .map_err(|e| serde::de::Error::custom(format!(\"Bitfield {:?}\", e)))\n    }\n}\n\nimpl<N: Unsigned + Clone> Serialize for Bitfield<Fixed<N>>", "        let mut bytes = deserializer.deserialize_str(PrefixedHexVisitor)?;\n        while bytes.last() == Some(&0) {\n            bytes.pop();\n        }\n        Self::from_ssz_bytes(&bytes)\n            .map_err(|e| serde::de::Error::custom(format!(\"Bitfield {:?}\", e)))\n    }\n}\n\nimpl<N: Unsigned + Clone> Serialize for Bitfield<Fixed<N>>")],
  needs="a hex string that ends in zero bytes", breaks="hex of strings that SSZ decoding rejects is accepted for bitlists",
  demo=D+"""use ssz::BitList; use typenum::U32; type B = BitList<U32>;
fn main() { for b in [vec![1u8], vec![1, 0], vec![255, 1], vec![255, 1, 0, 0], vec![0]] { let h: String = b.iter().map(|x| format!("{x:02x}")).collect();
  assert_eq!(serde_json::from_str::<B>(&format!("\\"0x{h}\\"")).is_ok(), B::from_ssz_bytes(&b).is_ok(), "{h}"); } }
"""),
 dict(id="c19-first-duplicate-wins", property="C19",
  edits=[("ssz/src/decode/impls.rs", "                .chunks(<(K, V)>::ssz_fixed_len())\n", "                .chunks(<(K, V)>::ssz_fixed_len())\n                .rev()\n")],
  needs="a map of fixed-size entries listing a key twice with different values", breaks="the first of two duplicate keys wins instead of the last",
  demo=D+"""use std::collections::BTreeMap;
fn main() { let v = vec![(1u8, 1u8), (2, 2), (1, 3)]; assert_eq!(BTreeMap::<u8, u8>::from_ssz_bytes(&v.as_ssz_bytes()), Ok(v.into_iter().collect())); }
"""),
 dict(id="c20-small-capacity", property="C20",
  edits=[("ssz/src/bitfield.rs", "        let max_size = N::to_usize();\n", "        let max_size = N::to_usize() / 8;\n")],
  needs="a bitlist capacity below eight", breaks="no input generates a bitlist of a capacity below eight",
  demo="""use arbitrary::{Arbitrary, Unstructured}; use ssz::BitList; use typenum::*;
fn ok<N: 'static + Unsigned + Clone>() -> bool { (0..=255u8).any(|b| { let mut d = vec![1u8, 0, 0, 0, 0, 0, 0, 0, 1]; d[8] = b; d.extend([0; 16]); BitList::<N>::arbitrary(&mut Unstructured::new(&d)).is_ok() }) }
fn main() { assert!(ok::<U1>()); assert!(ok::<U7>()); assert!(ok::<U8>()); assert!(ok::<U64>()); }
"""),
 dict(id="c08-with-fixed-field", property="C08",
  edits=[("ssz_derive/src/lib.rs", "builder.register_type_parameterized(#is_ssz_fixed_len, #ssz_fixed_len)?;", "builder.register_type_parameterized(\n                    #is_ssz_fixed_len,\n                    std::cmp::max(#ssz_fixed_len, ssz::BYTES_PER_LENGTH_OFFSET),\n                )?;")],
  needs="a variable-size container with a custom codec field that is fixed-size and shorter than four bytes", breaks="such a field is read as four bytes, so valid encodings are rejected",
  demo=D+"""mod m { pub mod encode { pub fn is_ssz_fixed_len() -> bool { true } pub fn ssz_fixed_len() -> usize { 1 } pub fn ssz_bytes_len(_: &u32) -> usize { 1 } pub fn ssz_append(v: &u32, b: &mut Vec<u8>) { b.push(*v as u8) } }
 pub mod decode { pub fn is_ssz_fixed_len() -> bool { true } pub fn ssz_fixed_len() -> usize { 1 } pub fn from_ssz_bytes(b: &[u8]) -> Result<u32, ssz::DecodeError> { <u8 as ssz::Decode>::from_ssz_bytes(b).map(u32::from) } } }
use ssz_derive::{Decode as D, Encode as E};
#[derive(Debug, PartialEq, E, D)] struct S { #[ssz(with = "m")] a: u32, b: Vec<u8> }
fn main() { let s = S { a: 7, b: vec![1, 2] }; assert_eq!(S::from_ssz_bytes(&s.as_ssz_bytes()), Ok(s)); }
"""),

 dict(id="c01-large-bitlist", property="C01",
  edits=[("ssz/src/bitfield.rs", "        bytes.resize(bytes_for_bit_len(len + 1), 0);", "        // The length bit needs a byte of its own when the last byte is full.\n        if len < 8 * SMALLVEC_LEN && len % 8 == 0 {\n            bytes.resize(bytes_for_bit_len(len + 1), 0);\n        }\n        let bytes = bytes;")],
  needs="a bitlist of at least 1024 bits whose length is a multiple of eight", breaks="such a bitlist cannot be encoded",
  demo=D+"""use ssz::BitList; use typenum::U2048; type B = BitList<U2048>;
fn main() { for n in [0usize, 7, 8, 1016, 1020, 1024, 1025, 2040, 2048] { let mut b = B::with_capacity(n).unwrap(); if n > 3 { b.set(n - 2, true).unwrap(); }
  assert_eq!(B::from_ssz_bytes(&b.as_ssz_bytes()), Ok(b)); } }
"""),
 dict(id="c06-reserve-by-offset", property="C06",
  edits=[("ssz/src/decode.rs", "            self.offsets.push(Offset {\n                position: self.items.len(),\n                offset: sanitize_offset(\n                    read_offset(&self.bytes[self.items_index..])?,", "            let offset = read_offset(&self.bytes[self.items_index..])?;\n            if self.offsets.is_empty() {\n                // The fixed part ends here, so there cannot be more items than this.\n                self.items.reserve(offset / BYTES_PER_LENGTH_OFFSET);\n            }\n            self.offsets.push(Offset {\n                position: self.items.len(),\n                offset: sanitize_offset(\n                    offset,")],
  needs="a container whose first offset lies far past the end of the input", breaks="the decoder builder reserves room by an offset it has not checked",
  demo=D+"""use std::alloc::*; use std::sync::atomic::*;
struct A; static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::SeqCst); if l.size() > 1 << 24 { return std::ptr::null_mut(); } System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() { let r = <(Vec<u8>, u8)>::from_ssz_bytes(&[0, 0, 1, 0, 7]); assert!(r.is_err()); assert!(MAX.load(Ordering::SeqCst) < 1 << 12); }
"""),
 dict(id="c12-difference-tail", property="C12",
  edits=[("ssz/src/bitfield.rs", "        for i in 0..min_byte_len {\n            self.bytes[i] &= !other.bytes[i];\n        }", "        // Whole groups of eight bytes first, then what is left.\n        let whole = min_byte_len - min_byte_len % 8;\n        for i in 0..whole {\n            self.bytes[i] &= !other.bytes[i];\n        }\n        let at = if whole == 0 { 0 } else { self.bytes.len() - min_byte_len % 8 };\n        for (a, b) in self.bytes[at..].iter_mut().zip(other.bytes[whole..].iter()) {\n            *a &= !*b;\n        }")],
  needs="a left operand that is longer in bytes, against one of nine or more bytes that is not a multiple of eight", breaks="the last bytes of the shorter operand are applied at the end of the longer one",
  demo="""use ssz::BitList; use typenum::U128; type B = BitList<U128>;
fn main() { for (n, m) in [(40usize, 40usize), (72, 72), (90, 100), (120, 70)] { let (mut a, mut b) = (B::with_capacity(n).unwrap(), B::with_capacity(m).unwrap());
  for i in 0..n { a.set(i, i % 3 == 0).unwrap(); } for i in 0..m { b.set(i, i % 2 == 0).unwrap(); } let d = a.difference(&b);
  for i in 0..n { assert_eq!(d.get(i).unwrap(), i % 3 == 0 && !(i < m && i % 2 == 0), "{n} {m} {i}"); } } }
"""),
]
