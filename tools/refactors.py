"""Edits that change no behaviour, on which every check has to stay quiet: python3 tools/refactors.py [--harness] [ids]

Applies each to /repo, runs the prover (and with --harness the whole check) for the named properties, and undoes it.
"""
import json, os, subprocess, sys

VERIF = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
S, D = "ssz/src/", "ssz_derive/src/lib.rs"
DI, EI, DE, EN, BF, BD = S + "decode/impls.rs", S + "encode/impls.rs", S + "decode.rs", S + "encode.rs", S + "bitfield.rs", S + "bitfield/bitvector_dynamic.rs"

R = {}


def r(name, props, *edits):
    R[name] = (props.split(), edits)


r("sanitize-early", "C05 C06", (DE, """    if num_fixed_bytes.is_some_and(|fixed_bytes| offset < fixed_bytes) {
        Err(DecodeError::OffsetIntoFixedPortion(offset))
    } else if previous_offset.is_none()
        && num_fixed_bytes.is_some_and(|fixed_bytes| offset != fixed_bytes)
    {
        Err(DecodeError::OffsetSkipsVariableBytes(offset))
    } else if offset > num_bytes {
        Err(DecodeError::OffsetOutOfBounds(offset))
    } else if previous_offset.is_some_and(|prev| prev > offset) {
        Err(DecodeError::OffsetsAreDecreasing(offset))
    } else {
        Ok(offset)
    }""", """    if let Some(fixed_bytes) = num_fixed_bytes {
        if offset < fixed_bytes {
            return Err(DecodeError::OffsetIntoFixedPortion(offset));
        }
        if previous_offset.is_none() && offset != fixed_bytes {
            return Err(DecodeError::OffsetSkipsVariableBytes(offset));
        }
    }
    if offset > num_bytes {
        return Err(DecodeError::OffsetOutOfBounds(offset));
    }
    match previous_offset {
        Some(prev) if prev > offset => Err(DecodeError::OffsetsAreDecreasing(offset)),
        _ => Ok(offset),
    }"""))

r("register-helper", "C05 C04 C15", (DE, """            self.offsets.push(Offset {
                position: self.items.len(),
                offset: sanitize_offset(
                    read_offset(&self.bytes[self.items_index..])?,
                    self.offsets.last().map(|o| o.offset),
                    self.bytes.len(),
                    None,
                )?,
            });

            // Push an empty slice into items; it will be replaced later.
            self.items.push(&[]);

            self.items_index += BYTES_PER_LENGTH_OFFSET;
        }

        Ok(())
    }
""", """            self.register_offset()?;
        }

        Ok(())
    }

    /// Reads the next offset and reserves a place for its item.
    fn register_offset(&mut self) -> Result<(), DecodeError> {
        let offset = sanitize_offset(
            read_offset(&self.bytes[self.items_index..])?,
            self.offsets.last().map(|o| o.offset),
            self.bytes.len(),
            None,
        )?;
        let position = self.items.len();
        self.offsets.push(Offset { position, offset });

        // Push an empty slice into items; it will be replaced later.
        self.items.push(&[]);

        self.items_index += BYTES_PER_LENGTH_OFFSET;
        Ok(())
    }
"""))

r("register-lets", "C05 C15", (DE, """            self.offsets.push(Offset {
                position: self.items.len(),
                offset: sanitize_offset(
                    read_offset(&self.bytes[self.items_index..])?,
                    self.offsets.last().map(|o| o.offset),
                    self.bytes.len(),
                    None,
                )?,
            });
""", """            let previous = self.offsets.last().map(|o| o.offset);
            let raw = read_offset(&self.bytes[self.items_index..])?;
            let offset = sanitize_offset(raw, previous, self.bytes.len(), None)?;
            let position = self.items.len();
            self.offsets.push(Offset { position, offset });
"""))

r("finalize-index-loop", "C05 C01", (DE, """            for pair in self.offsets.windows(2) {
                let a = pair[0];
                let b = pair[1];

                self.items[a.position] = &self.bytes[a.offset..b.offset];
            }
""", """            for i in 1..self.offsets.len() {
                let a = self.offsets[i - 1];
                let b = self.offsets[i];

                self.items[a.position] = &self.bytes[a.offset..b.offset];
            }
"""))

r("finalize-if", "C05 C15", (DE, """            match first_offset.cmp(&self.items_index) {
                Ordering::Less => return Err(DecodeError::OffsetIntoFixedPortion(first_offset)),
                Ordering::Greater => {
                    return Err(DecodeError::OffsetSkipsVariableBytes(first_offset))
                }
                Ordering::Equal => (),
            }
""", """            if first_offset < self.items_index {
                return Err(DecodeError::OffsetIntoFixedPortion(first_offset));
            } else if first_offset > self.items_index {
                return Err(DecodeError::OffsetSkipsVariableBytes(first_offset));
            }
"""), (DE, "use std::cmp::Ordering;\n", ""))

r("split-union-first", "C08 C05", (DE, """    let selector = bytes
        .first()
        .copied()
        .ok_or(DecodeError::OutOfBoundsByte { i: 0 })
        .and_then(UnionSelector::new)?;
    let body = bytes
        .get(1..)
        .ok_or(DecodeError::OutOfBoundsByte { i: 1 })?;
    Ok((selector, body))""", """    let (first, body) = bytes
        .split_first()
        .ok_or(DecodeError::OutOfBoundsByte { i: 0 })?;
    let selector = UnionSelector::new(*first)?;
    Ok((selector, body))"""))

r("read-offset-len", "C05 C04", (DE, """    decode_offset(bytes.get(0..BYTES_PER_LENGTH_OFFSET).ok_or(
        DecodeError::InvalidLengthPrefix {
            len: bytes.len(),
            expected: BYTES_PER_LENGTH_OFFSET,
        },
    )?)""", """    if bytes.len() < BYTES_PER_LENGTH_OFFSET {
        return Err(DecodeError::InvalidLengthPrefix {
            len: bytes.len(),
            expected: BYTES_PER_LENGTH_OFFSET,
        });
    }
    decode_offset(&bytes[..BYTES_PER_LENGTH_OFFSET])"""))

r("decode-offset-tryinto", "C05 C01", (DE, """    if len != expected {
        Err(DecodeError::InvalidLengthPrefix { len, expected })
    } else {
        let mut array: [u8; BYTES_PER_LENGTH_OFFSET] = std::default::Default::default();
        array.clone_from_slice(bytes);

        Ok(u32::from_le_bytes(array) as usize)
    }""", """    if len == expected {
        let mut array = [0u8; BYTES_PER_LENGTH_OFFSET];
        array.copy_from_slice(bytes);
        let value = u32::from_le_bytes(array);

        Ok(value as usize)
    } else {
        Err(DecodeError::InvalidLengthPrefix { len, expected })
    }"""))

r("append-let", "C01 C10", (EN, """            self.buf
                .extend_from_slice(&encode_length(self.offset + self.variable_bytes.len()));

            ssz_append(&mut self.variable_bytes);""", """            let position = self.offset + self.variable_bytes.len();
            let encoded = encode_length(position);
            ssz_append(&mut self.variable_bytes);
            self.buf.extend_from_slice(&encoded);"""))

r("encode-length-u32", "C01 C10", (EN, """    let mut bytes = [0; BYTES_PER_LENGTH_OFFSET];
    bytes.copy_from_slice(&len.to_le_bytes()[0..BYTES_PER_LENGTH_OFFSET]);
    bytes""", """    let mut bytes = [0; BYTES_PER_LENGTH_OFFSET];
    let le = len.to_le_bytes();
    for i in 0..BYTES_PER_LENGTH_OFFSET {
        bytes[i] = le[i];
    }
    bytes"""))

r("as-bytes-capacity", "C01 C07", (EN, """        let mut buf = vec![];

        self.ssz_append(&mut buf);

        buf
    }
}
""", """        let mut buf = Vec::with_capacity(self.ssz_bytes_len());
        self.ssz_append(&mut buf);
        buf
    }
}
"""))

r("bool-early", "C02 C05", (DI, """        if len != expected {
            Err(DecodeError::InvalidByteLength { len, expected })
        } else {
            match bytes[0] {
                0b0000_0000 => Ok(false),
                0b0000_0001 => Ok(true),
                _ => Err(DecodeError::BytesInvalid(format!(
                    "Out-of-range for boolean: {}",
                    bytes[0]
                ))),
            }
        }""", """        if len != expected {
            return Err(DecodeError::InvalidByteLength { len, expected });
        }
        let byte = bytes[0];
        if byte == 0 {
            Ok(false)
        } else if byte == 1 {
            Ok(true)
        } else {
            Err(DecodeError::BytesInvalid(format!(
                "Out-of-range for boolean: {}",
                byte
            )))
        }"""))

r("nonzero-okor", "C02 C05", (DI, """        if x == 0 {
            Err(DecodeError::BytesInvalid(
                "NonZeroUsize cannot be zero.".to_string(),
            ))
        } else {
            // `unwrap` is safe here as `NonZeroUsize::new()` succeeds if `x > 0` and this path
            // never executes when `x == 0`.
            Ok(NonZeroUsize::new(x).unwrap())
        }""", """        NonZeroUsize::new(x).ok_or_else(|| {
            DecodeError::BytesInvalid("NonZeroUsize cannot be zero.".to_string())
        })"""))

r("option-if", "C08 C02", (DI, """        match selector.into() {
            0u8 if body.is_empty() => Ok(None),
            0u8 => Err(DecodeError::InvalidByteLength {
                len: bytes.len(),
                expected: BYTES_PER_UNION_SELECTOR,
            }),
            1u8 => <T as Decode>::from_ssz_bytes(body).map(Option::Some),
            other => Err(DecodeError::UnionSelectorInvalid(other)),
        }""", """        let selector: u8 = selector.into();
        if selector == 0 {
            if !body.is_empty() {
                return Err(DecodeError::InvalidByteLength {
                    len: bytes.len(),
                    expected: BYTES_PER_UNION_SELECTOR,
                });
            }
            Ok(None)
        } else if selector == 1 {
            Ok(Some(T::from_ssz_bytes(body)?))
        } else {
            Err(DecodeError::UnionSelectorInvalid(selector))
        }"""))

VECFIX = """            if T::ssz_fixed_len() == 0 {
                return Err(DecodeError::ZeroLengthItem);
            }

            bytes
                .chunks(T::ssz_fixed_len())
                .map(T::from_ssz_bytes)
                .collect()
        } else {
            decode_list_of_variable_length_items(bytes, None)
        }
    }
}

impl<T: Decode, const N: usize> Decode for SmallVec<[T; N]> {"""
r("vec-loop", "C01 C04 C06", (DI, VECFIX, """            let item_len = T::ssz_fixed_len();
            if item_len == 0 {
                return Err(DecodeError::ZeroLengthItem);
            }

            let mut items = Vec::with_capacity(bytes.len() / item_len);
            for chunk in bytes.chunks(item_len) {
                items.push(T::from_ssz_bytes(chunk)?);
            }
            Ok(items)
        } else {
            decode_list_of_variable_length_items(bytes, None)
        }
    }
}

impl<T: Decode, const N: usize> Decode for SmallVec<[T; N]> {"""))

r("vec-helper", "C01 C04 C06", (DI, VECFIX, """            decode_fixed_items(bytes)
        } else {
            decode_list_of_variable_length_items(bytes, None)
        }
    }
}

/// Decodes a list of fixed-length items.
fn decode_fixed_items<T: Decode, C: FromIterator<T>>(bytes: &[u8]) -> Result<C, DecodeError> {
    let item_len = T::ssz_fixed_len();
    if item_len == 0 {
        return Err(DecodeError::ZeroLengthItem);
    }
    bytes.chunks(item_len).map(T::from_ssz_bytes).collect()
}

impl<T: Decode, const N: usize> Decode for SmallVec<[T; N]> {"""))

r("vec-order", "C01 C04", (DI, """        if bytes.is_empty() {
            Ok(vec![])
        } else if T::is_ssz_fixed_len() {
            if T::ssz_fixed_len() == 0 {
                return Err(DecodeError::ZeroLengthItem);
            }

            bytes
                .chunks(T::ssz_fixed_len())
                .map(T::from_ssz_bytes)
                .collect()
        } else {
            decode_list_of_variable_length_items(bytes, None)
        }""", """        if bytes.is_empty() {
            return Ok(Vec::new());
        }
        if !T::is_ssz_fixed_len() {
            return decode_list_of_variable_length_items(bytes, None);
        }
        let item_len = T::ssz_fixed_len();
        if item_len == 0 {
            return Err(DecodeError::ZeroLengthItem);
        }
        bytes.chunks(item_len).map(|c| T::from_ssz_bytes(c)).collect()"""))

r("list-helper", "C05 C06 C01", (DI, """    if first_offset % BYTES_PER_LENGTH_OFFSET != 0 || first_offset < BYTES_PER_LENGTH_OFFSET {
        return Err(DecodeError::InvalidListFixedBytesLen(first_offset));
    }

    let num_items = first_offset / BYTES_PER_LENGTH_OFFSET;
""", """    let num_items = count_items(first_offset)?;
"""), (DI, """/// Decodes `bytes` as if it were a list of variable-length items.
///
/// The `ssz""", """/// The number of items announced by the first offset.
fn count_items(first_offset: usize) -> Result<usize, DecodeError> {
    if first_offset % BYTES_PER_LENGTH_OFFSET != 0 || first_offset < BYTES_PER_LENGTH_OFFSET {
        return Err(DecodeError::InvalidListFixedBytesLen(first_offset));
    }
    Ok(first_offset / BYTES_PER_LENGTH_OFFSET)
}

/// Decodes `bytes` as if it were a list of variable-length items.
///
/// The `ssz"""))

r("list-closure", "C05 C01", (DI, """            let slice_option = if i == num_items {
                bytes.get(offset..)
            } else {
                let start = offset;

                let next_offset = read_offset(&bytes[(i * BYTES_PER_LENGTH_OFFSET)..])?;
                offset =
                    sanitize_offset(next_offset, Some(offset), bytes.len(), Some(first_offset))?;

                bytes.get(start..offset)
            };
""", """            let start = offset;
            let slice_option = if i < num_items {
                let position = i * BYTES_PER_LENGTH_OFFSET;
                let next_offset = read_offset(&bytes[position..])?;
                offset =
                    sanitize_offset(next_offset, Some(start), bytes.len(), Some(first_offset))?;

                bytes.get(start..offset)
            } else {
                bytes.get(start..)
            };
"""))

r("list-direct-loop", "C05 C06 C01", (DI, """    let mut offset = first_offset;
    process_results(
        (1..=num_items).map(|i| {
            let slice_option = if i == num_items {
                bytes.get(offset..)
            } else {
                let start = offset;

                let next_offset = read_offset(&bytes[(i * BYTES_PER_LENGTH_OFFSET)..])?;
                offset =
                    sanitize_offset(next_offset, Some(offset), bytes.len(), Some(first_offset))?;

                bytes.get(start..offset)
            };

            let slice = slice_option.ok_or(DecodeError::OutOfBoundsByte { i: offset })?;
            T::from_ssz_bytes(slice)
        }),
        |iter| iter.try_collect(),
    )?
    .map_err(""", """    let mut offset = first_offset;
    let mut items = Vec::with_capacity(num_items.min(bytes.len() / BYTES_PER_LENGTH_OFFSET));
    for i in 1..=num_items {
        let start = offset;
        let end = if i == num_items {
            bytes.len()
        } else {
            let next_offset = read_offset(&bytes[(i * BYTES_PER_LENGTH_OFFSET)..])?;
            sanitize_offset(next_offset, Some(start), bytes.len(), Some(first_offset))?
        };
        offset = end;
        let slice = bytes
            .get(start..end)
            .ok_or(DecodeError::OutOfBoundsByte { i: offset })?;
        items.push(T::from_ssz_bytes(slice)?);
    }
    items.into_iter().try_collect().map_err("""), (DI, "use itertools::process_results;\n", ""))

r("seq-len-loop", "C07 C01", (EI, """        let mut len = iter.map(|item| item.ssz_bytes_len()).sum();
        len += BYTES_PER_LENGTH_OFFSET * length;
        len""", """        let mut len = BYTES_PER_LENGTH_OFFSET * length;
        for item in iter {
            len += item.ssz_bytes_len();
        }
        len"""))

r("seq-append-foreach", "C01 C10", (EI, """        for item in iter {
            encoder.append(&item);
        }

        encoder.finalize();""", """        iter.for_each(|item| encoder.append(&item));
        encoder.finalize();"""))

r("option-encode-iflet", "C08 C01", (EI, """        match self {
            Option::None => {
                let union_selector: u8 = 0u8;
                buf.push(union_selector);
            }
            Option::Some(ref inner) => {
                let union_selector: u8 = 1u8;
                buf.push(union_selector);
                inner.ssz_append(buf);
            }
        }""", """        if let Some(inner) = self {
            buf.push(1u8);
            inner.ssz_append(buf);
        } else {
            buf.push(0u8);
        }"""))

r("tuple-sum", "C03 C07 C17", (EI, """                    if <Self as Encode>::is_ssz_fixed_len() {
                        $(
                            <$T as Encode>::ssz_fixed_len() +
                        )*
                            0
                    } else {
                        BYTES_PER_LENGTH_OFFSET
                    }""", """                    if !<Self as Encode>::is_ssz_fixed_len() {
                        return BYTES_PER_LENGTH_OFFSET;
                    }
                    let mut len = 0;
                    $(
                        len += <$T as Encode>::ssz_fixed_len();
                    )*
                    len"""))

r("uint-decode", "C01 C04", (DI, """                if len != expected {
                    Err(DecodeError::InvalidByteLength { len, expected })
                } else {
                    let mut array: [u8; $bit_size / 8] = std::default::Default::default();
                    array.clone_from_slice(bytes);

                    Ok(Self::from_le_bytes(array))
                }""", """                let array: [u8; $bit_size / 8] = bytes
                    .try_into()
                    .map_err(|_| DecodeError::InvalidByteLength { len, expected })?;
                Ok(Self::from_le_bytes(array))"""))

r("selector-if", "C08 C05", (S + "union_selector.rs", """        Some(selector)
            .filter(|_| selector <= MAX_UNION_SELECTOR)
            .map(Self)
            .ok_or(DecodeError::UnionSelectorInvalid(selector))""", """        if selector > MAX_UNION_SELECTOR {
            return Err(DecodeError::UnionSelectorInvalid(selector));
        }
        Ok(Self(selector))"""))

r("collect-new", "C06 C01", (S + "decode/try_from_iter.rs", """        let (_, opt_max_len) = iter.size_hint();
        let mut vec = Vec::with_capacity(opt_max_len.unwrap_or(0));
        vec.extend(iter);
        Ok(vec)""", """        let max_len = iter.size_hint().1.unwrap_or(0);
        let mut vec = Vec::with_capacity(max_len);
        for value in iter {
            vec.push(value);
        }
        Ok(vec)"""))

# bitfields
r("bits-set-mask", "C11 C09", (BF, """            if value {
                *byte |= 1 << (i % 8)
            } else {
                *byte &= !(1 << (i % 8))
            }
""", """            let mask = 1u8 << (i % 8);
            if value {
                *byte |= mask;
            } else {
                *byte &= !mask;
            }
"""))

r("bits-get-ne", "C11 C09", (BF, """            Ok(*byte & (1 << (i % 8)) > 0)""", """            Ok((*byte >> (i % 8)) & 1 == 1)"""))

r("bits-get-early", "C11", (BF, """        if i < self.len {
            let byte = self
                .bytes
                .get(i / 8)
                .ok_or(Error::OutOfBounds { i, len: self.len })?;

            Ok(*byte & (1 << (i % 8)) > 0)
        } else {
            Err(Error::OutOfBounds { i, len: self.len })
        }""", """        if i >= self.len {
            return Err(Error::OutOfBounds { i, len: self.len });
        }
        match self.bytes.get(i / 8) {
            Some(byte) => Ok(byte & (1 << (i % 8)) != 0),
            None => Err(Error::OutOfBounds { i, len: self.len }),
        }"""))

r("bits-raw-mask", "C09 C14", (BF, """            let (mask, _) = u8::MAX.overflowing_shr(8 - (bit_len as u32 % 8));
""", """            let used = bit_len % 8;
            let mask: u8 = if used == 0 { u8::MAX } else { u8::MAX >> (8 - used) };
"""))

r("bits-raw-helper", "C09 C14", (BF, """            // Ensure there are no bits higher than `bit_len` that are set to true.
            let (mask, _) = u8::MAX.overflowing_shr(8 - (bit_len as u32 % 8));

            if (bytes.last().expect("Guarded against empty bytes") & !mask) == 0 {""",
"""            // Ensure there are no bits higher than `bit_len` that are set to true.
            let last = *bytes.last().expect("Guarded against empty bytes");

            if last & !last_byte_mask(bit_len) == 0 {"""), (BF, """/// Returns the minimum required bytes""", """/// The bits of the last byte which `bit_len` bits may use.
fn last_byte_mask(bit_len: usize) -> u8 {
    u8::MAX.overflowing_shr(8 - (bit_len as u32 % 8)).0
}

/// Returns the minimum required bytes"""))

r("bits-highest-loop", "C18 C09", (BF, """        self.bytes
            .iter()
            .enumerate()
            .rev()
            .find(|(_, byte)| **byte > 0)
            .map(|(i, byte)| i * 8 + 7 - byte.leading_zeros() as usize)""", """        for i in (0..self.bytes.len()).rev() {
            let byte = self.bytes[i];
            if byte != 0 {
                return Some(i * 8 + 7 - byte.leading_zeros() as usize);
            }
        }
        None"""))

r("bits-count-loop", "C18", (BF, """        self.bytes
            .iter()
            .map(|byte| byte.count_ones() as usize)
            .sum()""", """        let mut count = 0;
        for byte in self.bytes.iter() {
            count += byte.count_ones() as usize;
        }
        count"""))

r("bits-zero-any", "C18", (BF, "self.bytes.iter().all(|byte| *byte == 0)", "!self.bytes.iter().any(|byte| *byte != 0)"))

r("bits-difference-zip", "C12", (BF, """        let min_byte_len = std::cmp::min(self.bytes.len(), other.bytes.len());

        for i in 0..min_byte_len {
            self.bytes[i] &= !other.bytes[i];
        }""", """        for (byte, other) in self.bytes.iter_mut().zip(other.bytes.iter()) {
            *byte &= !*other;
        }"""))

r("bits-shift-while", "C13 C19", (BF, """            for i in (n..self.len()).rev() {
                self.set(i, self.get(i - n)?)?;
            }
            // Zero the low bits
            for i in 0..n {
                self.set(i, false).unwrap();
            }
            Ok(())""", """            let mut i = self.len();
            while i > n {
                i -= 1;
                let bit = self.get(i - n)?;
                self.set(i, bit)?;
            }
            // Zero the low bits
            for i in 0..n {
                self.set(i, false)?;
            }
            Ok(())"""))

r("bits-frombytes-order", "C09 C14", (BF, """        let bytes_len = bytes.len();
        let mut initial_bitfield: Bitfield<Variable<N>> = {
            let num_bits = bytes.len() * 8;
            Bitfield::from_raw_bytes(bytes, num_bits)?
        };
""", """        let bytes_len = bytes.len();
        let num_bits = bytes_len * 8;
        let mut initial_bitfield: Bitfield<Variable<N>> = Self::from_raw_bytes(bytes, num_bits)?;
"""))

r("bits-frombytes-early", "C09 C14", (BF, """        if len <= Self::max_len() {
            initial_bitfield
                .set(len, false)
                .expect("Bit has been confirmed to exist");

            let mut bytes = initial_bitfield.into_raw_bytes();

            bytes.truncate(bytes_for_bit_len(len));

            Self::from_raw_bytes(bytes, len)
        } else {
            Err(Error::OutOfBounds {
                i: Self::max_len(),
                len: Self::max_len(),
            })
        }""", """        if len > Self::max_len() {
            return Err(Error::OutOfBounds {
                i: Self::max_len(),
                len: Self::max_len(),
            });
        }

        initial_bitfield
            .set(len, false)
            .expect("Bit has been confirmed to exist");

        let mut bytes = initial_bitfield.into_raw_bytes();
        bytes.truncate(bytes_for_bit_len(len));
        Self::from_raw_bytes(bytes, len)"""))

r("bits-union-clone", "C12 C10", (BF, """        let max_len = std::cmp::max(self.len(), other.len());
        let mut result = Self::with_capacity(max_len).expect("max len always less than N");
        for i in 0..result.bytes.len() {
            result.bytes[i] =
                self.bytes.get(i).copied().unwrap_or(0) | other.bytes.get(i).copied().unwrap_or(0);
        }
        result""", """        let max_len = self.len().max(other.len());
        let mut result = Self::with_capacity(max_len).expect("max len always less than N");
        for i in 0..result.bytes.len() {
            let a = self.bytes.get(i).copied().unwrap_or(0);
            let b = other.bytes.get(i).copied().unwrap_or(0);
            result.bytes[i] = a | b;
        }
        result"""))

r("bits-iter-match", "C11 C18", (BF, """        let res = self.bitfield.get(self.i).ok()?;
        self.i += 1;
        Some(res)""", """        match self.bitfield.get(self.i) {
            Ok(bit) => {
                self.i += 1;
                Some(bit)
            }
            Err(_) => None,
        }"""))

r("bits-resize-while", "C19 C20", (BF, """        for (i, bit) in self.iter().enumerate() {
            resized.set(i, bit)?;
        }
""", """        for i in 0..self.len() {
            resized.set(i, self.get(i)?)?;
        }
"""))

r("bits-bytelen", "C09 C16 C10", (BF, "    std::cmp::max(1, bit_len.div_ceil(8))", """    if bit_len == 0 {
        1
    } else {
        (bit_len - 1) / 8 + 1
    }"""))

r("dyn-new", "C16 C20", (BD, """        if len == 0 {""", """        let bytes_needed = bytes_for_bit_len(len);
        if len == 0 {"""), (BD, "smallvec![0; bytes_for_bit_len(len)],", "smallvec![0; bytes_needed],"))

r("bits-intoraw-resize", "C10 C09", (BF, """        let len = self.len();
        let mut bytes = self.bytes;

        bytes.resize(bytes_for_bit_len(len + 1), 0);
""", """        let len = self.len();
        let byte_len = bytes_for_bit_len(len + 1);
        let mut bytes = self.bytes;
        bytes.resize(byte_len, 0u8);
"""))

r("serde-let", "C20", (BF, """impl<N: Unsigned + Clone> Serialize for Bitfield<Variable<N>> {
    /// Serde serialization is compliant with the Ethereum YAML test format.
    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
    where
        S: Serializer,
    {
        serializer.serialize_str(&hex_encode(self.as_ssz_bytes()))""", """impl<N: Unsigned + Clone> Serialize for Bitfield<Variable<N>> {
    /// Serde serialization is compliant with the Ethereum YAML test format.
    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
    where
        S: Serializer,
    {
        let bytes = self.as_ssz_bytes();
        let hex = hex_encode(bytes);
        serializer.serialize_str(&hex)"""))

# the derive macros
r("derive-len-fold", "C03 C07", (D, """                    let mut len: usize = 0;
                    #(
                        len = len
                            .checked_add(#field_fixed_len)
                            .expect("encode ssz_fixed_len length overflow");
                    )*
                    len""", """                    let mut total: usize = 0;
                    #(
                        let field_len = #field_fixed_len;
                        total = total
                            .checked_add(field_len)
                            .expect("encode ssz_fixed_len length overflow");
                    )*
                    total"""))

r("derive-fixed-cursor", "C01 C04 C17", (D, """                    if bytes.len() != <Self as ssz::Decode>::ssz_fixed_len() {
                        return Err(ssz::DecodeError::InvalidByteLength {
                            len: bytes.len(),
                            expected: <Self as ssz::Decode>::ssz_fixed_len(),
                        });
                    }
""", """                    let expected = <Self as ssz::Decode>::ssz_fixed_len();
                    let len = bytes.len();
                    if len != expected {
                        return Err(ssz::DecodeError::InvalidByteLength { len, expected });
                    }
"""))

r("derive-union-selector", "C08 C15", (D, """                            let union_selector: u8 = #union_selectors;
                            debug_assert!(union_selector <= ssz::MAX_UNION_SELECTOR);
                            buf.push(union_selector);
                            #appends""", """                            buf.push(#union_selectors);
                            #appends;"""))

r("derive-union-decode", "C08 C15", (D, """                            #codecs::from_ssz_bytes(body).map(#constructors)""",
"""                            let inner = #codecs::from_ssz_bytes(body)?;
                            Ok(#constructors(inner))"""))

r("derive-transparent-helper", "C17 C07", (D, """    // Remove the `_usize` suffix from the value to avoid a compiler warning.
    let index = Index::from(index);
""", """    // Remove the `_usize` suffix from the value to avoid a compiler warning.
    let index = to_index(index);
"""), (D, """/// Derive `ssz::Encode` "transparently" for a struct""", """/// The position of an unnamed field.
fn to_index(index: usize) -> Index {
    Index::from(index)
}

/// Derive `ssz::Encode` "transparently" for a struct"""))


if __name__ == "__main__":
    sys.modules["refactors"] = sys.modules["__main__"]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactors2  # noqa: E402,F401
import refactors3  # noqa: E402,F401


def git(*a):
    subprocess.run(["git", "-C", "/repo"] + list(a), check=True, stdout=subprocess.DEVNULL)


def apply(edits):
    for f, old, new in edits:
        p = os.path.join("/repo", f)
        s = open(p).read()
        if old not in s:
            raise SystemExit(f"{f}: not found: {old[:80]}")
        open(p, "w").write(s.replace(old, new, 1))


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    for name, (props, edits) in R.items():
        if args and name not in args:
            continue
        try:
            apply(edits)
            for prop in props if "--all" in sys.argv else props[:1]:
                if "--harness" in sys.argv:
                    p = subprocess.run([sys.executable, "check.py", prop], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    print(name, prop, "exit", p.returncode, p.stdout[-300:] if p.returncode else "", flush=True)
                    continue
                p = subprocess.run([sys.executable, "prover.py", prop], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                try:
                    res = json.loads(p.stdout)
                except ValueError:
                    print(name, prop, "CRASH", p.stderr[-500:], flush=True)
                    continue
                print(name, prop, res["status"], res["coverage"].get("prover_wall_s"),
                      "FAILED " + str([(f["function"], f["message"][:160]) for f in res["failed"]]) if res["failed"] else "",
                      {k: v[:150] for k, v in res["undecided"].items()} or "", flush=True)
        finally:
            git("checkout", "--", ".")


if __name__ == "__main__":
    main()
