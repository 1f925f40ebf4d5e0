"""More edits that change no behaviour (see refactors.py)."""
from refactors import r, S, D, DI, EI, DE, EN, BF, BD

LG, US, TF = S + "legacy.rs", S + "union_selector.rs", S + "decode/try_from_iter.rs"

r("b-set-match", "C11", (BF, """        let len = self.len;

        if i < len {
            let byte = self
                .bytes
                .get_mut(i / 8)
                .ok_or(Error::OutOfBounds { i, len })?;

            if value {
                *byte |= 1 << (i % 8)
            } else {
                *byte &= !(1 << (i % 8))
            }

            Ok(())
        } else {
            Err(Error::OutOfBounds { i, len: self.len })
        }""", """        let len = self.len;
        if i >= len {
            return Err(Error::OutOfBounds { i, len });
        }

        let (byte_index, bit_index) = (i / 8, i % 8);
        match self.bytes.get_mut(byte_index) {
            Some(byte) => {
                let mask = 1u8 << bit_index;
                if value {
                    *byte |= mask;
                } else {
                    *byte &= !mask;
                }
                Ok(())
            }
            None => Err(Error::OutOfBounds { i, len }),
        }"""))

r("b-set-index", "C11", (BF, """            let byte = self
                .bytes
                .get_mut(i / 8)
                .ok_or(Error::OutOfBounds { i, len })?;

            if value {
                *byte |= 1 << (i % 8)
            } else {
                *byte &= !(1 << (i % 8))
            }
""", """            let mask = 1 << (i % 8);
            if value {
                self.bytes[i / 8] |= mask;
            } else {
                self.bytes[i / 8] &= !mask;
            }
"""))

r("b-get-helper", "C11", (BF, """            let byte = self
                .bytes
                .get(i / 8)
                .ok_or(Error::OutOfBounds { i, len: self.len })?;

            Ok(*byte & (1 << (i % 8)) > 0)""", """            let byte = self
                .bytes
                .get(i / 8)
                .ok_or(Error::OutOfBounds { i, len: self.len })?;

            Ok(bit_is_set(*byte, i % 8))"""), (BF, """/// Returns the minimum required bytes to represent a given number of bits.
""", """/// Returns `true` if bit `i` of `byte` is set.
fn bit_is_set(byte: u8, i: usize) -> bool {
    byte & (1 << i) != 0
}

/// Returns the minimum required bytes to represent a given number of bits.
"""))

r("b-get-let", "C11", (BF, """            Ok(*byte & (1 << (i % 8)) > 0)""", """            let mask = 1u8 << (i % 8);
            Ok(*byte & mask == mask)"""))

r("b-raw-early", "C14", (BF, """        } else if bytes.len() != bytes_for_bit_len(bit_len) {
            // The number of bytes must be the minimum required to represent `bit_len`.
            Err(Error::InvalidByteCount {
                given: bytes.len(),
                expected: bytes_for_bit_len(bit_len),
            })
        } else {
            // Ensure there are no bits higher than `bit_len` that are set to true.
            let (mask, _) = u8::MAX.overflowing_shr(8 - (bit_len as u32 % 8));

            if (bytes.last().expect("Guarded against empty bytes") & !mask) == 0 {
                Ok(Self {
                    bytes,
                    len: bit_len,
                    _phantom: PhantomData,
                })
            } else {
                Err(Error::ExcessBits)
            }
        }""", """        } else {
            let expected = bytes_for_bit_len(bit_len);
            let given = bytes.len();
            // The number of bytes must be the minimum required to represent `bit_len`.
            if given != expected {
                return Err(Error::InvalidByteCount { given, expected });
            }

            // Ensure there are no bits higher than `bit_len` that are set to true.
            let (mask, _) = u8::MAX.overflowing_shr(8 - (bit_len as u32 % 8));
            let last = *bytes.last().expect("Guarded against empty bytes");

            if last & !mask != 0 {
                return Err(Error::ExcessBits);
            }

            Ok(Self {
                bytes,
                len: bit_len,
                _phantom: PhantomData,
            })
        }"""))

r("b-raw-shift", "C14", (BF, """            let (mask, _) = u8::MAX.overflowing_shr(8 - (bit_len as u32 % 8));

            if (bytes.last().expect("Guarded against empty bytes") & !mask) == 0 {""", """            let used_bits = (bit_len - 1) % 8 + 1;
            let last = bytes[bytes.len() - 1];

            if used_bits == 8 || last >> used_bits == 0 {"""))

r("b-highest-while", "C11", (BF, """        self.bytes
            .iter()
            .enumerate()
            .rev()
            .find(|(_, byte)| **byte > 0)
            .map(|(i, byte)| i * 8 + 7 - byte.leading_zeros() as usize)""", """        let mut i = self.bytes.len();
        while i > 0 {
            i -= 1;
            let byte = self.bytes[i];
            if byte != 0 {
                return Some(i * 8 + 7 - byte.leading_zeros() as usize);
            }
        }
        None"""))

r("b-highest-iflet", "C11", (BF, """        self.bytes
            .iter()
            .enumerate()
            .rev()
            .find(|(_, byte)| **byte > 0)
            .map(|(i, byte)| i * 8 + 7 - byte.leading_zeros() as usize)""", """        let (i, byte) = self
            .bytes
            .iter()
            .enumerate()
            .rev()
            .find(|(_, byte)| **byte != 0)?;
        let top = 7 - byte.leading_zeros() as usize;
        Some(i * 8 + top)"""))

r("b-zero-loop", "C11", (BF, """        self.bytes.iter().all(|byte| *byte == 0)""", """        for byte in self.bytes.iter() {
            if *byte != 0 {
                return false;
            }
        }
        true"""))

r("b-zero-highest", "C11", (BF, """        self.bytes.iter().all(|byte| *byte == 0)""", """        self.highest_set_bit().is_none()"""))

r("b-num-fold", "C11", (BF, """        self.bytes
            .iter()
            .map(|byte| byte.count_ones() as usize)
            .sum()""", """        let mut total = 0;
        for byte in self.bytes.iter() {
            total += byte.count_ones() as usize;
        }
        total"""))

r("b-difference-iter", "C12", (BF, """        let min_byte_len = std::cmp::min(self.bytes.len(), other.bytes.len());

        for i in 0..min_byte_len {
            self.bytes[i] &= !other.bytes[i];
        }""", """        for (a, b) in self.bytes.iter_mut().zip(other.bytes.iter()) {
            *a &= !*b;
        }"""))

r("b-difference-while", "C12", (BF, """        for i in 0..min_byte_len {
            self.bytes[i] &= !other.bytes[i];
        }""", """        let mut i = 0;
        while i < min_byte_len {
            self.bytes[i] &= !other.bytes[i];
            i += 1;
        }"""))

r("b-difference-let", "C12", (BF, """        for i in 0..min_byte_len {
            self.bytes[i] &= !other.bytes[i];
        }""", """        for i in 0..min_byte_len {
            let keep = !other.bytes[i];
            self.bytes[i] = self.bytes[i] & keep;
        }"""))

r("b-subset-inline", "C12", (BF, """        self.difference(other).is_zero()
    }

    /// Returns a new BitList of length M""", """        let mut rest = self.clone();
        rest.difference_inplace(other);
        rest.is_zero()
    }

    /// Returns a new BitList of length M"""))

r("b-inter-min", "C12", (BF, """        let min_len = std::cmp::min(self.len(), other.len());
        let mut result = Self::with_capacity(min_len)""", """        let min_len = self.len().min(other.len());
        let mut result = Self::with_capacity(min_len)"""))

r("b-inter-if", "C12", (BF, """        let min_len = std::cmp::min(self.len(), other.len());
        let mut result = Self::with_capacity(min_len)""", """        let min_len = if self.len < other.len { self.len } else { other.len };
        let mut result = Self::with_capacity(min_len)"""))

r("b-union-lets", "C12", (BF, """        for i in 0..result.bytes.len() {
            result.bytes[i] =
                self.bytes.get(i).copied().unwrap_or(0) | other.bytes.get(i).copied().unwrap_or(0);
        }
        result
    }

    /// Returns `true` if `self` is a subset of `other` and `false` otherwise.
    pub fn is_subset(&self, other: &Self) -> bool {
        self.difference(other).is_zero()
    }

    /// Returns a new BitList""", """        for i in 0..result.bytes.len() {
            let a = self.bytes.get(i).copied().unwrap_or(0);
            let b = other.bytes.get(i).copied().unwrap_or(0);
            result.bytes[i] = a | b;
        }
        result
    }

    /// Returns `true` if `self` is a subset of `other` and `false` otherwise.
    pub fn is_subset(&self, other: &Self) -> bool {
        self.difference(other).is_zero()
    }

    /// Returns a new BitList"""))

r("b-union-helper", "C12", (BF, """            result.bytes[i] =
                self.bytes.get(i).copied().unwrap_or(0) | other.bytes.get(i).copied().unwrap_or(0);
        }
        result
    }

    /// Returns `true` if `self` is a subset of `other` and `false` otherwise.
    pub fn is_subset(&self, other: &Self) -> bool {
        self.difference(other).is_zero()
    }

    /// Returns a new BitList""", """            result.bytes[i] = byte_or_zero(&self.bytes, i) | byte_or_zero(&other.bytes, i);
        }
        result
    }

    /// Returns `true` if `self` is a subset of `other` and `false` otherwise.
    pub fn is_subset(&self, other: &Self) -> bool {
        self.difference(other).is_zero()
    }

    /// Returns a new BitList"""), (BF, """/// Returns the minimum required bytes to represent a given number of bits.
""", """/// The byte at `i`, or zero beyond the end.
fn byte_or_zero(bytes: &[u8], i: usize) -> u8 {
    match bytes.get(i) {
        Some(byte) => *byte,
        None => 0,
    }
}

/// Returns the minimum required bytes to represent a given number of bits.
"""))

r("b-shift-split", "C11", (BF, """        if n <= self.len() {
            // Shift the bits up (starting from the high indices to avoid overwriting)
            for i in (n..self.len()).rev() {
                self.set(i, self.get(i - n)?)?;
            }
            // Zero the low bits
            for i in 0..n {
                self.set(i, false).unwrap();
            }
            Ok(())
        } else {
            Err(Error::OutOfBounds {
                i: n,
                len: self.len(),
            })
        }""", """        let len = self.len();
        if n > len {
            return Err(Error::OutOfBounds { i: n, len });
        }
        // Shift the bits up (starting from the high indices to avoid overwriting)
        for i in (n..len).rev() {
            let bit = self.get(i - n)?;
            self.set(i, bit)?;
        }
        // Zero the low bits
        for i in 0..n {
            self.set(i, false).unwrap();
        }
        Ok(())"""))

r("b-withcap-early", "C13", (BF, """        if num_bits <= N::to_usize() {
            Ok(Self {
                bytes: smallvec![0; bytes_for_bit_len(num_bits)],
                len: num_bits,
                _phantom: PhantomData,
            })
        } else {
            Err(Error::OutOfBounds {
                i: num_bits,
                len: Self::max_len(),
            })
        }""", """        let max_len = Self::max_len();
        if num_bits > max_len {
            return Err(Error::OutOfBounds {
                i: num_bits,
                len: max_len,
            });
        }
        let num_bytes = bytes_for_bit_len(num_bits);
        Ok(Self {
            bytes: smallvec![0; num_bytes],
            len: num_bits,
            _phantom: PhantomData,
        })"""))

r("b-resize-iflet", "C13", (BF, """        for (i, bit) in self.iter().enumerate() {
            resized.set(i, bit)?;
        }""", """        for (i, bit) in self.iter().enumerate() {
            if bit {
                resized.set(i, true)?;
            }
        }"""))

r("b-resize-copy", "C13", (BF, """        for (i, bit) in self.iter().enumerate() {
            resized.set(i, bit)?;
        }""", """        for (to, from) in resized.bytes.iter_mut().zip(self.bytes.iter()) {
            *to = *from;
        }"""))

r("b-eq-order", "C11", (BF, """        self.len == other.len && self.bytes == other.bytes""", """        self.bytes == other.bytes && self.len == other.len"""))

r("b-iter-if", "C11", (BF, """        let res = self.bitfield.get(self.i).ok()?;
        self.i += 1;
        Some(res)""", """        if self.i >= self.bitfield.len {
            return None;
        }
        let res = self.bitfield.get(self.i).ok();
        self.i += 1;
        res"""))

r("b-bytelen-formula", "C07", (BF, """        // We could likely do better than turning this into bytes and reading the length, however
        // it is kept this way for simplicity.
        self.clone().into_bytes().len()""", """        bytes_for_bit_len(self.len() + 1)"""))

r("b-append-let", "C10", (BF, """    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(&self.clone().into_bytes())
    }
}

impl<N: Unsigned + Clone> Decode for Bitfield<Variable<N>> {""", """    fn ssz_append(&self, buf: &mut Vec<u8>) {
        let bytes = self.clone().into_bytes();
        buf.extend_from_slice(&bytes);
    }
}

impl<N: Unsigned + Clone> Decode for Bitfield<Variable<N>> {"""))

r("b-fixed-append-slice", "C10", (BF, """    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(&self.clone().into_bytes())
    }
}

impl<N: Unsigned + Clone> Decode for Bitfield<Fixed<N>> {""", """    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(self.as_slice())
    }
}

impl<N: Unsigned + Clone> Decode for Bitfield<Fixed<N>> {"""))

r("b-arb-mod", "C20", (BF, """        let size = std::cmp::min(rand, max_size).min(u.len());
""", """        let available = u.len();
        let size = rand.min(max_size).min(available);
"""))

r("b-dyn-new-match", "C13", (BD, """        if len == 0 {
            return Err(Error::InvalidByteCount {
                given: len,
                expected: 8,
            });
        }
        if len % 8 != 0 {
            return Err(Error::InvalidByteCount {
                given: len,
                expected: (len / 8 + 1).saturating_mul(8),
            });
        }
        Ok(Self {
            bytes: smallvec![0; bytes_for_bit_len(len)],
            len,
            _phantom: PhantomData,
        })""", """        if len == 0 || len % 8 != 0 {
            let expected = (len / 8 + 1).saturating_mul(8);
            Err(Error::InvalidByteCount {
                given: len,
                expected,
            })
        } else {
            Ok(Self {
                bytes: smallvec![0; len / 8],
                len,
                _phantom: PhantomData,
            })
        }"""))

r("b-dyn-inter-index", "C12", (BD, """        for (i, byte) in result.bytes.iter_mut().enumerate() {
            *byte =
                self.bytes.get(i).copied().unwrap_or(0) & other.bytes.get(i).copied().unwrap_or(0);
        }
        Ok(result)
    }

    /// Compute the union""", """        for i in 0..result.bytes.len() {
            let a = self.bytes.get(i).copied().unwrap_or(0);
            let b = other.bytes.get(i).copied().unwrap_or(0);
            result.bytes[i] = a & b;
        }
        Ok(result)
    }

    /// Compute the union"""))

r("b-dyn-decode-len", "C04", (BD, """        let len = bytes.len() * 8;
        Self::from_raw_bytes(bytes.to_smallvec(), len).map_err(|e| {
            DecodeError::BytesInvalid(format!("BitVectorDynamic failed to decode: {:?}", e))
        })""", """        match Self::from_bytes_with_len(bytes.to_smallvec(), bytes.len() * 8) {
            Ok(bitfield) => Ok(bitfield),
            Err(e) => Err(DecodeError::BytesInvalid(format!(
                "BitVectorDynamic failed to decode: {:?}",
                e
            ))),
        }"""))

# --- decoder
r("d-register-match", "C09", (DE, """            let slice =
                self.bytes
                    .get(start..self.items_index)
                    .ok_or(DecodeError::InvalidByteLength {
                        len: self.bytes.len(),
                        expected: self.items_index,
                    })?;

            self.items.push(slice);""", """            match self.bytes.get(start..self.items_index) {
                Some(slice) => self.items.push(slice),
                None => {
                    return Err(DecodeError::InvalidByteLength {
                        len: self.bytes.len(),
                        expected: self.items_index,
                    })
                }
            }"""))

r("d-register-reorder", "C09", (DE, """            // Push an empty slice into items; it will be replaced later.
            self.items.push(&[]);

            self.items_index += BYTES_PER_LENGTH_OFFSET;""", """            self.items_index += BYTES_PER_LENGTH_OFFSET;

            // Push an empty slice into items; it will be replaced later.
            self.items.push(&[]);"""))

r("d-register-checked", "C05", (DE, """            let start = self.items_index;
            self.items_index = start.saturating_add(ssz_fixed_len);

            let slice =
                self.bytes
                    .get(start..self.items_index)
                    .ok_or(DecodeError::InvalidByteLength {
                        len: self.bytes.len(),
                        expected: self.items_index,
                    })?;

            self.items.push(slice);""", """            let start = self.items_index;
            let end = start.saturating_add(ssz_fixed_len);
            self.items_index = end;

            let slice = self
                .bytes
                .get(start..end)
                .ok_or_else(|| DecodeError::InvalidByteLength {
                    len: self.bytes.len(),
                    expected: end,
                })?;

            self.items.push(slice);"""))

r("d-register-split", "C09", (DE, """        if is_ssz_fixed_len {
            let start = self.items_index;
            self.items_index = start.saturating_add(ssz_fixed_len);
""", """        if is_ssz_fixed_len {
            self.register_fixed(ssz_fixed_len)
        } else {
            self.register_variable()
        }
    }

    fn register_fixed(&mut self, ssz_fixed_len: usize) -> Result<(), DecodeError> {
            let start = self.items_index;
            self.items_index = start.saturating_add(ssz_fixed_len);
"""), (DE, """            self.items.push(slice);
        } else {
            self.offsets.push(Offset {""", """            self.items.push(slice);
            Ok(())
    }

    fn register_variable(&mut self) -> Result<(), DecodeError> {
            self.offsets.push(Offset {"""), (DE, """            self.items_index += BYTES_PER_LENGTH_OFFSET;
        }

        Ok(())
    }
""", """            self.items_index += BYTES_PER_LENGTH_OFFSET;

            Ok(())
    }
"""))

r("d-finalize-early", "C09", (DE, """            // Handle the last offset, pushing a slice from it's start through to the end of
            // `self.bytes`.
            if let Some(last) = self.offsets.last() {
                self.items[last.position] = &self.bytes[last.offset..]
            }""", """            // Handle the last offset, pushing a slice from it's start through to the end of
            // `self.bytes`.
            match self.offsets.last() {
                Some(last) => {
                    let tail = &self.bytes[last.offset..];
                    self.items[last.position] = tail;
                }
                None => {}
            }"""))

r("d-finalize-helper", "C09", (DE, """            if self.items_index != self.bytes.len() {
                return Err(DecodeError::InvalidByteLength {
                    len: self.bytes.len(),
                    expected: self.items_index,
                });
            }""", """            self.check_no_excess_bytes()?;"""), (DE, """    fn finalize(&mut self) -> Result<(), DecodeError> {""", """    fn check_no_excess_bytes(&self) -> Result<(), DecodeError> {
        let len = self.bytes.len();
        let expected = self.items_index;
        if len == expected {
            Ok(())
        } else {
            Err(DecodeError::InvalidByteLength { len, expected })
        }
    }

    fn finalize(&mut self) -> Result<(), DecodeError> {"""))

r("d-decode-next-let", "C09", (DE, """        f(self.items.remove(0))""", """        let slice = self.items.remove(0);
        f(slice)"""))

r("d-split-union-isempty", "C15", (DE, """    let selector = bytes
        .first()
        .copied()
        .ok_or(DecodeError::OutOfBoundsByte { i: 0 })
        .and_then(UnionSelector::new)?;
    let body = bytes
        .get(1..)
        .ok_or(DecodeError::OutOfBoundsByte { i: 1 })?;
    Ok((selector, body))""", """    if bytes.is_empty() {
        return Err(DecodeError::OutOfBoundsByte { i: 0 });
    }
    let selector = UnionSelector::new(bytes[0])?;
    Ok((selector, &bytes[1..]))"""))

r("d-read-offset-match", "C05", (DE, """    decode_offset(bytes.get(0..BYTES_PER_LENGTH_OFFSET).ok_or(
        DecodeError::InvalidLengthPrefix {
            len: bytes.len(),
            expected: BYTES_PER_LENGTH_OFFSET,
        },
    )?)""", """    match bytes.get(..BYTES_PER_LENGTH_OFFSET) {
        Some(prefix) => decode_offset(prefix),
        None => Err(DecodeError::InvalidLengthPrefix {
            len: bytes.len(),
            expected: BYTES_PER_LENGTH_OFFSET,
        }),
    }"""))

r("d-decode-offset-index", "C01", (DE, """        let mut array: [u8; BYTES_PER_LENGTH_OFFSET] = std::default::Default::default();
        array.clone_from_slice(bytes);

        Ok(u32::from_le_bytes(array) as usize)""", """        let array = [bytes[0], bytes[1], bytes[2], bytes[3]];
        Ok(u32::from_le_bytes(array) as usize)"""))

r("d-vec-sizelet", "C01", (DI, """        } else if T::is_ssz_fixed_len() {
            if T::ssz_fixed_len() == 0 {
                return Err(DecodeError::ZeroLengthItem);
            }

            bytes
                .chunks(T::ssz_fixed_len())
                .map(T::from_ssz_bytes)
                .collect()
        } else {
            decode_list_of_variable_length_items(bytes, None)
        }
    }
}

impl<T: Decode, const N: usize> Decode for SmallVec""", """        } else if T::is_ssz_fixed_len() {
            let item_len = T::ssz_fixed_len();
            if item_len == 0 {
                return Err(DecodeError::ZeroLengthItem);
            }

            bytes.chunks(item_len).map(T::from_ssz_bytes).collect()
        } else {
            decode_list_of_variable_length_items(bytes, None)
        }
    }
}

impl<T: Decode, const N: usize> Decode for SmallVec"""))

r("d-vec-closure", "C01", (DI, """            bytes
                .chunks(T::ssz_fixed_len())
                .map(T::from_ssz_bytes)
                .collect()
        } else {
            decode_list_of_variable_length_items(bytes, None)
        }
    }
}

impl<T: Decode, const N: usize> Decode for SmallVec""", """            bytes
                .chunks(T::ssz_fixed_len())
                .map(|chunk| T::from_ssz_bytes(chunk))
                .collect::<Result<Vec<T>, DecodeError>>()
        } else {
            decode_list_of_variable_length_items(bytes, None)
        }
    }
}

impl<T: Decode, const N: usize> Decode for SmallVec"""))

r("d-list-first-check", "C09", (DI, """    let num_items = first_offset / BYTES_PER_LENGTH_OFFSET;

    if max_len.is_some_and(|max| num_items > max) {
        return Err(""", """    let num_items = first_offset / BYTES_PER_LENGTH_OFFSET;

    let too_many = match max_len {
        Some(max) => num_items > max,
        None => false,
    };
    if too_many {
        return Err("""))

r("d-list-slice-let", "C09", (DI, """                let next_offset = read_offset(&bytes[(i * BYTES_PER_LENGTH_OFFSET)..])?;
                offset =""", """                let position = i * BYTES_PER_LENGTH_OFFSET;
                let next_offset = read_offset(&bytes[position..])?;
                offset ="""))

r("d-fixedbytes-else", "C04", (DI, """        if bytes.len() != N {
            return Err(DecodeError::InvalidByteLength {
                len: bytes.len(),
                expected: N,
            });
        }

        let mut fixed_array = [0u8; N];
        fixed_array.copy_from_slice(bytes);

        Ok(Self(fixed_array))""", """        let len = bytes.len();
        if len == N {
            let mut fixed_array = [0u8; N];
            fixed_array.copy_from_slice(bytes);
            Ok(Self(fixed_array))
        } else {
            Err(DecodeError::InvalidByteLength { len, expected: N })
        }"""))

r("d-arc-question", "C01", (DI, "        T::from_ssz_bytes(bytes).map(Arc::new)", "        let inner = T::from_ssz_bytes(bytes)?;\n        Ok(Arc::new(inner))"))

r("d-option-match-tuple", "C15", (DI, """        match selector.into() {
            0u8 if body.is_empty() => Ok(None),
            0u8 => Err(DecodeError::InvalidByteLength {
                len: bytes.len(),
                expected: BYTES_PER_UNION_SELECTOR,
            }),
            1u8 => <T as Decode>::from_ssz_bytes(body).map(Option::Some),
            other => Err(DecodeError::UnionSelectorInvalid(other)),
        }""", """        let selector: u8 = selector.into();
        match selector {
            0 => {
                if !body.is_empty() {
                    return Err(DecodeError::InvalidByteLength {
                        len: bytes.len(),
                        expected: BYTES_PER_UNION_SELECTOR,
                    });
                }
                Ok(None)
            }
            1 => {
                let inner = T::from_ssz_bytes(body)?;
                Ok(Some(inner))
            }
            other => Err(DecodeError::UnionSelectorInvalid(other)),
        }"""))

# --- encoder
r("e-append-if", "C10", (EN, """        if is_ssz_fixed_len {
            ssz_append(self.buf);
        } else {
            self.buf
                .extend_from_slice(&encode_length(self.offset + self.variable_bytes.len()));

            ssz_append(&mut self.variable_bytes);
        }""", """        if !is_ssz_fixed_len {
            let offset = self.offset + self.variable_bytes.len();
            self.buf.extend_from_slice(&encode_length(offset));
            ssz_append(&mut self.variable_bytes);
            return;
        }
        ssz_append(self.buf);"""))

r("e-finalize-extend", "C10", (EN, """        self.buf.append(&mut self.variable_bytes);

        self.buf""", """        self.buf.extend_from_slice(&self.variable_bytes);
        self.variable_bytes.clear();

        self.buf"""))

r("e-container-let", "C10", (EN, """        buf.reserve(num_fixed_bytes);

        Self {
            offset: num_fixed_bytes,
            buf,
            variable_bytes: vec![],
        }""", """        buf.reserve(num_fixed_bytes);
        let variable_bytes = Vec::new();

        Self {
            buf,
            offset: num_fixed_bytes,
            variable_bytes,
        }"""))

r("e-length-slice", "C03", (EN, """    bytes.copy_from_slice(&len.to_le_bytes()[0..BYTES_PER_LENGTH_OFFSET]);""", """    let le_bytes = len.to_le_bytes();
    bytes.copy_from_slice(&le_bytes[..BYTES_PER_LENGTH_OFFSET]);"""))

r("e-seq-len-let", "C07", (EI, """        let mut len = iter.map(|item| item.ssz_bytes_len()).sum();
        len += BYTES_PER_LENGTH_OFFSET * length;
        len""", """        let offsets_len = length * BYTES_PER_LENGTH_OFFSET;
        let items_len: usize = iter.map(|item| item.ssz_bytes_len()).sum();
        offsets_len + items_len"""))

r("e-seq-append-lets", "C10", (EI, """        let mut encoder = SszEncoder::container(buf, iter.len() * BYTES_PER_LENGTH_OFFSET);
""", """        let num_items = iter.len();
        let num_fixed_bytes = BYTES_PER_LENGTH_OFFSET * num_items;
        let mut encoder = SszEncoder::container(buf, num_fixed_bytes);
"""))

r("e-bool-push", "C03", (EI, "        buf.extend_from_slice(&(*self as u8).to_le_bytes());", "        buf.push(u8::from(*self));"))

r("e-bool-if", "C03", (EI, "        buf.extend_from_slice(&(*self as u8).to_le_bytes());", "        buf.push(if *self { 1 } else { 0 });"))

r("e-arc-deref", "C10", (EI, "        self.as_ref().ssz_append(buf)", "        let inner: &T = self;\n        inner.ssz_append(buf)"))

r("e-ref-star", "C10", (EI, "        T::ssz_append(self, buf)", "        (*self).ssz_append(buf)"))

# --- legacy, selectors, derive
r("l-len-match", "C17", (LG, """                    if let Some(some) = opt {
                        let len = if <$type as Encode>::is_ssz_fixed_len() {
                            <$type as Encode>::ssz_fixed_len()
                        } else {
                            <$type as Encode>::ssz_bytes_len(some)
                        };
                        len + BYTES_PER_LENGTH_OFFSET
                    } else {
                        BYTES_PER_LENGTH_OFFSET
                    }""", """                    match opt {
                        Some(some) => BYTES_PER_LENGTH_OFFSET + <$type as Encode>::ssz_bytes_len(some),
                        None => BYTES_PER_LENGTH_OFFSET,
                    }"""))

r("l-decode-match", "C17", (LG, """                    if index == 0 {
                        if !value_bytes.is_empty() {
                            return Err(DecodeError::InvalidByteLength {
                                len: bytes.len(),
                                expected: BYTES_PER_LENGTH_OFFSET,
                            });
                        }
                        Ok(None)
                    } else if index == 1 {
                        Ok(Some(<$type as ssz::Decode>::from_ssz_bytes(value_bytes)?))
                    } else {
                        Err(DecodeError::BytesInvalid(format!(
                            "{} is not a valid union index for Option<T>",
                            index
                        )))
                    }""", """                    match index {
                        0 if value_bytes.is_empty() => Ok(None),
                        0 => Err(DecodeError::InvalidByteLength {
                            len: bytes.len(),
                            expected: BYTES_PER_LENGTH_OFFSET,
                        }),
                        1 => <$type as ssz::Decode>::from_ssz_bytes(value_bytes).map(Some),
                        _ => Err(DecodeError::BytesInvalid(format!(
                            "{} is not a valid union index for Option<T>",
                            index
                        ))),
                    }"""))

r("l-append-iflet", "C17", (LG, """                    match opt {
                        None => buf.extend_from_slice(&legacy::encode_four_byte_union_selector(0)),
                        Some(t) => {
                            buf.extend_from_slice(&legacy::encode_four_byte_union_selector(1));
                            t.ssz_append(buf);
                        }
                    }""", """                    let selector = if opt.is_some() { 1 } else { 0 };
                    buf.extend_from_slice(&legacy::encode_four_byte_union_selector(selector));
                    if let Some(t) = opt {
                        t.ssz_append(buf);
                    }"""))

r("u-new-match", "C15", (US, """        Some(selector)
            .filter(|_| selector <= MAX_UNION_SELECTOR)
            .map(Self)
            .ok_or(DecodeError::UnionSelectorInvalid(selector))""", """        match selector {
            0..=MAX_UNION_SELECTOR => Ok(Self(selector)),
            _ => Err(DecodeError::UnionSelectorInvalid(selector)),
        }"""))

r("t-vec-collect", "C06", (TF, """        let iter = values.into_iter();
        let (_, opt_max_len) = iter.size_hint();
        let mut vec = Vec::with_capacity(opt_max_len.unwrap_or(0));
        vec.extend(iter);
        Ok(vec)""", """        let iter = values.into_iter();
        let capacity = iter.size_hint().1.unwrap_or(0);
        let mut vec = Vec::with_capacity(capacity);
        for item in iter {
            vec.push(item);
        }
        Ok(vec)"""))

r("v-append-lets", "C08", (D, """                let mut encoder = ssz::SszEncoder::container(buf, offset);

                #(""", """                let fixed_portion_len = offset;
                let mut encoder = ssz::SszEncoder::container(buf, fixed_portion_len);

                #("""))

r("v-bytes-len-offset", "C07", (D, """                            len = len
                                .checked_add(ssz::BYTES_PER_LENGTH_OFFSET)
                                .expect("encode ssz_bytes_len length overflow for offset");
                            len = len
                                .checked_add(#field_ssz_bytes_len)
                                .expect("encode ssz_bytes_len length overflow for bytes");""", """                            let field_len = #field_ssz_bytes_len;
                            len = len
                                .checked_add(field_len)
                                .and_then(|len| len.checked_add(ssz::BYTES_PER_LENGTH_OFFSET))
                                .expect("encode ssz_bytes_len length overflow for bytes");"""))

r("v-decode-len-let", "C04", (D, """                    if bytes.len() != <Self as ssz::Decode>::ssz_fixed_len() {
                        return Err(ssz::DecodeError::InvalidByteLength {
                            len: bytes.len(),
                            expected: <Self as ssz::Decode>::ssz_fixed_len(),
                        });
                    }
""", """                    let expected = <Self as ssz::Decode>::ssz_fixed_len();
                    if bytes.len() != expected {
                        return Err(ssz::DecodeError::InvalidByteLength {
                            len: bytes.len(),
                            expected,
                        });
                    }
"""))

r("v-tag-match-slice", "C08", (D, """                let byte = bytes
                    .first()
                    .copied()
                    .ok_or(ssz::DecodeError::OutOfBoundsByte { i: 0 })?;

                if bytes.len() != 1 {
                    return Err(ssz::DecodeError::InvalidByteLength {
                        len: bytes.len(),
                        expected: 1,
                    });
                }
""", """                if bytes.is_empty() {
                    return Err(ssz::DecodeError::OutOfBoundsByte { i: 0 });
                }
                if bytes.len() > 1 {
                    return Err(ssz::DecodeError::InvalidByteLength {
                        len: bytes.len(),
                        expected: 1,
                    });
                }
                let byte = bytes[0];
"""))

r("v-union-len-let", "C07", (D, """                        #patterns => #bytes_lens
                            .checked_add(1)
                            .expect("encoded length must be less than usize::max_value"),""", """                        #patterns => {
                            let inner_len = #bytes_lens;
                            inner_len
                                .checked_add(1)
                                .expect("encoded length must be less than usize::max_value")
                        },"""))
