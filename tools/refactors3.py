"""Still more edits that change no behaviour, most without a loop or closure (see refactors.py)."""
from refactors import r, S, D, DI, EI, DE, EN, BF, BD

LG, US, TF = S + "legacy.rs", S + "union_selector.rs", S + "decode/try_from_iter.rs"
GET = """            Ok(*byte & (1 << (i % 8)) > 0)"""
SET = """            if value {
                *byte |= 1 << (i % 8)
            } else {
                *byte &= !(1 << (i % 8))
            }

            Ok(())"""

r("c-get-shift-right", "C11 C12", (BF, GET, """            Ok((*byte >> (i % 8)) & 1 == 1)"""))
r("c-get-and-seven", "C11 C18", (BF, """                .get(i / 8)
                .ok_or(Error::OutOfBounds { i, len: self.len })?;

            Ok(*byte & (1 << (i % 8)) > 0)""", """                .get(i >> 3)
                .ok_or(Error::OutOfBounds { i, len: self.len })?;

            Ok(*byte & (1u8 << (i & 7)) != 0)"""))
r("c-set-and-seven", "C11", (BF, SET, """            let bit = 1u8 << (i & 0b111);
            *byte = if value { *byte | bit } else { *byte & !bit };
            Ok(())"""))
r("c-set-xor", "C11", (BF, SET, """            let mask: u8 = 1 << (i % 8);
            let is_set = *byte & mask != 0;
            if is_set != value {
                *byte ^= mask;
            }
            Ok(())"""))
r("c-bytelen-rounded", "C09 C16", (BF, "    std::cmp::max(1, bit_len.div_ceil(8))",
   "    (bit_len / 8 + usize::from(bit_len % 8 != 0)).max(1)"))
r("c-bytelen-match", "C14 C16", (BF, "    std::cmp::max(1, bit_len.div_ceil(8))", """    match bit_len.div_ceil(8) {
        0 => 1,
        n => n,
    }"""))
r("c-raw-index-last", "C09 C14", (BF, """            let (mask, _) = u8::MAX.overflowing_shr(8 - (bit_len as u32 % 8));

            if (bytes.last().expect("Guarded against empty bytes") & !mask) == 0 {""", """            let unused = (8 - bit_len % 8) % 8;
            let mask = 0xffu8 >> unused;
            let last = bytes[bytes.len() - 1];
            let excess = last & !mask;

            if excess == 0 {"""))
r("c-raw-shifted-out", "C09 C14", (BF, """            let (mask, _) = u8::MAX.overflowing_shr(8 - (bit_len as u32 % 8));

            if (bytes.last().expect("Guarded against empty bytes") & !mask) == 0 {""", """            let last = *bytes.last().expect("Guarded against empty bytes");
            let used = bit_len % 8;

            if used == 0 || last >> used == 0 {"""))
r("c-frombytes-bytelen", "C09", (BF, """        if len / 8 + 1 != bytes_len {
            return Err(Error::InvalidByteCount {
                given: bytes_len,
                expected: len / 8 + 1,
            });
        }""", """        let expected = bytes_for_bit_len(len + 1);
        if bytes_len != expected {
            return Err(Error::InvalidByteCount {
                given: bytes_len,
                expected,
            });
        }"""))
r("c-frombytes-empty", "C09", (BF, """        let bytes_len = bytes.len();
        let mut initial_bitfield""", """        if bytes.is_empty() {
            return Err(Error::ExcessBits);
        }
        let bytes_len = bytes.len();
        let mut initial_bitfield"""))
r("c-intobytes-direct", "C09 C10", (BF, """        let mut bitfield: Bitfield<Variable<N>> = Bitfield::from_raw_bytes(bytes, len + 1)
            .unwrap_or_else(|_| {
                unreachable!(
                    "Bitfield with {} bytes must have enough capacity for {} bits.",
                    bytes_for_bit_len(len + 1),
                    len + 1
                )
            });
        bitfield
            .set(len, true)
            .expect("len must be in bounds for bitfield.");

        bitfield.bytes""", """        bytes[len / 8] |= 1 << (len % 8);
        bytes"""))
r("c-bitlist-len-formula", "C10 C16", (BF, "        self.clone().into_bytes().len()", "        self.len / 8 + 1"))
r("c-bitlist-len-fn", "C10", (BF, "        self.clone().into_bytes().len()", "        bytes_for_bit_len(self.len() + 1)"))
r("c-vector-append-slice", "C10", (BF, """    fn ssz_fixed_len() -> usize {
        bytes_for_bit_len(N::to_usize())
    }

    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(&self.clone().into_bytes())""", """    fn ssz_fixed_len() -> usize {
        bytes_for_bit_len(Self::capacity())
    }

    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(self.as_slice())"""))
r("c-difference-own", "C12", (BF, """        let mut result = self.clone();
        result.difference_inplace(other);
        result""", """        let mut remaining = self.clone();
        remaining.difference_inplace(other);
        let result = remaining;
        result"""))
r("c-subset-intersection", "C12", (BF, """    pub fn is_subset(&self, other: &Self) -> bool {
        self.difference(other).is_zero()
    }
}

impl<N: Unsigned + Clone> std::fmt::Display""", """    pub fn is_subset(&self, other: &Self) -> bool {
        self.intersection(other) == *self
    }
}

impl<N: Unsigned + Clone> std::fmt::Display"""))
r("c-union-get-match", "C12", (BF, """        let max_len = std::cmp::max(self.len(), other.len());
        let mut result = Self::with_capacity(max_len).expect("max len always less than N");""", """        let (a, b) = (self.len(), other.len());
        let mut result =
            Self::with_capacity(if a < b { b } else { a }).expect("max len always less than N");"""))
r("c-eq-slices", "C13 C12", (BF, "self.len == other.len && self.bytes == other.bytes", "self.len == other.len && self.as_slice_of() == other.as_slice_of()"),
  (BF, """fn bytes_for_bit_len(""", """impl<T> Bitfield<T> {
    fn as_slice_of(&self) -> &[u8] {
        &self.bytes
    }
}

fn bytes_for_bit_len("""))
r("c-iter-get-match", "C18", (BF, """        let res = self.bitfield.get(self.i).ok()?;
        self.i += 1;
        Some(res)""", """        match self.bitfield.get(self.i) {
            Ok(bit) => {
                self.i += 1;
                Some(bit)
            }
            Err(_) => None,
        }"""))
r("c-resize-guard", "C16 C18", (BF, """        let mut resized = Bitfield::<Variable<M>>::with_capacity(M::to_usize())?;
""", """        let capacity = Bitfield::<Variable<M>>::max_len();
        let mut resized: Bitfield<Variable<M>> = Bitfield::with_capacity(capacity)?;
"""))
r("c-dyn-new-mod", "C14", (BD, """        if len % 8 != 0 {
            return""", """        if len & 7 != 0 {
            return"""))
r("c-dyn-decode-slice", "C14", (BD, """        if bytes.is_empty() {
            return Err(DecodeError::BytesInvalid("Empty bytes".into()));
        }

        let len = bytes.len() * 8;
        Self::from_raw_bytes(bytes.to_smallvec(), len).map_err(|e| {
            DecodeError::BytesInvalid(format!("BitVectorDynamic failed to decode: {:?}", e))
        })""", """        let len = bytes.len() * 8;
        if len == 0 {
            return Err(DecodeError::BytesInvalid("Empty bytes".to_string()));
        }

        match Self::from_raw_bytes(bytes.to_smallvec(), len) {
            Ok(bitfield) => Ok(bitfield),
            Err(e) => Err(DecodeError::BytesInvalid(format!(
                "BitVectorDynamic failed to decode: {:?}",
                e
            ))),
        }"""))
r("c-dyn-withlen-div", "C14", (BD, """        if len != bytes.len() * 8 {""", """        let bits = bytes.len() * 8;
        if bits != len {"""))
r("c-decode-offset-bytes", "C05 C06", (DE, """        let mut array: [u8; BYTES_PER_LENGTH_OFFSET] = std::default::Default::default();
        array.clone_from_slice(bytes);

        Ok(u32::from_le_bytes(array) as usize)""", """        let mut array = [0u8; BYTES_PER_LENGTH_OFFSET];
        array.copy_from_slice(bytes);
        let offset = u32::from_le_bytes(array);

        Ok(offset as usize)"""))
r("c-read-offset-guard", "C05 C06", (DE, """    decode_offset(bytes.get(0..BYTES_PER_LENGTH_OFFSET).ok_or(
        DecodeError::InvalidLengthPrefix {
            len: bytes.len(),
            expected: BYTES_PER_LENGTH_OFFSET,
        },
    )?)""", """    if bytes.len() < BYTES_PER_LENGTH_OFFSET {
        return Err(DecodeError::InvalidLengthPrefix {
            len: bytes.len(),
            expected: BYTES_PER_LENGTH_OFFSET,
        });
    }
    decode_offset(&bytes[..BYTES_PER_LENGTH_OFFSET])"""))
r("c-split-union-pattern", "C17", (DE, """    let selector = bytes
        .first()
        .copied()
        .ok_or(DecodeError::OutOfBoundsByte { i: 0 })
        .and_then(UnionSelector::new)?;
    let body = bytes
        .get(1..)
        .ok_or(DecodeError::OutOfBoundsByte { i: 1 })?;
    Ok((selector, body))""", """    match bytes {
        [] => Err(DecodeError::OutOfBoundsByte { i: 0 }),
        [selector, body @ ..] => Ok((UnionSelector::new(*selector)?, body)),
    }"""))
r("c-decoder-direct", "C04 C06", (DE, """        self.decode_next_with(|slice| T::from_ssz_bytes(slice))""", """        let slice = self.items.remove(0);
        T::from_ssz_bytes(slice)"""))
r("c-selector-guard", "C17", (US, """        Some(selector)
            .filter(|_| selector <= MAX_UNION_SELECTOR)
            .map(Self)
            .ok_or(DecodeError::UnionSelectorInvalid(selector))""", """        if selector > MAX_UNION_SELECTOR {
            return Err(DecodeError::UnionSelectorInvalid(selector));
        }
        Ok(UnionSelector(selector))"""))
r("c-selector-thensome", "C17", (US, """        Some(selector)
            .filter(|_| selector <= MAX_UNION_SELECTOR)
            .map(Self)
            .ok_or(DecodeError::UnionSelectorInvalid(selector))""", """        (selector <= MAX_UNION_SELECTOR)
            .then_some(Self(selector))
            .ok_or(DecodeError::UnionSelectorInvalid(selector))"""))
r("c-option-order", "C02 C17", (DI, """        let (selector, body) = split_union_bytes(bytes)?;
        match selector.into() {
            0u8 if body.is_empty() => Ok(None),
            0u8 => Err(DecodeError::InvalidByteLength {
                len: bytes.len(),
                expected: BYTES_PER_UNION_SELECTOR,
            }),
            1u8 => <T as Decode>::from_ssz_bytes(body).map(Option::Some),
            other => Err(DecodeError::UnionSelectorInvalid(other)),
        }""", """        let (selector, body) = split_union_bytes(bytes)?;
        let selector: u8 = selector.into();
        if selector > 1 {
            return Err(DecodeError::UnionSelectorInvalid(selector));
        }
        if selector == 1 {
            return Ok(Some(T::from_ssz_bytes(body)?));
        }
        if !body.is_empty() {
            return Err(DecodeError::InvalidByteLength {
                len: bytes.len(),
                expected: BYTES_PER_UNION_SELECTOR,
            });
        }
        Ok(None)"""))
r("c-option-len-plus", "C03", (EI, """            Option::None => 1usize,
            Option::Some(ref inner) => inner
                .ssz_bytes_len()
                .checked_add(1)
                .expect("encoded length must be less than usize::max_value"),""", """            None => BYTES_PER_UNION_SELECTOR,
            Some(inner) => inner
                .ssz_bytes_len()
                .checked_add(BYTES_PER_UNION_SELECTOR)
                .expect("encoded length must be less than usize::max_value"),"""))
r("c-seq-len-early", "C03", (EI, """    let length = iter.len();
    if <T as Encode>::is_ssz_fixed_len() {
        <T as Encode>::ssz_fixed_len() * length
    } else {
        let mut len = iter.map(|item| item.ssz_bytes_len()).sum();
        len += BYTES_PER_LENGTH_OFFSET * length;
        len
    }""", """    let length = iter.len();
    if <T as Encode>::is_ssz_fixed_len() {
        return length * <T as Encode>::ssz_fixed_len();
    }
    let offsets = length * BYTES_PER_LENGTH_OFFSET;
    let items: usize = iter.map(|item| item.ssz_bytes_len()).sum();
    offsets + items"""))
r("c-arc-deref-star", "C10", (EI, """        self.as_ref().ssz_append(buf)
    }

    fn ssz_bytes_len(&self) -> usize {
        self.as_ref().ssz_bytes_len()""", """        T::ssz_append(self.as_ref(), buf)
    }

    fn ssz_bytes_len(&self) -> usize {
        T::ssz_bytes_len(self.as_ref())"""))
r("c-encode-length-index", "C03 C15", (EN, """    let mut bytes = [0; BYTES_PER_LENGTH_OFFSET];
    bytes.copy_from_slice(&len.to_le_bytes()[0..BYTES_PER_LENGTH_OFFSET]);
    bytes""", """    let le = len.to_le_bytes();
    [le[0], le[1], le[2], le[3]]"""))
r("c-encoder-offset-let", "C04", (EN, """            self.buf
                .extend_from_slice(&encode_length(self.offset + self.variable_bytes.len()));
""", """            let position = self.variable_bytes.len() + self.offset;
            let offset = encode_length(position);
            self.buf.extend_from_slice(&offset[..]);
"""))
r("c-encoder-take", "C04 C10", (EN, """        self.buf.append(&mut self.variable_bytes);

        self.buf""", """        let mut tail = std::mem::take(&mut self.variable_bytes);
        self.buf.append(&mut tail);
        self.buf"""))
r("c-asbytes-exact", "C10", (EN, """        let mut buf = vec![];

        self.ssz_append(&mut buf);

        buf""", """        let mut buf = Vec::with_capacity(self.ssz_bytes_len());
        self.ssz_append(&mut buf);
        buf"""))
r("c-bool-num", "C02 C06", (DI, """            match bytes[0] {
                0b0000_0000 => Ok(false),
                0b0000_0001 => Ok(true),
                _ => Err(DecodeError::BytesInvalid(format!(
                    "Out-of-range for boolean: {}",
                    bytes[0]
                ))),
            }""", """            let byte = bytes[0];
            if byte > 1 {
                return Err(DecodeError::BytesInvalid(format!(
                    "Out-of-range for boolean: {}",
                    byte
                )));
            }
            Ok(byte == 1)"""))
r("c-uint-tryinto", "C02 C06", (DI, """                    let mut array: [u8; $bit_size / 8] = std::default::Default::default();
                    array.clone_from_slice(bytes);

                    Ok(Self::from_le_bytes(array))""", """                    let mut array = [0u8; $bit_size / 8];
                    array.copy_from_slice(bytes);

                    Ok(<$type>::from_le_bytes(array))"""))
r("c-legacy-len", "C03", (LG, """                        let len = if <$type as Encode>::is_ssz_fixed_len() {
                            <$type as Encode>::ssz_fixed_len()
                        } else {
                            <$type as Encode>::ssz_bytes_len(some)
                        };
                        len + BYTES_PER_LENGTH_OFFSET""", """                        BYTES_PER_LENGTH_OFFSET + <$type as Encode>::ssz_bytes_len(some)"""))
r("c-legacy-split", "C02", (LG, """                    let (index_bytes, value_bytes) = bytes.split_at(BYTES_PER_LENGTH_OFFSET);
""", """                    let index_bytes = &bytes[..BYTES_PER_LENGTH_OFFSET];
                    let value_bytes = &bytes[BYTES_PER_LENGTH_OFFSET..];
"""))
r("c-register-end", "C05", (DE, """            let start = self.items_index;
            self.items_index = start.saturating_add(ssz_fixed_len);

            let slice =
                self.bytes
                    .get(start..self.items_index)
                    .ok_or(DecodeError::InvalidByteLength {
                        len: self.bytes.len(),
                        expected: self.items_index,
                    })?;

            self.items.push(slice);""", """            let start = self.items_index;
            let end = start.saturating_add(ssz_fixed_len);
            self.items_index = end;

            if end > self.bytes.len() {
                return Err(DecodeError::InvalidByteLength {
                    len: self.bytes.len(),
                    expected: end,
                });
            }

            self.items.push(&self.bytes[start..end]);"""))

# names
r("n-set-params", "C11", (BF, """    pub fn set(&mut self, i: usize, value: bool) -> Result<(), Error> {
        let len = self.len;

        if i < len {
            let byte = self
                .bytes
                .get_mut(i / 8)
                .ok_or(Error::OutOfBounds { i, len })?;

            if value {
                *byte |= 1 << (i % 8)
            } else {
                *byte &= !(1 << (i % 8))
            }

            Ok(())
        } else {
            Err(Error::OutOfBounds { i, len: self.len })""", """    pub fn set(&mut self, index: usize, bit: bool) -> Result<(), Error> {
        let num_bits = self.len;

        if index < num_bits {
            let byte = self
                .bytes
                .get_mut(index / 8)
                .ok_or(Error::OutOfBounds { i: index, len: num_bits })?;

            if bit {
                *byte |= 1 << (index % 8)
            } else {
                *byte &= !(1 << (index % 8))
            }

            Ok(())
        } else {
            Err(Error::OutOfBounds { i: index, len: self.len })"""))
r("n-union-locals", "C12", (BF, """        let max_len = std::cmp::max(self.len(), other.len());
        let mut result = Self::with_capacity(max_len).expect("max len always less than N");
        for i in 0..result.bytes.len() {
            result.bytes[i] =
                self.bytes.get(i).copied().unwrap_or(0) | other.bytes.get(i).copied().unwrap_or(0);
        }
        result""", """        let longer = std::cmp::max(self.len(), other.len());
        let mut both = Self::with_capacity(longer).expect("max len always less than N");
        for k in 0..both.bytes.len() {
            both.bytes[k] =
                self.bytes.get(k).copied().unwrap_or(0) | other.bytes.get(k).copied().unwrap_or(0);
        }
        both"""))
r("n-frombytes-locals", "C09", (BF, """    pub fn from_bytes(bytes: SmallVec<[u8; SMALLVEC_LEN]>) -> Result<Self, Error> {
        let bytes_len = bytes.len();
        let mut initial_bitfield: Bitfield<Variable<N>> = {
            let num_bits = bytes.len() * 8;
            Bitfield::from_raw_bytes(bytes, num_bits)?
        };

        let len = initial_bitfield
            .highest_set_bit()
            .ok_or(Error::MissingLengthInformation)?;

        // The length bit should be in the last byte, or else it means we have too many bytes.
        if len / 8 + 1 != bytes_len {
            return Err(Error::InvalidByteCount {
                given: bytes_len,
                expected: len / 8 + 1,
            });
        }

        if len <= Self::max_len() {
            initial_bitfield
                .set(len, false)
                .expect("Bit has been confirmed to exist");

            let mut bytes = initial_bitfield.into_raw_bytes();

            bytes.truncate(bytes_for_bit_len(len));

            Self::from_raw_bytes(bytes, len)""", """    pub fn from_bytes(encoded: SmallVec<[u8; SMALLVEC_LEN]>) -> Result<Self, Error> {
        let bytes_len = encoded.len();
        let mut delimited: Bitfield<Variable<N>> = {
            let num_bits = encoded.len() * 8;
            Bitfield::from_raw_bytes(encoded, num_bits)?
        };

        let len = delimited
            .highest_set_bit()
            .ok_or(Error::MissingLengthInformation)?;

        // The length bit should be in the last byte, or else it means we have too many bytes.
        if len / 8 + 1 != bytes_len {
            return Err(Error::InvalidByteCount {
                given: bytes_len,
                expected: len / 8 + 1,
            });
        }

        if len <= Self::max_len() {
            delimited
                .set(len, false)
                .expect("Bit has been confirmed to exist");

            let mut raw = delimited.into_raw_bytes();

            raw.truncate(bytes_for_bit_len(len));

            Self::from_raw_bytes(raw, len)"""))
r("n-list-names", "C06 C02", (DI, """    let mut offset = first_offset;
    process_results(
        (1..=num_items).map(|i| {
            let slice_option = if i == num_items {
                bytes.get(offset..)
            } else {
                let start = offset;

                let next_offset = read_offset(&bytes[(i * BYTES_PER_LENGTH_OFFSET)..])?;
                offset =
                    sanitize_offset(next_offset, Some(offset), bytes.len(), Some(first_offset))?;

                bytes.get(start..offset)
            };

            let slice = slice_option.ok_or(DecodeError::OutOfBoundsByte { i: offset })?;
            T::from_ssz_bytes(slice)""", """    let mut cursor = first_offset;
    process_results(
        (1..=num_items).map(|k| {
            let item_bytes = if k == num_items {
                bytes.get(cursor..)
            } else {
                let begin = cursor;

                let following = read_offset(&bytes[(k * BYTES_PER_LENGTH_OFFSET)..])?;
                cursor =
                    sanitize_offset(following, Some(cursor), bytes.len(), Some(first_offset))?;

                bytes.get(begin..cursor)
            };

            let item = item_bytes.ok_or(DecodeError::OutOfBoundsByte { i: cursor })?;
            T::from_ssz_bytes(item)"""))
r("n-sanitize-params", "C05 C06", (DE, """    offset: usize,
    previous_offset: Option<usize>,
    num_bytes: usize,
    num_fixed_bytes: Option<usize>,
) -> Result<usize, DecodeError> {
    if num_fixed_bytes.is_some_and(|fixed_bytes| offset < fixed_bytes) {
        Err(DecodeError::OffsetIntoFixedPortion(offset))
    } else if previous_offset.is_none()
        && num_fixed_bytes.is_some_and(|fixed_bytes| offset != fixed_bytes)
    {
        Err(DecodeError::OffsetSkipsVariableBytes(offset))
    } else if offset > num_bytes {
        Err(DecodeError::OffsetOutOfBounds(offset))
    } else if previous_offset.is_some_and(|prev| prev > offset) {
        Err(DecodeError::OffsetsAreDecreasing(offset))
    } else {
        Ok(offset)""", """    current: usize,
    previous: Option<usize>,
    total: usize,
    fixed: Option<usize>,
) -> Result<usize, DecodeError> {
    if fixed.is_some_and(|f| current < f) {
        Err(DecodeError::OffsetIntoFixedPortion(current))
    } else if previous.is_none() && fixed.is_some_and(|f| current != f) {
        Err(DecodeError::OffsetSkipsVariableBytes(current))
    } else if current > total {
        Err(DecodeError::OffsetOutOfBounds(current))
    } else if previous.is_some_and(|prev| prev > current) {
        Err(DecodeError::OffsetsAreDecreasing(current))
    } else {
        Ok(current)"""))
r("n-seq-append-names", "C03", (EI, """pub fn sequence_ssz_append<I, T>(iter: I, buf: &mut Vec<u8>)
where
    I: Iterator<Item = T> + ExactSizeIterator,
    T: Encode,
{
    if T::is_ssz_fixed_len() {
        buf.reserve(T::ssz_fixed_len() * iter.len());

        for item in iter {
            item.ssz_append(buf);
        }
    } else {
        let mut encoder = SszEncoder::container(buf, iter.len() * BYTES_PER_LENGTH_OFFSET);

        for item in iter {
            encoder.append(&item);
        }

        encoder.finalize();
    }""", """pub fn sequence_ssz_append<I, T>(items: I, out: &mut Vec<u8>)
where
    I: Iterator<Item = T> + ExactSizeIterator,
    T: Encode,
{
    if T::is_ssz_fixed_len() {
        out.reserve(T::ssz_fixed_len() * items.len());

        for element in items {
            element.ssz_append(out);
        }
    } else {
        let mut container = SszEncoder::container(out, items.len() * BYTES_PER_LENGTH_OFFSET);

        for element in items {
            container.append(&element);
        }

        container.finalize();
    }"""))
r("n-tuple-names", "C04 C07", (EI, """                fn ssz_append(&self, buf: &mut Vec<u8>) {
                    let offset = $(""", """                fn ssz_append(&self, out: &mut Vec<u8>) {
                    let offset = $("""),
  (EI, """                    let mut encoder = SszEncoder::container(buf, offset);

                    $(
                        encoder.append(&self.$idx);
                    )*

                    encoder.finalize();""", """                    let mut enc = SszEncoder::container(out, offset);

                    $(
                        enc.append(&self.$idx);
                    )*

                    enc.finalize();"""))
