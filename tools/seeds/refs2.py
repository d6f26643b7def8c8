"""A second batch of edits that keep the behaviour, in other styles: refs2.py [id]... (see refs.py)."""
import refs
from refs import ref, L
refs.R.clear()
T = 'src/tables/'
E1 = T + 'glyph_positioning/element.rs'
P = T + 'glyph_positioning/mod.rs'
S = T + 'glyph_substitution/mod.rs'
COV = '''        Ok(match tape.peek::<u16>()? {
            1 => Coverage::Format1(tape.take()?),
            2 => Coverage::Format2(tape.take()?),
            value => raise!("found an unknown format of the glyph coverage ({value})"),
        })
'''
ref('coverage-const', 'C12', (L+'coverage.rs', COV, '''        const FORMAT1: u16 = 1;
        const FORMAT2: u16 = 2;
        match tape.peek::<u16>()? {
            FORMAT1 => Ok(Coverage::Format1(tape.take()?)),
            FORMAT2 => Ok(Coverage::Format2(tape.take()?)),
            value => raise!("found an unknown format of the glyph coverage ({value})"),
        }
'''))
ref('coverage-guard', 'C12', (L+'coverage.rs', COV, '''        let format = tape.peek::<u16>()?;
        if !(1..=2).contains(&format) {
            raise!("found an unknown format of the glyph coverage ({format})");
        }
        if format == 1 {
            return tape.take().map(Coverage::Format1);
        }
        tape.take().map(Coverage::Format2)
'''))
ref('class-matches', 'C12', (L+'class.rs', '''        Ok(match tape.peek::<u16>()? {
            1 => Class::Format1(tape.take()?),
            2 => Class::Format2(tape.take()?),
            value => raise!("found an unknown format of the glyph class ({value})"),
        })
''', '''        let format: u16 = tape.peek()?;
        if !matches!(format, 1 | 2) {
            raise!("found an unknown format of the glyph class ({format})");
        }
        Ok(match format {
            1 => Class::Format1(tape.take()?),
            _ => Class::Format2(tape.take()?),
        })
'''))
ref('class1-loop', 'C12', (L+'class.rs', '''            tape.take_given(this.glyph_count as usize)
        },
''', '''            let mut indices = Vec::with_capacity(this.glyph_count as usize);
            for _ in 0..this.glyph_count {
                indices.push(tape.take::<u16>()?);
            }
            Ok(indices)
        },
'''))
ref('class2-repeat', 'C12', (L+'class.rs', '''            tape.take_given(this.record_count as usize)
''', '''            (0..this.record_count).map(|_| tape.take()).collect()
'''))
ref('caret-tuple', 'C18', (T+'glyph_definition/element.rs', '''        Ok(match tape.peek::<u16>()? {
            1 => Self::Format1(tape.take()?),
''', '''        let (format, _) = tape.peek::<(u16, u16)>()?;
        Ok(match format {
            1 => Self::Format1(tape.take()?),
'''))
ref('correction-peek', 'C14', (L+'correction.rs', '''        Ok(match tape.peek::<(u32, u16)>()?.1 {
            1..=3 =>''', '''        let (_, format) = tape.peek::<(u32, u16)>()?;
        Ok(match format {
            1 | 2 | 3 =>'''))
ref('correction-nested', 'C14', (L+'correction.rs', '''        Ok(match tape.peek::<(u32, u16)>()?.1 {''', '''        let ((_, _), format) = tape.peek::<((u16, u16), u16)>()?;
        Ok(match format {'''))
ref('device-div', 'C14', (L+'correction.rs', "let format = tape.take()?;", "let format: u16 = tape.take()?;"), (L+'correction.rs', '''        let bit_count = (1 << format as usize) * count;
        let short_count = (bit_count + 15) >> 4;
        let deltas = tape.take_given(short_count)?;
''', '''        let bit_count: usize = count << format;
        let deltas = tape.take_given(bit_count.div_ceil(16))?;
'''))
ref('device-pow', 'C14', (L+'correction.rs', '''        let bit_count = (1 << format as usize) * count;
        let short_count = (bit_count + 15) >> 4;
''', '''        let bit_count = 2usize.pow(u32::from(format)) * count;
        let short_count = bit_count / 16 + usize::from(bit_count % 16 != 0);
'''))
ref('device-match', 'C14', (L+'correction.rs', '''        if format == 0 || format > 3 {
            raise!("found an unknown format of the device correction ({format})");
        }
''', '''        match format {
            1..=3 => {}
            _ => raise!("found an unknown format of the device correction ({format})"),
        }
'''))
ref('device-range', 'C14', (L+'correction.rs', '''        let start_size = tape.take()?;
        let end_size = tape.take()?;
        if start_size > end_size {
            raise!("found a malformed device correction");
        }
''', '''        let (start_size, end_size) = tape.take::<(u16, u16)>()?;
        let range = match u16::checked_sub(end_size, start_size) {
            Some(range) => range,
            None => raise!("found a malformed device correction"),
        };
'''), (L+'correction.rs', '''        let count = (end_size - start_size) as usize + 1;
''', '''        let count = usize::from(range) + 1;
'''))
ref('lookups-map', 'C11', (L+'lookup.rs', '''        let count = tape.take::<u16>()?;
        let offsets: Vec<u16> = tape.take_given(count as usize)?;
        let records = jump_take!(@unwrap tape, position, count, offsets);
''', '''        let count: u16 = tape.take()?;
        let offsets = tape.take_given::<Vec<u16>>(usize::from(count))?;
        let records = offsets
            .iter()
            .map(|offset| {
                tape.jump(position + u64::from(*offset))?;
                tape.take()
            })
            .collect::<Result<Vec<_>>>()?;
'''))
ref('lookups-for', 'C11', (L+'lookup.rs', '''        let records = jump_take!(@unwrap tape, position, count, offsets);
''', '''        let mut records = Vec::with_capacity(offsets.len());
        for &offset in &offsets {
            tape.jump(position + offset as u64)?;
            records.push(tape.take::<Record<U>>()?);
        }
'''))
ref('record-then', 'C11', (L+'lookup.rs', '''        let mark_filtering_set = if flags.has_mark_filtering() {
            Some(tape.take()?)
        } else {
            None
        };
''', '''        let mark_filtering_set = flags
            .has_mark_filtering()
            .then(|| tape.take())
            .transpose()?;
'''))
ref('record-mut', 'C11', (L+'lookup.rs', '''        let mark_filtering_set = if flags.has_mark_filtering() {
            Some(tape.take()?)
        } else {
            None
        };
''', '''        let mut mark_filtering_set = None;
        if flags.has_mark_filtering() {
            mark_filtering_set = Some(tape.take()?);
        }
'''))
ref('record-mask', 'C11', (L+'lookup.rs', '''if flags.has_mark_filtering() {''', '''if flags.0 & 0x0010 != 0 {'''))
ref('lookup-list-helper', 'C11', (L+'lookup.rs', '''        let count = tape.take::<u16>()?;
        let offsets: Vec<u16> = tape.take_given(count as usize)?;
        let records =''', '''        let (count, offsets) = take_offsets(tape)?;
        let records ='''), (L+'lookup.rs', '''        let table_count = tape.take::<u16>()?;
        let table_offsets: Vec<u16> = tape.take_given(table_count as usize)?;
''', '''        let (table_count, table_offsets) = take_offsets(tape)?;
'''), (L+'lookup.rs', '''impl<U> crate::value::Read for Lookups<U>''', '''fn take_offsets<T: crate::tape::Read>(tape: &mut T) -> Result<(u16, Vec<u16>)> {
    let count = tape.take::<u16>()?;
    let offsets = tape.take_given(count as usize)?;
    Ok((count, offsets))
}

impl<U> crate::value::Read for Lookups<U>'''))
ref('directory-early', 'C07', (L+'directory.rs', '''        match (major_version, minor_version) {
            (1, 0) | (1, 1) => {}
            value => raise!("found an unknown version of the directory table {value:?}"),
        }
''', '''        if major_version != 1 || minor_version > 1 {
            raise!("found an unknown version of the directory table {major_version}.{minor_version}");
        }
'''), (L+'directory.rs', '''        let major_version = tape.take()?;
        let minor_version = tape.take()?;
''', '''        let major_version: u16 = tape.take()?;
        let minor_version: u16 = tape.take()?;
'''))
ref('directory-bool', 'C07', (L+'directory.rs', '''        match (major_version, minor_version) {
            (1, 0) | (1, 1) => {}
            value => raise!("found an unknown version of the directory table {value:?}"),
        }
''', '''        let varies = match (major_version, minor_version) {
            (1, 0) => false,
            (1, 1) => true,
            value => raise!("found an unknown version of the directory table {value:?}"),
        };
'''), (L+'directory.rs', '''        let variation_offset = match (major_version, minor_version) {
            (1, 1) => tape.take()?,
            _ => 0,
        };
''', '''        let variation_offset: u32 = if varies { tape.take()? } else { 0 };
'''))
ref('directory-if-let', 'C07', (L+'directory.rs', '''        let variations = jump_take_maybe!(@unwrap tape, position, variation_offset);
''', '''        let variations = if variation_offset != 0 {
            tape.jump(position + u64::from(variation_offset))?;
            Some(tape.take::<Variations>()?)
        } else {
            None
        };
'''))
ref('exists-find', 'C04', ('src/font.rs', '''        self.offsets.records.iter().any(|record| record.tag == tag)
''', '''        self.offsets.records.iter().find(|record| record.tag == tag).is_some()
'''))
ref('exists-loop', 'C04', ('src/font.rs', '''        self.offsets.records.iter().any(|record| record.tag == tag)
''', '''        for record in self.offsets.records.iter() {
            if record.tag == tag {
                return true;
            }
        }
        false
'''))
ref('exists-all', 'C04', ('src/font.rs', '''        self.offsets.records.iter().any(|record| record.tag == tag)
''', '''        !self.offsets.records.iter().all(|record| record.tag != tag)
'''))
ref('exists-position', 'C04', ('src/font.rs', '''        self.offsets.records.iter().any(|record| record.tag == tag)
''', '''        self.offsets
            .records
            .iter()
            .position(|record| tag == record.tag)
            .is_some()
'''))
ref('exists-find-helper', 'C04 C05', ('src/font.rs', '''        self.offsets.records.iter().any(|record| record.tag == tag)
    }
''', '''        self.find(&tag).is_some()
    }

    fn find(&self, tag: &truetype::Tag) -> Option<&truetype::tables::offsets::Record> {
        self.offsets.records.iter().find(|record| &record.tag == tag)
    }
'''), ('src/font.rs', '''        for record in &self.offsets.records {
            if record.tag == tag {
                #[cfg(not(feature = "ignore-invalid-checksums"))]
                if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
                    raise!("found a malformed font table with {:?}", record.tag);
                }
                Read::jump(tape, record.offset as u64)?;
                return Ok(Some(()));
            }
        }
        Ok(None)
''', '''        let record = match self.find(&tag) {
            Some(record) => record,
            None => return Ok(None),
        };
        #[cfg(not(feature = "ignore-invalid-checksums"))]
        if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
            raise!("found a malformed font table with {:?}", record.tag);
        }
        Read::jump(tape, record.offset as u64)?;
        Ok(Some(()))
'''))
POS = '''        for record in &self.offsets.records {
            if record.tag == tag {
                #[cfg(not(feature = "ignore-invalid-checksums"))]
                if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
                    raise!("found a malformed font table with {:?}", record.tag);
                }
                Read::jump(tape, record.offset as u64)?;
                return Ok(Some(()));
            }
        }
        Ok(None)
'''
ref('position-let-else', 'C04 C05', ('src/font.rs', POS, '''        let Some(record) = self.offsets.records.iter().find(|record| record.tag == tag) else {
            return Ok(None);
        };
        #[cfg(not(feature = "ignore-invalid-checksums"))]
        {
            if record.size > u32::MAX - 4 {
                raise!("found a malformed font table with {:?}", record.tag);
            }
            let checksum = record.checksum(tape)?;
            if checksum != record.checksum {
                raise!("found a malformed font table with {:?}", record.tag);
            }
        }
        tape.jump(u64::from(record.offset))?;
        Ok(Some(()))
'''))
ref('position-filter', 'C04 C05', ('src/font.rs', POS, '''        if let Some(record) = self.offsets.records.iter().filter(|record| record.tag == tag).next() {
            #[cfg(not(feature = "ignore-invalid-checksums"))]
            if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
                raise!("found a malformed font table with {:?}", record.tag);
            }
            Read::jump(tape, record.offset as u64)?;
            Ok(Some(()))
        } else {
            Ok(None)
        }
'''))
ref('position-index', 'C04 C05', ('src/font.rs', POS, '''        let records = &self.offsets.records;
        let mut index = 0;
        while index < records.len() && records[index].tag != tag {
            index += 1;
        }
        if index == records.len() {
            return Ok(None);
        }
        let record = &records[index];
        #[cfg(not(feature = "ignore-invalid-checksums"))]
        if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
            raise!("found a malformed font table with {:?}", record.tag);
        }
        Read::jump(tape, record.offset as u64)?;
        Ok(Some(()))
'''))
ref('take-match', 'C04 C05', ('src/font.rs', '''        self.position::<T, U>(tape)?
            .map(|_| tape.take::<U>())
            .transpose()
''', '''        match self.position::<T, U>(tape)? {
            Some(()) => Ok(Some(tape.take::<U>()?)),
            None => Ok(None),
        }
'''))
ref('take-question', 'C04 C05', ('src/font.rs', '''        self.position::<T, U>(tape)?
            .map(|_| tape.take_given::<U>(parameter))
            .transpose()
''', '''        if self.position::<T, U>(tape)?.is_none() {
            return Ok(None);
        }
        tape.take_given::<U>(parameter).map(Some)
'''))
ref('take-and-then', 'C04 C05', ('src/font.rs', '''        self.position::<T, U>(tape)?
            .map(|_| tape.take::<U>())
            .transpose()
''', '''        let found = self.position::<T, U>(tape)?;
        let Some(()) = found else { return Ok(None) };
        tape.take::<U>().map(Some)
'''))
ref('file-let', 'C06', ('src/file.rs', '''        if &Read::peek::<Tag>(tape)?.0 == b"ttcf" {
            raise!("found a TrueType collection, which is not supported yet");
        }
        Ok(File {
            fonts: vec![Font::read(tape)?],
        })
''', '''        let tag: Tag = Read::peek(tape)?;
        match &tag.0 {
            b"ttcf" => raise!("found a TrueType collection, which is not supported yet"),
            _ => {}
        }
        let font = Font::read(tape)?;
        let fonts = vec![font];
        Ok(Self { fonts })
'''))
ref('file-push', 'C06', ('src/file.rs', '''        Ok(File {
            fonts: vec![Font::read(tape)?],
        })
''', '''        let mut fonts = Vec::new();
        fonts.push(Font::read(tape)?);
        Ok(File { fonts })
'''))
ref('file-u32', 'C06', ('src/file.rs', '''        if &Read::peek::<Tag>(tape)?.0 == b"ttcf" {''', '''        let is_collection = Read::peek::<Tag>(tape)? == Tag(*b"ttcf");
        if is_collection {'''))
ref('accept-if', 'C06', ('src/lib.rs', '''    matches!(&tag.0, b"ttcf") || truetype::accept(tag)
''', '''    if tag.0 == *b"ttcf" {
        return true;
    }
    truetype::accept(tag)
'''))
ref('accept-match', 'C06', ('src/lib.rs', '''    matches!(&tag.0, b"ttcf") || truetype::accept(tag)
''', '''    match &tag.0 {
        b"ttcf" => true,
        _ => truetype::accept(tag),
    }
'''))
ref('font-let', 'C06', ('src/font.rs', '''        Ok(Self {
            offsets: tape.take()?,
        })
''', '''        let offsets = tape.take()?;
        Ok(Font { offsets })
'''))
ref('font-map', 'C06', ('src/font.rs', '''        Ok(Self {
            offsets: tape.take()?,
        })
''', '''        tape.take().map(|offsets| Self { offsets })
'''))
ref('scripts-for', 'C08', (L+'script.rs', '''            jump_take!(tape, position, this.count, i => this.headers[i].offset)
''', '''            let mut records = Vec::with_capacity(this.headers.len());
            for header in this.headers.iter() {
                tape.jump(position + header.offset as u64)?;
                records.push(tape.take()?);
            }
            Ok(records)
'''))
ref('language-if', 'C08', (L+'script.rs', '''            jump_take_maybe!(tape, position, this.default_language_offset)
''', '''            match this.default_language_offset {
                0 => Ok(None),
                offset => {
                    tape.jump(position + offset as u64)?;
                    tape.take().map(Some)
                }
            }
'''))
ref('feature-parameters', 'C08', (L+'feature.rs', '''            if this.parameter_offset > 0 {
                tape.jump(position + this.parameter_offset as u64)?;
                Ok(Some(tape.take_bytes(0)?))
            } else {
                Ok(None)
            }
''', '''            if this.parameter_offset == 0 {
                return Ok(None);
            }
            tape.jump(position + u64::from(this.parameter_offset))?;
            let parameters = tape.take_bytes(0)?;
            Ok(Some(parameters))
'''))
ref('get-filter', 'C09', (L+'feature.rs', '''            .find(|(_, header)| header.tag == tag)
            .map(|(i, _)| &self.records[i])
''', '''            .filter(|(_, header)| header.tag == tag)
            .map(|(i, _)| &self.records[i])
            .next()
'''))
ref('get-find-map', 'C09', (L+'script.rs', '''            .find(|(_, header)| header.tag == tag)
            .map(|(i, _)| &self.records[i])
''', '''            .find_map(|(i, header)| if header.tag == tag { Some(&self.records[i]) } else { None })
'''))
ref('get-range', 'C09', (L+'script.rs', '''        self.language_headers
            .iter()
            .enumerate()
            .find(|(_, header)| header.tag == tag)
            .map(|(i, _)| &self.language_records[i])
''', '''        (0..self.language_headers.len())
            .find(|&i| self.language_headers[i].tag == tag)
            .map(|i| &self.language_records[i])
'''))
ref('get-helper', 'C09', (L+'script.rs', '''        let tag = tag.into();
        self.headers
            .iter()
            .enumerate()
            .find(|(_, header)| header.tag == tag)
            .map(|(i, _)| &self.records[i])
    }
''', '''        let i = self.index(tag.into())?;
        Some(&self.records[i])
    }

    fn index(&self, tag: Tag) -> Option<usize> {
        self.headers.iter().position(|header| header.tag == tag)
    }
'''))
ref('record-first', 'C13', (L+'context.rs', '''            if this.glyph_count == 0 {
                raise!("found a malformed class context record");
            }
            tape.take_given(this.glyph_count as usize - 1)
''', '''            match this.glyph_count {
                0 => raise!("found a malformed class context record"),
                count => tape.take_given(usize::from(count - 1)),
            }
'''))
ref('record-checked-else', 'C13', (L+'context.rs', '''            if this.glyph_count == 0 {
                raise!("found a malformed chained context record");
            }
            tape.take_given(this.glyph_count as usize - 1)
''', '''            let count = match this.glyph_count.checked_sub(1) {
                Some(count) => count,
                _ => raise!("found a malformed chained context record"),
            };
            tape.take_given(count as usize)
'''))
ref('coverages-collect', 'C13', (L+'context.rs', '''            jump_take!(tape, position, this.backward_glyph_count, this.backward_coverage_offsets)
''', '''            this.backward_coverage_offsets
                .iter()
                .copied()
                .map(|offset| {
                    tape.jump(position + offset as u64)?;
                    tape.take()
                })
                .collect()
'''))
ref('classes-option-loop', 'C13', (L+'context.rs', '''        records (Vec<Option<ClassRecords>>) |this, tape, position| {
            jump_take_maybe!(tape, position, this.record_count, this.record_offsets)
''', '''        records (Vec<Option<ClassRecords>>) |this, tape, position| {
            let mut records = Vec::with_capacity(this.record_count as usize);
            for offset in &this.record_offsets {
                if *offset == 0 {
                    records.push(None);
                    continue;
                }
                tape.jump(position + *offset as u64)?;
                records.push(Some(tape.take()?));
            }
            Ok(records)
'''))
ref('context-map', 'C13', (L+'context.rs', '''        Ok(match tape.peek::<u16>()? {
            1 => Self::Format1(tape.take()?),
            2 => Self::Format2(tape.take()?),
            3 => Self::Format3(tape.take()?),
            value => raise!("found an unknown format of the context table ({value})"),
        })
''', '''        let format = tape.peek::<u16>()?;
        let context = match format {
            1 => Self::Format1(tape.take()?),
            2 => Self::Format2(tape.take()?),
            3 => Self::Format3(tape.take()?),
            _ => raise!("found an unknown format of the context table ({format})"),
        };
        Ok(context)
'''))
ref('pair-then', 'C15', (E1, '''            value1: if value1_flags.0 > 0 {
                Some(tape.take_given((position, value1_flags))?)
            } else {
                None
            },
''', '''            value1: match value1_flags.0 {
                0 => None,
                _ => Some(tape.take_given((position, value1_flags))?),
            },
'''))
ref('pair-helper', 'C15', (E1, '''        Ok(Self {
            glyph2_id: tape.take()?,
            value1: if value1_flags.0 > 0 {
                Some(tape.take_given((position, value1_flags))?)
            } else {
                None
            },
            value2: if value2_flags.0 > 0 {
                Some(tape.take_given((position, value2_flags))?)
            } else {
                None
            },
        })
''', '''        let glyph2_id = tape.take()?;
        let value1 = take_value(tape, position, value1_flags)?;
        let value2 = take_value(tape, position, value2_flags)?;
        Ok(Self {
            glyph2_id,
            value1,
            value2,
        })
'''), (E1, '''impl crate::walue::Read<'static> for Pair1 {''', '''fn take_value<T: crate::tape::Read>(
    tape: &mut T,
    position: u64,
    flags: Flags,
) -> Result<Option<Single>> {
    if flags.0 == 0 {
        return Ok(None);
    }
    tape.take_given((position, flags)).map(Some)
}

impl crate::walue::Read<'static> for Pair1 {'''))
ref('pairs-loop', 'C15', (E1, '''        let records = (0..count)
            .map(|_| tape.take_given((position, value1_flags, value2_flags)))
            .collect::<Result<Vec<_>>>()?;
        Ok(Self { count, records })
''', '''        let mut records = vec![];
        for _ in 0..count {
            records.push(tape.take_given((position, value1_flags, value2_flags))?);
        }
        Ok(Self { count, records })
'''))
ref('pair-vec', 'C15', (P, '''            (0..this.class1_count)
                .map(|_| tape.take_given((position, this.class2_count, this.value1_flags, this.value2_flags)))
                .collect()
''', '''            let parameter = (position, this.class2_count, this.value1_flags, this.value2_flags);
            let mut records = Vec::with_capacity(this.class1_count as usize);
            while records.len() < this.class1_count as usize {
                records.push(tape.take_given(parameter)?);
            }
            Ok(records)
'''))
ref('single-closure', 'C15', (E1, '''        macro_rules! take(
            ($flag:ident) => (if flags.$flag() { Some(tape.take()?) } else { None });
        );
''', '''        macro_rules! take(
            ($flag:ident) => ({
                let mut value = None;
                if flags.$flag() {
                    value = Some(tape.take()?);
                }
                value
            });
        );
'''))
ref('single-then', 'C15', (E1, '''            ($flag:ident) => (if flags.$flag() { Some(tape.take()?) } else { None });
''', '''            ($flag:ident) => (flags.$flag().then(|| tape.take()).transpose()?);
'''))
ref('base-iter', 'C16', (E1, '''        let anchors =
            tape.stay(|tape| jump_take_maybe!(tape, position, mark_class_count, anchor_offsets))?;
        Ok(Self {
            anchor_offsets,
            anchors,
        })
''', '''        let anchors = tape.stay(|tape| {
            anchor_offsets
                .iter()
                .map(|&offset| {
                    if offset == 0 {
                        return Ok(None);
                    }
                    tape.jump(position + u64::from(offset))?;
                    Ok(Some(tape.take()?))
                })
                .collect::<Result<Vec<_>>>()
        })?;
        Ok(Self {
            anchor_offsets,
            anchors,
        })
'''))
ref('anchors-generic', 'C16', (E1, '''        let anchor_offsets: Vec<u16> = tape.take_given(mark_class_count as usize)?;
        let anchors =
            tape.stay(|tape| jump_take_maybe!(tape, position, mark_class_count, anchor_offsets))?;
        Ok(Self {
            anchor_offsets,
            anchors,
        })
''', '''        let (anchor_offsets, anchors) = take_anchors(tape, position, mark_class_count as usize)?;
        Ok(Self {
            anchor_offsets,
            anchors,
        })
'''), (E1, '''impl crate::walue::Read<'static> for Base {''', '''fn take_anchors<T: crate::tape::Read>(
    tape: &mut T,
    position: u64,
    count: usize,
) -> Result<(Vec<u16>, Vec<Option<Anchor>>)> {
    let offsets: Vec<u16> = tape.take_given(count)?;
    let anchors = tape.stay(|tape| jump_take_maybe!(tape, position, count, offsets))?;
    Ok((offsets, anchors))
}

impl crate::walue::Read<'static> for Base {'''))
ref('mark-position', 'C16', (E1, '''        let class_id = tape.take()?;
        let anchor_offset = tape.take()?;
''', '''        let (class_id, anchor_offset) = tape.take::<(u16, u16)>()?;
'''))
ref('stay-explicit', 'C16', (E1, '''        let records =
            tape.stay(|tape| jump_take_given!(tape, position, count, offsets, mark_class_count))?;
''', '''        let current = tape.position()?;
        let records = jump_take_given!(@unwrap tape, position, count, offsets, mark_class_count);
        tape.jump(current)?;
'''))
ref('type-result', 'C11 C15', (P, '''        Ok(match r#type {
            1 => Self::SingleAdjustment(tape.take()?),
            2 => Self::PairAdjustment(tape.take()?),
            3 => Self::CursiveAttachment(tape.take()?),
            4 => Self::MarkToBaseAttachment(tape.take()?),
            5 => Self::MarkToLigatureAttachment(tape.take()?),
            6 => Self::MarkToMarkAttachment(tape.take()?),
            7 => Self::ContextualPositioning(tape.take()?),
            8 => Self::ChainedContextualPositioning(tape.take()?),
            9 => Self::ExtensionPositioning(tape.take()?),
            value => raise!("found an unknown type of glyph positioning ({value})"),
        })
''', '''        match r#type {
            1 => tape.take().map(Self::SingleAdjustment),
            2 => tape.take().map(Self::PairAdjustment),
            3 => tape.take().map(Self::CursiveAttachment),
            4 => tape.take().map(Self::MarkToBaseAttachment),
            5 => tape.take().map(Self::MarkToLigatureAttachment),
            6 => tape.take().map(Self::MarkToMarkAttachment),
            7 => tape.take().map(Self::ContextualPositioning),
            8 => tape.take().map(Self::ChainedContextualPositioning),
            9 => tape.take().map(Self::ExtensionPositioning),
            value => raise!("found an unknown type of glyph positioning ({value})"),
        }
'''))
ref('reverse-loop', 'C17', (S, '''            jump_take!(tape, position, this.forward_glyph_count, this.forward_coverage_offsets)
''', '''            let mut coverages = Vec::new();
            for i in 0..this.forward_glyph_count as usize {
                tape.jump(position + this.forward_coverage_offsets[i] as u64)?;
                coverages.push(tape.take()?);
            }
            Ok(coverages)
'''))
ref('ligature-saturating', 'C17', (T+'glyph_substitution/element.rs', '''            if this.glyph_count == 0 {
                raise!("found a malformed ligature substitution");
            }
            tape.take_given(this.glyph_count as usize - 1)
''', '''            let count = this.glyph_count as usize;
            if count < 1 {
                raise!("found a malformed ligature substitution");
            }
            let rest = count.saturating_sub(1);
            tape.take_given(rest)
'''))
ref('definition-offsets', 'C18', (T+'glyph_definition/mod.rs', '''            jump_take_maybe!(
                tape,
                position,
                field!(this.header => mark_offset(0), Header::{Version12, Version13})
            )
''', '''            let offset = match &this.header {
                Header::Version1(_) => 0,
                Header::Version12(header) => header.mark_offset,
                Header::Version13(header) => header.mark_offset,
            };
            jump_take_maybe!(tape, position, offset)
'''))
ref('definition-method', 'C18', (T+'glyph_definition/mod.rs', '''                field!(this.header => variation_offset(0), Header::{Version13})
''', '''                this.header.variation_offset()
'''), (T+'glyph_definition/mod.rs', '''impl Default for Header {''', '''impl Header {
    fn variation_offset(&self) -> u32 {
        if let Self::Version13(header) = self {
            header.variation_offset
        } else {
            0
        }
    }
}

impl Default for Header {'''))
ref('header-parts', 'C18', (T+'glyph_definition/mod.rs', '''        Ok(match tape.peek::<u32>()? {
            0x00010000 => Self::Version1(tape.take()?),
            0x00010002 => Self::Version12(tape.take()?),
            0x00010003 => Self::Version13(tape.take()?),
''', '''        Ok(match tape.peek::<(u16, u16)>()? {
            (1, 0) => Self::Version1(tape.take()?),
            (1, 2) => Self::Version12(tape.take()?),
            (1, 3) => Self::Version13(tape.take()?),
'''))
ref('deltas-mul', 'C19', ('src/variations/item.rs', '''            let per_item_count = this.short_delta_count as usize + this.region_count as usize;
            tape.take_given(this.item_count as usize * per_item_count)
''', '''            let item_count = usize::from(this.item_count);
            let short_count = usize::from(this.short_delta_count) * item_count;
            let long_count = usize::from(this.region_count) * item_count;
            tape.take_given(short_count + long_count)
'''))
ref('deltas-rows', 'C19', ('src/variations/item.rs', '''            let per_item_count = this.short_delta_count as usize + this.region_count as usize;
            tape.take_given(this.item_count as usize * per_item_count)
''', '''            let size = (u64::from(this.short_delta_count) + u64::from(this.region_count))
                * u64::from(this.item_count);
            tape.take_bytes(size as usize)
'''))
ref('fvar-for', 'C20', (T+'font_variations/mod.rs', '''        let instance_records = (0..header.instance_count as u64)
            .map(|i| {
                tape.jump(position + i * header.instance_size as u64)?;
                tape.take_given((header.axis_count, header.instance_size))
            })
            .collect::<Result<Vec<_>>>()?;
''', '''        let mut instance_records = Vec::with_capacity(header.instance_count as usize);
        for _ in 0..header.instance_count {
            tape.jump(position)?;
            instance_records.push(tape.take_given((header.axis_count, header.instance_size))?);
            position += u64::from(header.instance_size);
        }
'''))
ref('fvar-positions', 'C20', (T+'font_variations/mod.rs', '''        let mut position = tape.position()?;
        let header: Header = tape.take()?;
        position += header.axis_offset as u64;
''', '''        let start = tape.position()?;
        let header: Header = tape.take()?;
        let mut position = start + u64::from(header.axis_offset);
'''))
ref('fvar-destructure', 'C20', (T+'font_variations/mod.rs', '''        position += header.axis_offset as u64;
''', '''        let Header {
            axis_offset,
            axis_count,
            axis_size,
            ..
        } = header;
        position += axis_offset as u64;
'''), (T+'font_variations/mod.rs', '''        position += header.axis_count as u64 * header.axis_size as u64;
''', '''        position += axis_count as u64 * axis_size as u64;
'''))
ref('instance-room', 'C20', (T+'font_variations/mod.rs', '''            postscript_name_id: if instance_size as usize >= 4 * axis_count as usize + 6 {
                tape.take()?
            } else {
                NameID::Other(0xFFFF)
            },
''', '''            postscript_name_id: {
                let required = 2 + 2 + 4 * u32::from(axis_count) + 2;
                if u32::from(instance_size) < required {
                    NameID::Other(0xFFFF)
                } else {
                    tape.take()?
                }
            },
'''))
ref('instance-lets', 'C20', (T+'font_variations/mod.rs', '''        Ok(Self {
            subfamily_name_id: tape.take()?,
            flags: tape.take()?,
            coordinates: tape.take_given(axis_count as usize)?,
            // The field is optional, and 0xFFFF stands for the absence of a name.
            postscript_name_id: if''', '''        let subfamily_name_id = tape.take()?;
        let flags = tape.take()?;
        let coordinates = (0..axis_count)
            .map(|_| tape.take::<q32>())
            .collect::<Result<Vec<_>>>()?;
        Ok(Self {
            subfamily_name_id,
            flags,
            coordinates,
            // The field is optional, and 0xFFFF stands for the absence of a name.
            postscript_name_id: if'''))
ref('palette-for', 'C21', (T+'color_palettes.rs', '''        if indices
            .iter()
            .any(|index| *index as usize + entry_count > count)
        {
            raise!("found a malformed color palette");
        }
''', '''        for &index in indices {
            if usize::from(index) + entry_count > count {
                raise!("found a malformed color palette");
            }
        }
'''))
ref('palette-max', 'C21', (T+'color_palettes.rs', '''        if indices
            .iter()
            .any(|index| *index as usize + entry_count > count)
        {
            raise!("found a malformed color palette");
        }
''', '''        let fits = indices
            .iter()
            .map(|&index| index as usize)
            .all(|index| index + entry_count <= count);
        if !fits {
            raise!("found a malformed color palette");
        }
'''))
ref('palette-jump', 'C21', (T+'color_palettes.rs', '''        let colors = jump_take_given!(@unwrap tape, position, offset, count);
''', '''        tape.jump(position + u64::from(offset))?;
        let colors = (0..count)
            .map(|_| tape.take::<Color>())
            .collect::<Result<Vec<_>>>()?;
'''))
ref('palette-methods', 'C21', (T+'color_palettes.rs', '''        let (entry_count, color_count, color_indices) = match self.header {
            Header::Version0(ref header) => (
                header.entry_count,
                header.color_count,
                &header.color_indices,
            ),
            Header::Version1(ref header) => (
                header.entry_count,
                header.color_count,
                &header.color_indices,
            ),
        };
''', '''        let (entry_count, color_count, color_indices) = self.header.parts();
'''), (T+'color_palettes.rs', '''impl crate::value::Read for ColorPalettes {''', '''impl Header {
    fn parts(&self) -> (u16, u16, &Vec<u16>) {
        match self {
            Self::Version0(header) => (header.entry_count, header.color_count, &header.color_indices),
            Self::Version1(header) => (header.entry_count, header.color_count, &header.color_indices),
        }
    }
}

impl crate::value::Read for ColorPalettes {'''))
ref('palette-iter-range', 'C21', (T+'color_palettes.rs', '''            (0..entry_count as usize).map(move |entry_index| {
                let color_index = *palette_index as usize + entry_index;
                debug_assert!(color_index < color_count as usize);
                &self.colors[color_index]
            })
''', '''            let start = usize::from(*palette_index);
            (start..start + usize::from(entry_count)).map(move |color_index| {
                debug_assert!(color_index < usize::from(color_count));
                &self.colors[color_index]
            })
'''))
ref('palette-header', 'C21', (T+'color_palettes.rs', '''        Ok(match tape.peek::<u16>()? {
            0 => Self::Version0(tape.take()?),
            1 => Self::Version1(tape.take()?),
            value => raise!("found an unknown version of the color-palette table ({value})"),
        })
''', '''        let version = tape.peek::<u16>()?;
        if version == 0 {
            Ok(Self::Version0(tape.take()?))
        } else if version == 1 {
            Ok(Self::Version1(tape.take()?))
        } else {
            raise!("found an unknown version of the color-palette table ({version})")
        }
'''))
ref('table-macro', 'C04', ('src/table.rs', '''&[''', '''&['''))
refs.R.pop()
if __name__ == '__main__':
    refs.OUT = '/tmp/seeds/refs2'
    refs.main()
