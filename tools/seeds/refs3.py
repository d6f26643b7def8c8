"""A third batch of edits that keep the behaviour, in further styles: refs3.py [id]... (see refs.py)."""
import refs
from refs import ref, L
refs.R.clear()
T = 'src/tables/'
E1 = T + 'glyph_positioning/element.rs'
P = T + 'glyph_positioning/mod.rs'
S = T + 'glyph_substitution/mod.rs'
D = T + 'glyph_definition/mod.rs'
V = T + 'font_variations/mod.rs'
C = T + 'color_palettes.rs'
# coverage and class
COV = '''        Ok(match tape.peek::<u16>()? {
            1 => Coverage::Format1(tape.take()?),
            2 => Coverage::Format2(tape.take()?),
            value => raise!("found an unknown format of the glyph coverage ({value})"),
        })
'''
ref('coverage-arm-guard', 'C12', (L+'coverage.rs', COV, '''        let coverage = match tape.peek::<u16>()? {
            value if value == 1 => Coverage::Format1(tape.take()?),
            value if value == 2 => Coverage::Format2(tape.take()?),
            value => raise!("found an unknown format of the glyph coverage ({value})"),
        };
        Ok(coverage)
'''))
ref('coverage-nested-fn', 'C12', (L+'coverage.rs', COV, '''        fn first<T: crate::tape::Read>(tape: &mut T) -> Result<Coverage> {
            Ok(Coverage::Format1(tape.take()?))
        }
        fn second<T: crate::tape::Read>(tape: &mut T) -> Result<Coverage> {
            Ok(Coverage::Format2(tape.take()?))
        }
        match tape.peek::<u16>()? {
            1 => first(tape),
            2 => second(tape),
            value => raise!("found an unknown format of the glyph coverage ({value})"),
        }
'''))
ref('coverage-closure', 'C12', (L+'coverage.rs', COV, '''        let format = tape.peek::<u16>()?;
        let is_known = |value: u16| value == 1 || value == 2;
        if !is_known(format) {
            raise!("found an unknown format of the glyph coverage ({format})");
        }
        if format == 1 { Ok(Coverage::Format1(tape.take()?)) } else { Ok(Coverage::Format2(tape.take()?)) }
'''))
ref('coverage-alias', 'C12', (L+'coverage.rs', '''impl crate::value::Read for Coverage {
    fn read<T: crate::tape::Read>(tape: &mut T)''', '''use crate::tape::Read as Tape;

impl crate::value::Read for Coverage {
    fn read<T: Tape>(tape: &mut T)'''))
ref('class-error', 'C12', (L+'class.rs', '''            value => raise!("found an unknown format of the glyph class ({value})"),
''', '''            value => return Err(crate::Error::new(
                std::io::ErrorKind::Other,
                format!("found an unknown format of the glyph class ({value})"),
            )),
'''))
ref('class-where', 'C12', (L+'class.rs', '''    fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
        Ok(match tape.peek::<u16>()? {''', '''    fn read<T>(tape: &mut T) -> crate::Result<Self>
    where
        T: crate::tape::Read,
    {
        let format = crate::tape::Read::peek::<u16>(tape)?;
        Ok(match format {'''))
# correction
ref('correction-map', 'C14', (L+'correction.rs', '''            1..=3 => Correction::Device(tape.take()?),
            0x8000 => Correction::Variation(tape.take()?),
            value =>''', '''            32768 => tape.take().map(Correction::Variation)?,
            1..4 => tape.take().map(Correction::Device)?,
            value =>'''))
ref('device-fn', 'C14', (L+'correction.rs', '''        let count = (end_size - start_size) as usize + 1;
        let bit_count = (1 << format as usize) * count;
        let short_count = (bit_count + 15) >> 4;
        let deltas = tape.take_given(short_count)?;
''', '''        let deltas = tape.take_given(count_shorts(start_size, end_size, format))?;
'''), (L+'correction.rs', '''impl crate::value::Read for Device {''', '''const fn count_shorts(start_size: u16, end_size: u16, format: u16) -> usize {
    let count = (end_size - start_size) as usize + 1;
    let bits = 1usize << format;
    (bits * count + 15) / 16
}

impl crate::value::Read for Device {'''))
ref('device-method', 'C14', (L+'correction.rs', '''        let count = (end_size - start_size) as usize + 1;
        let bit_count = (1 << format as usize) * count;
        let short_count = (bit_count + 15) >> 4;
        let deltas = tape.take_given(short_count)?;
        Ok(Device {
            start_size,
            end_size,
            format,
            deltas,
        })
''', '''        let mut device = Device {
            start_size,
            end_size,
            format,
            ..Default::default()
        };
        device.deltas = tape.take_given(device.short_count())?;
        Ok(device)
'''), (L+'correction.rs', '''impl crate::value::Read for Device {''', '''impl Device {
    fn short_count(&self) -> usize {
        let count = usize::from(self.end_size - self.start_size) + 1;
        let bit_count = count << self.format;
        (bit_count + 0xF) >> 4
    }
}

impl crate::value::Read for Device {'''))
ref('device-bits', 'C14', (L+'correction.rs', '''        let bit_count = (1 << format as usize) * count;
        let short_count = (bit_count + 15) >> 4;
''', '''        let bit_size: usize = match format {
            1 => 2,
            2 => 4,
            _ => 8,
        };
        let per_short = 16 / bit_size;
        let short_count = (count + per_short - 1) / per_short;
'''))
ref('device-loop', 'C14', (L+'correction.rs', '''        let deltas = tape.take_given(short_count)?;
''', '''        let mut deltas = Vec::new();
        while deltas.len() < short_count {
            deltas.push(tape.take()?);
        }
'''))
# lookups
ref('lookups-while-let', 'C11', (L+'lookup.rs', '''        let records = jump_take!(@unwrap tape, position, count, offsets);
''', '''        let mut records = Vec::with_capacity(count as usize);
        let mut iterator = offsets.iter();
        while let Some(offset) = iterator.next() {
            tape.jump(position + *offset as u64)?;
            records.push(tape.take()?);
        }
'''))
ref('lookups-loop-break', 'C11', (L+'lookup.rs', '''        let records = jump_take!(@unwrap tape, position, count, offsets);
''', '''        let mut records = vec![];
        let mut i = 0;
        loop {
            if i == count as usize {
                break;
            }
            tape.jump(position + offsets[i] as u64)?;
            records.push(tape.take()?);
            i += 1;
        }
'''))
ref('lookups-local-fn', 'C11', (L+'lookup.rs', '''        let records = jump_take!(@unwrap tape, position, count, offsets);
''', '''        let mut take_at = |offset: u16| -> Result<Record<U>> {
            tape.jump(position + offset as u64)?;
            tape.take()
        };
        let mut records = Vec::with_capacity(offsets.len());
        for offset in offsets.iter().copied() {
            records.push(take_at(offset)?);
        }
'''))
ref('record-match', 'C11', (L+'lookup.rs', '''        let mark_filtering_set = if flags.has_mark_filtering() {
            Some(tape.take()?)
        } else {
            None
        };
''', '''        let mark_filtering_set = match flags.has_mark_filtering() {
            false => None,
            true => Some(tape.take::<u16>()?),
        };
'''))
ref('record-not', 'C11', (L+'lookup.rs', '''        let mark_filtering_set = if flags.has_mark_filtering() {
            Some(tape.take()?)
        } else {
            None
        };
''', '''        let mark_filtering_set = if !flags.has_mark_filtering() {
            None
        } else {
            let set: u16 = tape.take()?;
            Some(set)
        };
'''))
ref('record-tables-for', 'C11', (L+'lookup.rs', '''        let tables = jump_take_given!(@unwrap tape, position, table_count, table_offsets, r#type);
''', '''        let kind: u16 = r#type;
        let mut tables = Vec::with_capacity(table_count.into());
        for i in 0..usize::from(table_count) {
            tape.jump(position + u64::from(table_offsets[i]))?;
            tables.push(tape.take_given::<U>(kind)?);
        }
'''))
ref('record-tables-zip', 'C11', (L+'lookup.rs', '''        let tables = jump_take_given!(@unwrap tape, position, table_count, table_offsets, r#type);
''', '''        let mut tables = Vec::new();
        for (_, offset) in (0..table_count).zip(&table_offsets) {
            tape.jump(position + *offset as u64)?;
            tables.push(tape.take_given(r#type)?);
        }
'''))
ref('lookups-default', 'C11', (L+'lookup.rs', '''            count: 0,
            offsets: vec![],
            records: vec![],
''', '''            count: Default::default(),
            offsets: Vec::new(),
            records: Vec::default(),
'''))
# directory
ref('directory-const', 'C07', (L+'directory.rs', '''        match (major_version, minor_version) {
            (1, 0) | (1, 1) => {}
            value => raise!("found an unknown version of the directory table {value:?}"),
        }
''', '''        const MAJOR: u16 = 1;
        match (major_version, minor_version) {
            (MAJOR, 0..=1) => {}
            value => raise!("found an unknown version of the directory table {value:?}"),
        }
'''))
ref('directory-version-tuple', 'C07', (L+'directory.rs', '''        let major_version = tape.take()?;
        let minor_version = tape.take()?;
        match (major_version, minor_version) {
            (1, 0) | (1, 1) => {}
            value => raise!("found an unknown version of the directory table {value:?}"),
        }
''', '''        let version = tape.take::<(u16, u16)>()?;
        if version != (1, 0) && version != (1, 1) {
            raise!("found an unknown version of the directory table {version:?}");
        }
        let (major_version, minor_version) = version;
'''))
ref('directory-minor', 'C07', (L+'directory.rs', '''        let variation_offset = match (major_version, minor_version) {
            (1, 1) => tape.take()?,
            _ => 0,
        };
''', '''        let mut variation_offset = 0;
        if minor_version == 1 {
            variation_offset = tape.take::<u32>()?;
        }
'''))
ref('directory-helper', 'C07', (L+'directory.rs', '''        let major_version = tape.take()?;
        let minor_version = tape.take()?;
        match (major_version, minor_version) {
            (1, 0) | (1, 1) => {}
            value => raise!("found an unknown version of the directory table {value:?}"),
        }
''', '''        let (major_version, minor_version) = read_version(tape)?;
'''), (L+'directory.rs', '''impl<U> crate::value::Read for Directory<U>''', '''/// Read the version and make sure that it is known.
fn read_version<T: crate::tape::Read>(tape: &mut T) -> Result<(u16, u16)> {
    let major_version = tape.take()?;
    let minor_version = tape.take()?;
    match (major_version, minor_version) {
        (1, 0) | (1, 1) => Ok((major_version, minor_version)),
        value => raise!("found an unknown version of the directory table {value:?}"),
    }
}

impl<U> crate::value::Read for Directory<U>'''))
# font and file
POS = '''        for record in &self.offsets.records {
            if record.tag == tag {
                #[cfg(not(feature = "ignore-invalid-checksums"))]
                if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
                    raise!("found a malformed font table with {:?}", record.tag);
                }
                Read::jump(tape, record.offset as u64)?;
                return Ok(Some(()));
            }
        }
        Ok(None)
'''
ref('position-continue', 'C04 C05', ('src/font.rs', POS, '''        for record in self.offsets.records.iter() {
            if record.tag != tag {
                continue;
            }
            #[cfg(not(feature = "ignore-invalid-checksums"))]
            if record.size > u32::MAX - 4 || record.checksum(tape)? != record.checksum {
                raise!("found a malformed font table with {:?}", record.tag);
            }
            Read::jump(tape, record.offset as u64)?;
            return Ok(Some(()));
        }
        Ok(None)
'''))
ref('position-verify', 'C04 C05', ('src/font.rs', POS, '''        let found = self.offsets.records.iter().find(|record| record.tag == tag);
        if let Some(record) = found {
            #[cfg(not(feature = "ignore-invalid-checksums"))]
            verify(record, tape)?;
            Read::jump(tape, record.offset as u64)?;
            return Ok(Some(()));
        }
        Ok(None)
'''), ('src/font.rs', '''impl crate::value::Read for Font {''', '''#[cfg(not(feature = "ignore-invalid-checksums"))]
fn verify<T: crate::tape::Read>(
    record: &truetype::tables::offsets::Record,
    tape: &mut T,
) -> Result<()> {
    if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
        raise!("found a malformed font table with {:?}", record.tag);
    }
    Ok(())
}

impl crate::value::Read for Font {'''))
ref('position-break', 'C04 C05', ('src/font.rs', POS, '''        let mut found = None;
        for record in &self.offsets.records {
            if record.tag == tag {
                found = Some(record);
                break;
            }
        }
        match found {
            Some(record) => {
                #[cfg(not(feature = "ignore-invalid-checksums"))]
                if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
                    raise!("found a malformed font table with {:?}", record.tag);
                }
                Read::jump(tape, record.offset as u64)?;
                Ok(Some(()))
            }
            None => Ok(None),
        }
'''))
ref('position-checked', 'C04 C05', ('src/font.rs', '''record.size > u32::MAX - 4 || record''', '''record.size.checked_add(4).is_none() || record'''))
ref('take-question-map', 'C04', ('src/font.rs', '''        self.position::<T, U>(tape)?
            .map(|_| tape.take::<U>())
            .transpose()
''', '''        Ok(match self.position::<T, U>(tape)? {
            Some(_) => Some(tape.take()?),
            _ => None,
        })
'''))
ref('exists-tags', 'C04', ('src/font.rs', '''        let tag = T::tag();
        self.offsets.records.iter().any(|record| record.tag == tag)
''', '''        self.offsets.records.iter().map(|record| record.tag).any(|tag| tag == T::tag())
'''))
ref('file-const', 'C06', ('src/file.rs', '''        if &Read::peek::<Tag>(tape)?.0 == b"ttcf" {
            raise!''', '''        const COLLECTION: [u8; 4] = *b"ttcf";
        let Tag(tag) = Read::peek::<Tag>(tape)?;
        if tag == COLLECTION {
            raise!'''))
ref('file-map', 'C06', ('src/file.rs', '''        Ok(File {
            fonts: vec![Font::read(tape)?],
        })
''', '''        Font::read(tape).map(|font| Self { fonts: vec![font] })
'''))
ref('file-let-push', 'C06', ('src/file.rs', '''        Ok(File {
            fonts: vec![Font::read(tape)?],
        })
''', '''        let mut fonts = Vec::with_capacity(1);
        fonts.push(Font::read(tape)?);
        Ok(Self { fonts })
'''))
ref('accept-deref', 'C06', ('src/lib.rs', '''    matches!(&tag.0, b"ttcf") || truetype::accept(tag)
''', '''    truetype::accept(tag) || tag.0 == *b"ttcf"
'''))
ref('font-read-direct', 'C06', ('src/font.rs', '''        Read::take(tape)
''', '''        <Self as crate::value::Read>::read(tape)
'''))
# scripts and features
GET = '''        self.headers
            .iter()
            .enumerate()
            .find(|(_, header)| header.tag == tag)
            .map(|(i, _)| &self.records[i])
'''
ref('get-for', 'C09', (L+'feature.rs', GET, '''        for (i, header) in self.headers.iter().enumerate() {
            if header.tag == tag {
                return Some(&self.records[i]);
            }
        }
        None
'''))
ref('get-position', 'C09', (L+'script.rs', GET, '''        let index = self.headers.iter().position(|header| header.tag == tag)?;
        Some(&self.records[index])
'''))
ref('get-zip', 'C09', (L+'feature.rs', GET, '''        self.headers
            .iter()
            .zip(self.records.iter())
            .find(|(header, _)| header.tag == tag)
            .map(|(_, record)| record)
'''))
ref('get-let-else', 'C09', (L+'script.rs', GET, '''        let Some((i, _)) = self
            .headers
            .iter()
            .enumerate()
            .find(|(_, header)| tag == header.tag)
        else {
            return None;
        };
        self.records.get(i)
'''))
ref('scripts-take', 'C08', (L+'script.rs', '''            tape.take_given(this.count as usize)
        },

        records''', '''            let mut headers = Vec::with_capacity(this.count as usize);
            for _ in 0..this.count {
                headers.push(tape.take()?);
            }
            Ok(headers)
        },

        records'''))
ref('script-languages', 'C08', (L+'script.rs', '''            jump_take!(tape, position, this.language_count, i => this.language_headers[i].offset)
''', '''            this.language_headers
                .iter()
                .map(|header| {
                    tape.jump(position + u64::from(header.offset))?;
                    tape.take()
                })
                .collect()
'''))
ref('features-for', 'C08', (L+'feature.rs', '''            jump_take!(tape, position, this.count, i => this.headers[i].offset)
''', '''            let mut records = vec![];
            for header in &this.headers {
                tape.jump(position + header.offset as u64)?;
                records.push(tape.take()?);
            }
            Ok(records)
'''))
ref('feature-early', 'C08', (L+'feature.rs', '''            if this.parameter_offset > 0 {
                tape.jump(position + this.parameter_offset as u64)?;
                Ok(Some(tape.take_bytes(0)?))
            } else {
                Ok(None)
            }
''', '''            if this.parameter_offset == 0 {
                return Ok(None);
            }
            tape.jump(position + u64::from(this.parameter_offset))?;
            tape.take_bytes(0).map(Some)
'''))
# context
ref('record-match-count', 'C13', (L+'context.rs', '''            if this.glyph_count == 0 {
                raise!("found a malformed context record");
            }
            tape.take_given(this.glyph_count as usize - 1)
''', '''            match this.glyph_count {
                0 => raise!("found a malformed context record"),
                count => tape.take_given((count - 1) as usize),
            }
'''))
ref('record-lt', 'C13', (L+'context.rs', '''            if this.glyph_count == 0 {
                raise!("found a malformed class context record");
            }
            tape.take_given(this.glyph_count as usize - 1)
''', '''            let count = this.glyph_count;
            if count < 1 {
                raise!("found a malformed class context record");
            }
            (1..count).map(|_| tape.take()).collect()
'''))
ref('record-helper', 'C13', (L+'context.rs', '''            if this.glyph_count == 0 {
                raise!("found a malformed chained context record");
            }
            tape.take_given(this.glyph_count as usize - 1)
''', '''            take_rest(tape, this.glyph_count)
'''), (L+'context.rs', '''impl crate::value::Read for Context {''', '''fn take_rest<T, U>(tape: &mut T, count: u16) -> Result<Vec<U>>
where
    T: crate::tape::Read,
    U: crate::value::Read,
{
    if count == 0 {
        raise!("found a malformed chained context record");
    }
    tape.take_given(count as usize - 1)
}

impl crate::value::Read for Context {'''))
ref('context-function', 'C13', (L+'context.rs', '''        Ok(match tape.peek::<u16>()? {
            1 => Self::Format1(tape.take()?),
            2 => Self::Format2(tape.take()?),
            3 => Self::Format3(tape.take()?),
            value => raise!("found an unknown format of the context table ({value})"),
        })
''', '''        let format: u16 = tape.peek()?;
        if format == 1 {
            Ok(Self::Format1(tape.take()?))
        } else if format == 2 {
            Ok(Self::Format2(tape.take()?))
        } else if format == 3 {
            Ok(Self::Format3(tape.take()?))
        } else {
            raise!("found an unknown format of the context table ({format})")
        }
'''))
# positioning
ref('pair-method', 'C15', (E1, '''            value1: if value1_flags.0 > 0 {
                Some(tape.take_given((position, value1_flags))?)
            } else {
                None
            },
            value2: if value2_flags.0 > 0 {
                Some(tape.take_given((position, value2_flags))?)
            } else {
                None
            },
        })
    }
}

impl crate::walue::Read<'static> for Pair2s''', '''            value1: Single::read_maybe(tape, position, value1_flags)?,
            value2: Single::read_maybe(tape, position, value2_flags)?,
        })
    }
}

impl Single {
    fn read_maybe<T: crate::tape::Read>(
        tape: &mut T,
        position: u64,
        flags: Flags,
    ) -> Result<Option<Self>> {
        if flags.0 == 0 {
            return Ok(None);
        }
        tape.take_given((position, flags)).map(Some)
    }
}

impl crate::walue::Read<'static> for Pair2s'''))
ref('pair-closure', 'C15', (E1, '''        Ok(Self {
            glyph2_id: tape.take()?,
            value1: if value1_flags.0 > 0 {
                Some(tape.take_given((position, value1_flags))?)
            } else {
                None
            },
            value2: if value2_flags.0 > 0 {
                Some(tape.take_given((position, value2_flags))?)
            } else {
                None
            },
        })
''', '''        let glyph2_id = tape.take()?;
        let mut take = |flags: Flags| -> Result<Option<Single>> {
            if flags.0 != 0 {
                Ok(Some(tape.take_given((position, flags))?))
            } else {
                Ok(None)
            }
        };
        let value1 = take(value1_flags)?;
        let value2 = take(value2_flags)?;
        Ok(Self {
            glyph2_id,
            value1,
            value2,
        })
'''))
ref('pairs-while', 'C15', (E1, '''        let records = (0..class2_count)
            .map(|_| tape.take_given((position, value1_flags, value2_flags)))
            .collect::<Result<Vec<_>>>()?;
        Ok(Self { records })
''', '''        let mut records: Vec<Pair2> = Vec::with_capacity(class2_count as usize);
        while records.len() < class2_count as usize {
            let record = tape.take_given((position, value1_flags, value2_flags))?;
            records.push(record);
        }
        Ok(Self { records })
'''))
ref('single-lets', 'C15', (E1, '''            macro_rules! take(
                ($offset:ident) => (match $offset {
                    Some(offset) => jump_take_maybe!(@unwrap tape, position, offset),
                    _ => None,
                });
            );
''', '''            macro_rules! take(
                ($offset:ident) => (match $offset {
                    Some(offset) if offset > 0 => {
                        tape.jump(position + u64::from(offset))?;
                        Some(tape.take::<Correction>()?)
                    }
                    _ => None,
                });
            );
'''))
ref('base-helper', 'C16', (E1, '''        let anchor_offsets: Vec<u16> = tape.take_given(mark_class_count as usize)?;
        let anchors =
            tape.stay(|tape| jump_take_maybe!(tape, position, mark_class_count, anchor_offsets))?;
        Ok(Self {
            anchor_offsets,
            anchors,
        })
    }
}

impl crate::walue::Read<'static> for Bases''', '''        let (anchor_offsets, anchors) = read_anchors(tape, position, mark_class_count)?;
        Ok(Self {
            anchor_offsets,
            anchors,
        })
    }
}

fn read_anchors<T: crate::tape::Read>(
    tape: &mut T,
    position: u64,
    count: u16,
) -> Result<(Vec<u16>, Vec<Option<Anchor>>)> {
    let offsets: Vec<u16> = tape.take_given(count as usize)?;
    let anchors = tape.stay(|tape| jump_take_maybe!(tape, position, count, offsets))?;
    Ok((offsets, anchors))
}

impl crate::walue::Read<'static> for Bases'''), (E1, '''        let anchor_offsets: Vec<u16> = tape.take_given(mark_class_count as usize)?;
        let anchors =
            tape.stay(|tape| jump_take_maybe!(tape, position, mark_class_count, anchor_offsets))?;
        Ok(Self {
            anchor_offsets,
            anchors,
        })
    }
}

impl crate::walue::Read<'static> for Mark2s''', '''        read_anchors(tape, position, mark_class_count).map(|(anchor_offsets, anchors)| Self {
            anchor_offsets,
            anchors,
        })
    }
}

impl crate::walue::Read<'static> for Mark2s'''))
ref('connection-sequential', 'C16', (E1, '''        let (start_anchor, end_anchor) = tape.stay(|tape| {
            Ok((
                jump_take_maybe!(@unwrap tape, position, start_anchor_offset),
                jump_take_maybe!(@unwrap tape, position, end_anchor_offset),
            ))
        })?;
''', '''        let (start_anchor, end_anchor) = tape.stay(|tape| {
            let start_anchor = jump_take_maybe!(@unwrap tape, position, start_anchor_offset);
            let end_anchor = jump_take_maybe!(@unwrap tape, position, end_anchor_offset);
            Ok((start_anchor, end_anchor))
        })?;
'''))
ref('mark-manual-stay', 'C16', (E1, '''        let anchors =
            tape.stay(|tape| jump_take_maybe!(tape, position, mark_class_count, anchor_offsets))?;
        Ok(Self {
            anchor_offsets,
            anchors,
        })
    }
}

impl crate::walue::Read<'static> for Ligature ''', '''        let mut anchors = Vec::with_capacity(anchor_offsets.len());
        let current = tape.position()?;
        for offset in anchor_offsets.iter() {
            anchors.push(match *offset {
                0 => None,
                offset => {
                    tape.jump(position + offset as u64)?;
                    Some(tape.take()?)
                }
            });
        }
        tape.jump(current)?;
        Ok(Self {
            anchor_offsets,
            anchors,
        })
    }
}

impl crate::walue::Read<'static> for Ligature '''))
ref('bases-for', 'C16', (E1, '''        let position = tape.position()?;
        let count = tape.take()?;
        let records = (0..count)
            .map(|_| tape.take_given((position, mark_class_count)))
            .collect::<Result<Vec<_>>>()?;
        Ok(Self { count, records })
    }
}

impl crate::walue::Read<'static> for Component''', '''        let position = tape.position()?;
        let count: u16 = tape.take()?;
        let mut records = vec![];
        for _ in 0..count {
            records.push(tape.take_given::<Base>((position, mark_class_count))?);
        }
        Ok(Self { count, records })
    }
}

impl crate::walue::Read<'static> for Component'''))
# substitution
ref('ligature-get', 'C17', (T+'glyph_substitution/element.rs', '''            if this.glyph_count == 0 {
                raise!("found a malformed ligature substitution");
            }
            tape.take_given(this.glyph_count as usize - 1)
''', '''            match this.glyph_count.checked_sub(1) {
                Some(count) => tape.take_given(count as usize),
                None => raise!("found a malformed ligature substitution"),
            }
'''))
# definition
ref('header-tuple', 'C18', (D, '''        Ok(match tape.peek::<u32>()? {
            0x00010000 => Self::Version1(tape.take()?),
            0x00010002 => Self::Version12(tape.take()?),
            0x00010003 => Self::Version13(tape.take()?),
            _ =>''', '''        Ok(match tape.peek::<(u16, u16)>()? {
            (1, 0) => Self::Version1(tape.take()?),
            (1, 2) => Self::Version12(tape.take()?),
            (1, 3) => Self::Version13(tape.take()?),
            _ =>'''))
ref('header-const', 'C18', (D, '''        Ok(match tape.peek::<u32>()? {
            0x00010000 => Self::Version1(tape.take()?),
            0x00010002 => Self::Version12(tape.take()?),
            0x00010003 => Self::Version13(tape.take()?),
            _ =>''', '''        const VERSION_1_0: u32 = 0x0001_0000;
        const VERSION_1_2: u32 = VERSION_1_0 + 2;
        const VERSION_1_3: u32 = VERSION_1_0 | 3;
        Ok(match tape.peek::<u32>()? {
            VERSION_1_0 => Self::Version1(tape.take()?),
            VERSION_1_2 => Self::Version12(tape.take()?),
            VERSION_1_3 => Self::Version13(tape.take()?),
            _ =>'''))
# item variations
ref('deltas-checked', 'C19', ('src/variations/item.rs', '''            let per_item_count = this.short_delta_count as usize + this.region_count as usize;
            tape.take_given(this.item_count as usize * per_item_count)
''', '''            let item_count = usize::from(this.item_count);
            let delta_count = usize::from(this.region_count) + usize::from(this.short_delta_count);
            let mut deltas = Vec::new();
            for _ in 0..item_count * delta_count {
                deltas.push(tape.take()?);
            }
            Ok(deltas)
'''))
ref('deltas-bytes', 'C19', ('src/variations/item.rs', '''            tape.take_given(this.item_count as usize * per_item_count)
''', '''            tape.take_bytes(this.item_count as usize * per_item_count)
'''))
# variations
ref('fvar-stride', 'C20', (V, '''        let axis_records = (0..header.axis_count as u64)
            .map(|i| {
                tape.jump(position + i * header.axis_size as u64)?;
                tape.take()
            })
            .collect::<Result<Vec<_>>>()?;
        position += header.axis_count as u64 * header.axis_size as u64;
''', '''        let mut axis_records = Vec::with_capacity(header.axis_count as usize);
        for _ in 0..header.axis_count {
            tape.jump(position)?;
            axis_records.push(tape.take()?);
            position += header.axis_size as u64;
        }
'''))
ref('fvar-helper', 'C20', (V, '''        let axis_records = (0..header.axis_count as u64)
            .map(|i| {
                tape.jump(position + i * header.axis_size as u64)?;
                tape.take()
            })
            .collect::<Result<Vec<_>>>()?;
        position +=''', '''        let axis_records = take_axes(tape, position, &header)?;
        position +='''), (V, '''impl crate::value::Read for FontVariations {''', '''fn take_axes<T: crate::tape::Read>(
    tape: &mut T,
    position: u64,
    header: &Header,
) -> Result<Vec<AxisRecord>> {
    let mut records = vec![];
    for i in 0..u64::from(header.axis_count) {
        tape.jump(position + i * u64::from(header.axis_size))?;
        records.push(tape.take()?);
    }
    Ok(records)
}

impl crate::value::Read for FontVariations {'''))
ref('fvar-lets', 'C20', (V, '''        position += header.axis_count as u64 * header.axis_size as u64;
        let instance_records''', '''        let axis_total = u64::from(header.axis_count) * u64::from(header.axis_size);
        let position = position + axis_total;
        let instance_records'''))
ref('instance-required', 'C20', (V, '''        Ok(Self {
            subfamily_name_id: tape.take()?,
            flags: tape.take()?,
            coordinates: tape.take_given(axis_count as usize)?,
            // The field is optional, and 0xFFFF stands for the absence of a name.
            postscript_name_id: if instance_size as usize >= 4 * axis_count as usize + 6 {
                tape.take()?
            } else {
                NameID::Other(0xFFFF)
            },
        })
''', '''        let required = 2 + 2 + 4 * u32::from(axis_count);
        let has_name = u32::from(instance_size) >= required + 2;
        let (subfamily_name_id, flags) = (tape.take()?, tape.take()?);
        let coordinates = tape.take_given(axis_count as usize)?;
        let postscript_name_id = match has_name {
            true => tape.take()?,
            false => NameID::Other(u16::MAX),
        };
        Ok(Self {
            subfamily_name_id,
            flags,
            coordinates,
            postscript_name_id,
        })
'''))
# palettes
ref('palette-helper', 'C21', (C, '''        if indices
            .iter()
            .any(|index| *index as usize + entry_count > count)
        {
            raise!("found a malformed color palette");
        }
''', '''        let fits = |index: &u16| usize::from(*index) + entry_count <= count;
        if !indices.iter().all(fits) {
            raise!("found a malformed color palette");
        }
'''))
ref('palette-and', 'C21', (C, '''        let (offset, count, entry_count, indices) = match header {''', '''        let (offset, count, entry_count, indices) = match &header {'''), (C, '''            Header::Version0(ref header) => (
                header.color_offset,''', '''            Header::Version0(header) => (
                header.color_offset,'''), (C, '''            Header::Version1(ref header) => (
                header.color_offset,''', '''            Header::Version1(header) => (
                header.color_offset,'''), (C, '''        let header = tape.take()?;''', '''        let header: Header = tape.take()?;'''))
ref('palette-checked', 'C21', (C, '''        if indices
            .iter()
            .any(|index| *index as usize + entry_count > count)
        {
            raise!("found a malformed color palette");
        }
''', '''        for index in indices.iter() {
            match (*index as usize).checked_add(entry_count) {
                Some(end) if end <= count => {}
                _ => raise!("found a malformed color palette"),
            }
        }
'''))
ref('palette-flat', 'C21', (C, '''        color_indices.iter().map(move |palette_index| {
            (0..entry_count as usize).map(move |entry_index| {
                let color_index = *palette_index as usize + entry_index;
                debug_assert!(color_index < color_count as usize);
                &self.colors[color_index]
            })
        })
''', '''        color_indices.iter().map(move |palette_index| {
            let start = *palette_index as usize;
            let end = start + entry_count as usize;
            debug_assert!(end <= color_count as usize);
            self.colors[start..end].iter()
        })
'''))
ref('palette-take-loop', 'C21', (C, '''            tape.take_given(this.palette_count as usize)
''', '''            (0..this.palette_count).map(|_| tape.take::<u16>()).collect()
'''))
ref('default-explicit', 'C01', (D, '''        Self::Version1(Header1::default())
''', '''        let header = Header1::default();
        Header::Version1(header)
'''))
if __name__ == '__main__':
    refs.OUT = '/tmp/seeds/refs3'; refs.main()
