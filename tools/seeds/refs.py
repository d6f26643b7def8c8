"""Edits that keep the behaviour: refs.py [id]... writes /tmp/seeds/refs/<id>/{patch.diff,meta.json} and tests that they compile.
Run checks on them with catch.py -d /tmp/seeds/refs."""
import json, os, subprocess, sys
OUT = '/tmp/seeds/refs'
R = []
def ref(id, props, *edits): R.append((id, props, edits))
L = 'src/layout/'
ref('get-loop', 'C09', (L+'script.rs', '''        self.headers
            .iter()
            .enumerate()
            .find(|(_, header)| header.tag == tag)
            .map(|(i, _)| &self.records[i])
''', '''        for (i, header) in self.headers.iter().enumerate() {
            if header.tag == tag {
                return Some(&self.records[i]);
            }
        }
        None
'''))
ref('get-while', 'C09', (L+'script.rs', '''        self.language_headers
            .iter()
            .enumerate()
            .find(|(_, header)| header.tag == tag)
            .map(|(i, _)| &self.language_records[i])
''', '''        let mut i = 0;
        while i < self.language_headers.len() {
            if self.language_headers[i].tag == tag {
                return Some(&self.language_records[i]);
            }
            i += 1;
        }
        None
'''))
ref('get-position', 'C09', (L+'feature.rs', '''        self.headers
            .iter()
            .enumerate()
            .find(|(_, header)| header.tag == tag)
            .map(|(i, _)| &self.records[i])
''', '''        let index = self.headers.iter().position(|header| header.tag == tag)?;
        self.records.get(index)
'''))
ref('get-zip', 'C09', (L+'feature.rs', '''        self.headers
            .iter()
            .enumerate()
            .find(|(_, header)| header.tag == tag)
            .map(|(i, _)| &self.records[i])
''', '''        self.headers
            .iter()
            .zip(self.records.iter())
            .find(|(header, _)| header.tag == tag)
            .map(|(_, record)| record)
'''))
ref('font-helper', 'C04 C05', ('src/font.rs', '''        let tag = U::tag();
        for record in &self.offsets.records {
            if record.tag == tag {
                #[cfg(not(feature = "ignore-invalid-checksums"))]
                if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
                    raise!("found a malformed font table with {:?}", record.tag);
                }
                Read::jump(tape, record.offset as u64)?;
                return Ok(Some(()));
            }
        }
        Ok(None)
    }
''', '''        match self.find(&U::tag()) {
            Some(record) => {
                #[cfg(not(feature = "ignore-invalid-checksums"))]
                Self::validate(tape, record)?;
                Read::jump(tape, record.offset as u64)?;
                Ok(Some(()))
            }
            None => Ok(None),
        }
    }

    fn find(&self, tag: &truetype::Tag) -> Option<&truetype::tables::offsets::Record> {
        self.offsets.records.iter().find(|record| &record.tag == tag)
    }

    #[cfg(not(feature = "ignore-invalid-checksums"))]
    fn validate<T: crate::tape::Read>(
        tape: &mut T,
        record: &truetype::tables::offsets::Record,
    ) -> Result<()> {
        if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
            raise!("found a malformed font table with {:?}", record.tag);
        }
        Ok(())
    }
'''))
ref('font-continue', 'C04 C05', ('src/font.rs', '''            if record.tag == tag {
                #[cfg(not(feature = "ignore-invalid-checksums"))]
                if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
                    raise!("found a malformed font table with {:?}", record.tag);
                }
                Read::jump(tape, record.offset as u64)?;
                return Ok(Some(()));
            }
''', '''            if record.tag != tag {
                continue;
            }
            #[cfg(not(feature = "ignore-invalid-checksums"))]
            {
                if record.size > u32::MAX - 4 {
                    raise!("found a malformed font table with {:?}", record.tag);
                }
                let checksum = record.checksum(tape)?;
                if checksum != record.checksum {
                    raise!("found a malformed font table with {:?}", record.tag);
                }
            }
            let offset = u64::from(record.offset);
            return Read::jump(tape, offset).map(|_| Some(()));
'''))
ref('font-take', 'C04 C05', ('src/font.rs', '''        self.position::<T, U>(tape)?
            .map(|_| tape.take::<U>())
            .transpose()
''', '''        if self.position::<T, U>(tape)?.is_none() {
            return Ok(None);
        }
        Ok(Some(tape.take()?))
'''), ('src/font.rs', '''        self.position::<T, U>(tape)?
            .map(|_| tape.take_given::<U>(parameter))
            .transpose()
''', '''        match self.position::<T, U>(tape)? {
            Some(_) => Ok(Some(tape.take_given::<U>(parameter)?)),
            _ => Ok(None),
        }
'''), ('src/font.rs', '''        self.offsets.records.iter().any(|record| record.tag == tag)
''', '''        for record in self.offsets.records.iter() {
            if record.tag == tag {
                return true;
            }
        }
        false
'''))
ref('directory-helper', 'C07', (L+'directory.rs', '''        match (major_version, minor_version) {
            (1, 0) | (1, 1) => {}
            value => raise!("found an unknown version of the directory table {value:?}"),
        }
''', '''        if !is_supported(major_version, minor_version) {
            raise!(
                "found an unknown version of the directory table {:?}",
                (major_version, minor_version),
            );
        }
'''), (L+'directory.rs', '''        let variation_offset = match (major_version, minor_version) {
            (1, 1) => tape.take()?,
            _ => 0,
        };
''', '''        let variation_offset: u32 = if minor_version > 0 { tape.take()? } else { 0 };
'''), (L+'directory.rs', '''impl<U> crate::value::Read for Directory<U>''', '''#[inline]
fn is_supported(major_version: u16, minor_version: u16) -> bool {
    major_version == 1 && minor_version <= 1
}

impl<U> crate::value::Read for Directory<U>'''))
ref('coverage-if', 'C12', (L+'coverage.rs', '''        Ok(match tape.peek::<u16>()? {
            1 => Coverage::Format1(tape.take()?),
            2 => Coverage::Format2(tape.take()?),
            value => raise!("found an unknown format of the glyph coverage ({value})"),
        })
''', '''        let format: u16 = tape.peek()?;
        if format == 1 {
            let coverage = tape.take::<Coverage1>()?;
            return Ok(Coverage::Format1(coverage));
        }
        if format != 2 {
            raise!("found an unknown format of the glyph coverage ({format})");
        }
        Ok(Coverage::Format2(tape.take::<Coverage2>()?))
'''))
ref('coverage-map', 'C12', (L+'coverage.rs', '''        Ok(match tape.peek::<u16>()? {
            1 => Coverage::Format1(tape.take()?),
            2 => Coverage::Format2(tape.take()?),
            value => raise!("found an unknown format of the glyph coverage ({value})"),
        })
''', '''        match tape.peek::<u16>()? {
            1 => tape.take().map(Coverage::Format1),
            2 => tape.take().map(Coverage::Format2),
            value => raise!("found an unknown format of the glyph coverage ({value})"),
        }
'''))
ref('class-enum', 'C12', (L+'class.rs', '''            1 => Class::Format1(tape.take()?),
            2 => Class::Format2(tape.take()?),
            value''', '''            FORMAT_1 => Class::Format1(tape.take()?),
            FORMAT_2 => Class::Format2(tape.take()?),
            value'''), (L+'class.rs', '''use crate::Result;
''', '''use crate::Result;

const FORMAT_1: u16 = 1;
const FORMAT_2: u16 = 2;
'''), (L+'class.rs', '''            tape.take_given(this.record_count as usize)
''', '''            let count = usize::from(this.record_count);
            let mut records = Vec::with_capacity(count);
            for _ in 0..count {
                records.push(tape.take()?);
            }
            Ok(records)
'''))
ref('correction-count', 'C14', (L+'correction.rs', '''        let count = (end_size - start_size) as usize + 1;
        let bit_count = (1 << format as usize) * count;
        let short_count = (bit_count + 15) >> 4;
        let deltas = tape.take_given(short_count)?;
''', '''        let deltas = tape.take_given(Self::count(start_size, end_size, format))?;
'''), (L+'correction.rs', '''impl crate::value::Read for Device {''', '''impl Device {
    fn count(start_size: u16, end_size: u16, format: u16) -> usize {
        let count = usize::from(end_size) - usize::from(start_size) + 1;
        let bits = match format {
            1 => 2,
            2 => 4,
            _ => 8,
        };
        (count * bits + 15) / 16
    }
}

impl crate::value::Read for Device {'''))
ref('correction-per-word', 'C14', (L+'correction.rs', '''        let count = (end_size - start_size) as usize + 1;
        let bit_count = (1 << format as usize) * count;
        let short_count = (bit_count + 15) >> 4;
''', '''        let count = (end_size - start_size) as usize + 1;
        let per_short: usize = 16usize >> format;
        let mut short_count = count / per_short;
        if count % per_short > 0 {
            short_count += 1;
        }
'''))
ref('lookup-loop', 'C11', (L+'lookup.rs', '''        let mark_filtering_set = if flags.has_mark_filtering() {
            Some(tape.take()?)
        } else {
            None
        };
        let tables = jump_take_given!(@unwrap tape, position, table_count, table_offsets, r#type);
''', '''        let mut mark_filtering_set = None;
        if flags.has_mark_filtering() {
            mark_filtering_set = Some(tape.take::<u16>()?);
        }
        let mut tables = Vec::with_capacity(table_count as usize);
        for offset in &table_offsets {
            tape.jump(position + u64::from(*offset))?;
            tables.push(tape.take_given(r#type)?);
        }
'''))
ref('lookup-helper', 'C11', (L+'lookup.rs', '''        let count = tape.take::<u16>()?;
        let offsets: Vec<u16> = tape.take_given(count as usize)?;
        let records = jump_take!(@unwrap tape, position, count, offsets);
        Ok(Lookups {
            count,
            offsets,
            records,
        })
''', '''        let (count, offsets) = take_offsets(tape)?;
        let mut records = vec![];
        for i in 0..offsets.len() {
            tape.jump(position + offsets[i] as u64)?;
            records.push(tape.take()?);
        }
        Ok(Lookups {
            count,
            offsets,
            records,
        })
'''), (L+'lookup.rs', '''impl<U> crate::value::Read for Lookups<U>''', '''fn take_offsets<T: crate::tape::Read>(tape: &mut T) -> Result<(u16, Vec<u16>)> {
    let count = tape.take::<u16>()?;
    let offsets = tape.take_given(count as usize)?;
    Ok((count, offsets))
}

impl<U> crate::value::Read for Lookups<U>'''))
ref('variations-loop', 'C20', ('src/tables/font_variations/mod.rs', '''        let axis_records = (0..header.axis_count as u64)
            .map(|i| {
                tape.jump(position + i * header.axis_size as u64)?;
                tape.take()
            })
            .collect::<Result<Vec<_>>>()?;
        position += header.axis_count as u64 * header.axis_size as u64;
''', '''        let mut axis_records = vec![];
        for _ in 0..header.axis_count {
            tape.jump(position)?;
            axis_records.push(tape.take()?);
            position += header.axis_size as u64;
        }
'''))
ref('variations-helper', 'C20', ('src/tables/font_variations/mod.rs', '''            postscript_name_id: if instance_size as usize >= 4 * axis_count as usize + 6 {
                tape.take()?
            } else {
                NameID::Other(0xFFFF)
            },
''', '''            postscript_name_id: if has_name(axis_count, instance_size) {
                tape.take()?
            } else {
                NameID::Other(u16::MAX)
            },
'''), ('src/tables/font_variations/mod.rs', '''impl crate::walue::Read<'static> for InstanceRecord {''', '''fn has_name(axis_count: u16, instance_size: u16) -> bool {
    let required = 2 + 2 + 4 * u32::from(axis_count);
    u32::from(instance_size) >= required + 2
}

impl crate::walue::Read<'static> for InstanceRecord {'''))
ref('palette-fields', 'C21', ('src/tables/color_palettes.rs', '''        let (offset, count, entry_count, indices) = match header {
            Header::Version0(ref header) => (
                header.color_offset,
                header.color_count as usize,
                header.entry_count as usize,
                &header.color_indices,
            ),
            Header::Version1(ref header) => (
                header.color_offset,
                header.color_count as usize,
                header.entry_count as usize,
                &header.color_indices,
            ),
        };
        if indices
            .iter()
            .any(|index| *index as usize + entry_count > count)
        {
            raise!("found a malformed color palette");
        }
''', '''        let (offset, count, entry_count, indices) = match &header {
            Header::Version0(header) => (
                header.color_offset,
                header.color_count as usize,
                header.entry_count as usize,
                &header.color_indices,
            ),
            Header::Version1(header) => (
                header.color_offset,
                header.color_count as usize,
                header.entry_count as usize,
                &header.color_indices,
            ),
        };
        for index in indices {
            if *index as usize + entry_count > count {
                raise!("found a malformed color palette");
            }
        }
'''))
ref('palette-all', 'C21', ('src/tables/color_palettes.rs', '''        if indices
            .iter()
            .any(|index| *index as usize + entry_count > count)
        {
''', '''        let last = indices.iter().copied().max();
        if last.map_or(false, |last| last as usize + entry_count > count) {
'''))
ref('palette-slice', 'C21', ('src/tables/color_palettes.rs', '''            (0..entry_count as usize).map(move |entry_index| {
                let color_index = *palette_index as usize + entry_index;
                debug_assert!(color_index < color_count as usize);
                &self.colors[color_index]
            })
''', '''            let start = *palette_index as usize;
            debug_assert!(start + entry_count as usize <= color_count as usize);
            self.colors[start..start + entry_count as usize].iter()
'''))
ref('definition-match', 'C18', ('src/tables/glyph_definition/mod.rs', '''            jump_take_maybe!(
                tape,
                position,
                field!(this.header => mark_offset(0), Header::{Version12, Version13})
            )
''', '''            let offset = match &this.header {
                Header::Version1(_) => return Ok(None),
                Header::Version12(header) => header.mark_offset,
                Header::Version13(header) => header.mark_offset,
            };
            if offset == 0 {
                return Ok(None);
            }
            tape.jump(position + offset as u64)?;
            Ok(Some(tape.take()?))
'''))
ref('definition-if', 'C18', ('src/tables/glyph_definition/mod.rs', '''            jump_take_maybe!(
                tape,
                position,
                field!(this.header => variation_offset(0), Header::{Version13})
            )
''', '''            if let Header::Version13(ref header) = this.header {
                jump_take_maybe!(tape, position, header.variation_offset)
            } else {
                Ok(None)
            }
'''), ('src/tables/glyph_definition/mod.rs', '''        Ok(match tape.peek::<u32>()? {
            0x00010000 => Self::Version1(tape.take()?),
            0x00010002 => Self::Version12(tape.take()?),
            0x00010003 => Self::Version13(tape.take()?),
            _ =>''', '''        let (major, minor) = tape.peek::<(u16, u16)>()?;
        Ok(match (major, minor) {
            (1, 0) => Self::Version1(tape.take()?),
            (1, 2) => Self::Version12(tape.take()?),
            (1, 3) => Self::Version13(tape.take()?),
            _ =>'''))
E1 = 'src/tables/glyph_positioning/element.rs'
ref('value-helper', 'C15', (E1, '''        Ok(Self {
            glyph2_id: tape.take()?,
            value1: if value1_flags.0 > 0 {
                Some(tape.take_given((position, value1_flags))?)
            } else {
                None
            },
            value2: if value2_flags.0 > 0 {
                Some(tape.take_given((position, value2_flags))?)
            } else {
                None
            },
        })
''', '''        let glyph2_id = tape.take()?;
        let value1 = take_value(tape, position, value1_flags)?;
        let value2 = take_value(tape, position, value2_flags)?;
        Ok(Self {
            glyph2_id,
            value1,
            value2,
        })
'''), (E1, '''        Ok(Self {
            value1: if value1_flags.0 > 0 {
                Some(tape.take_given((position, value1_flags))?)
            } else {
                None
            },
            value2: if value2_flags.0 > 0 {
                Some(tape.take_given((position, value2_flags))?)
            } else {
                None
            },
        })
''', '''        Ok(Self {
            value1: take_value(tape, position, value1_flags)?,
            value2: take_value(tape, position, value2_flags)?,
        })
'''), (E1, '''impl Default for Anchor {''', '''fn take_value<T: crate::tape::Read>(
    tape: &mut T,
    position: u64,
    flags: Flags,
) -> Result<Option<Single>> {
    if flags.0 == 0 {
        return Ok(None);
    }
    Ok(Some(tape.take_given((position, flags))?))
}

impl Default for Anchor {'''))
ref('base-loop', 'C16', (E1, '''impl crate::walue::Read<'static> for Base {
    type Parameter = (u64, u16);

    fn read<T: crate::tape::Read>(
        tape: &mut T,
        (position, mark_class_count): Self::Parameter,
    ) -> Result<Self> {
        let anchor_offsets: Vec<u16> = tape.take_given(mark_class_count as usize)?;
        let anchors =
            tape.stay(|tape| jump_take_maybe!(tape, position, mark_class_count, anchor_offsets))?;
''', '''impl crate::walue::Read<'static> for Base {
    type Parameter = (u64, u16);

    fn read<T: crate::tape::Read>(
        tape: &mut T,
        (position, mark_class_count): Self::Parameter,
    ) -> Result<Self> {
        let anchor_offsets: Vec<u16> = tape.take_given(mark_class_count as usize)?;
        let next = tape.position()?;
        let mut anchors = Vec::with_capacity(anchor_offsets.len());
        for &offset in anchor_offsets.iter() {
            anchors.push(if offset > 0 {
                tape.jump(position + offset as u64)?;
                Some(tape.take()?)
            } else {
                None
            });
        }
        tape.jump(next)?;
'''))
ref('anchors-helper', 'C16', *[(E1, f'''impl crate::walue::Read<'static> for {n} {{
    type Parameter = (u64, u16);

    fn read<T: crate::tape::Read>(
        tape: &mut T,
        (position, mark_class_count): Self::Parameter,
    ) -> Result<Self> {{
        let anchor_offsets: Vec<u16> = tape.take_given(mark_class_count as usize)?;
        let anchors =
            tape.stay(|tape| jump_take_maybe!(tape, position, mark_class_count, anchor_offsets))?;
''', f'''impl crate::walue::Read<'static> for {n} {{
    type Parameter = (u64, u16);

    fn read<T: crate::tape::Read>(
        tape: &mut T,
        (position, mark_class_count): Self::Parameter,
    ) -> Result<Self> {{
        let (anchor_offsets, anchors) = take_anchors(tape, position, mark_class_count)?;
''') for n in ('Base', 'Component', 'Mark2')], (E1, '''impl Default for Anchor {''', '''#[allow(clippy::type_complexity)]
fn take_anchors<T: crate::tape::Read>(
    tape: &mut T,
    position: u64,
    count: u16,
) -> Result<(Vec<u16>, Vec<Option<Anchor>>)> {
    let offsets: Vec<u16> = tape.take_given(count as usize)?;
    let anchors = tape.stay(|tape| jump_take_maybe!(tape, position, count, offsets))?;
    Ok((offsets, anchors))
}

impl Default for Anchor {'''))
ref('mark-inline', 'C16', (E1, '''            (0..this.count).map(|_| tape.take_given(position)).collect()
''', '''            let mut records = Vec::with_capacity(this.count as usize);
            while records.len() < this.count as usize {
                records.push(tape.take_given(position)?);
            }
            Ok(records)
'''))
ref('single-match', 'C15', (E1, '''            ($flag:ident) => (if flags.$flag() { Some(tape.take()?) } else { None });
''', '''            ($flag:ident) => (match flags.$flag() {
                true => Some(tape.take()?),
                false => None,
            });
'''), (E1, '''                ($offset:ident) => (match $offset {
                    Some(offset) => jump_take_maybe!(@unwrap tape, position, offset),
                    _ => None,
                });
''', '''                ($offset:ident) => ({
                    let offset: u16 = $offset.unwrap_or(0);
                    jump_take_maybe!(@unwrap tape, position, offset)
                });
'''))
ref('connection-two', 'C16', (E1, '''        let (start_anchor, end_anchor) = tape.stay(|tape| {
            Ok((
                jump_take_maybe!(@unwrap tape, position, start_anchor_offset),
                jump_take_maybe!(@unwrap tape, position, end_anchor_offset),
            ))
        })?;
''', '''        let start_anchor =
            tape.stay(|tape| jump_take_maybe!(tape, position, start_anchor_offset))?;
        let end_anchor = tape.stay(|tape| jump_take_maybe!(tape, position, end_anchor_offset))?;
'''))
ref('context-checked', 'C13', (L+'context.rs', '''            if this.glyph_count == 0 {
                raise!("found a malformed context record");
            }
            tape.take_given(this.glyph_count as usize - 1)
''', '''            match (this.glyph_count as usize).checked_sub(1) {
                Some(count) => tape.take_given(count),
                None => raise!("found a malformed context record"),
            }
'''), (L+'context.rs', '''            if this.glyph_count == 0 {
                raise!("found a malformed chained context record");
            }
            tape.take_given(this.glyph_count as usize - 1)
''', '''            let count = component_count(this.glyph_count)?;
            tape.take_given(count)
'''), (L+'context.rs', '''/// A contextual lookup.
''', '''fn component_count(count: u16) -> Result<usize> {
    if count < 1 {
        raise!("found a malformed chained context record");
    }
    Ok((count - 1) as usize)
}

/// A contextual lookup.
'''))
ref('context-reorder', 'C13', (L+'context.rs', '''        coverage (Coverage) |this, tape, position| {
            jump_take!(tape, position, this.coverage_offset)
        },

        backward_class (Class) |this, tape, position| {
            jump_take!(tape, position, this.backward_class_offset)
        },

        class (Class) |this, tape, position| {
            jump_take!(tape, position, this.class_offset)
        },

        forward_class (Class) |this, tape, position| {
            jump_take!(tape, position, this.forward_class_offset)
        },
''', '''        coverage (Coverage) |this, tape, position| {
            jump_take!(tape, position, this.coverage_offset)
        },

        class (Class) |this, tape, position| {
            jump_take!(tape, position, this.class_offset)
        },

        backward_class (Class) |this, tape, position| {
            tape.jump(position + u64::from(this.backward_class_offset))?;
            tape.take()
        },

        forward_class (Class) |this, tape, position| {
            jump_take!(tape, position, this.forward_class_offset)
        },
'''))
ref('script-closure', 'C08', (L+'script.rs', '''            jump_take!(tape, position, this.count, i => this.headers[i].offset)
''', '''            this.headers
                .iter()
                .map(|header| {
                    tape.jump(position + header.offset as u64)?;
                    tape.take()
                })
                .collect()
'''), (L+'script.rs', '''            jump_take_maybe!(tape, position, this.default_language_offset)
''', '''            match this.default_language_offset {
                0 => Ok(None),
                offset => {
                    tape.jump(position + offset as u64)?;
                    tape.take().map(Some)
                }
            }
'''))
ref('feature-generic', 'C08', (L+'feature.rs', '''            jump_take!(tape, position, this.count, i => this.headers[i].offset)
''', '''            let offsets: Vec<u16> = this.headers.iter().map(|header| header.offset).collect();
            super::take_all(tape, position, &offsets)
'''), (L+'mod.rs', '''mod class;
''', '''fn take_all<T, U>(tape: &mut T, position: u64, offsets: &[u16]) -> crate::Result<Vec<U>>
where
    T: crate::tape::Read,
    U: crate::value::Read,
{
    let mut values = Vec::with_capacity(offsets.len());
    for offset in offsets {
        tape.jump(position + *offset as u64)?;
        values.push(U::read(tape)?);
    }
    Ok(values)
}

mod class;
'''))
ref('item-bytes', 'C19', ('src/variations/item.rs', '''            let per_item_count = this.short_delta_count as usize + this.region_count as usize;
            tape.take_given(this.item_count as usize * per_item_count)
''', '''            let item_count = usize::from(this.item_count);
            let total = item_count * usize::from(this.region_count)
                + item_count * usize::from(this.short_delta_count);
            tape.take_bytes(total)
'''))
ref('file-match', 'C06', ('src/file.rs', '''        if &Read::peek::<Tag>(tape)?.0 == b"ttcf" {
            raise!("found a TrueType collection, which is not supported yet");
        }
        Ok(File {
            fonts: vec![Font::read(tape)?],
        })
''', '''        let Tag(signature) = Read::peek::<Tag>(tape)?;
        if signature == *b"ttcf" {
            raise!("found a TrueType collection, which is not supported yet");
        }
        let font = Font::read(tape)?;
        let mut fonts = Vec::with_capacity(1);
        fonts.push(font);
        Ok(File { fonts })
'''), ('src/lib.rs', '''    matches!(&tag.0, b"ttcf") || truetype::accept(tag)
''', '''    match &tag.0 {
        b"ttcf" => true,
        _ => truetype::accept(tag),
    }
'''))
ref('accept-explicit', 'C06', ('src/lib.rs', '''    matches!(&tag.0, b"ttcf") || truetype::accept(tag)
''', '''    if tag.0 == *b"ttcf" {
        return true;
    }
    truetype::accept(tag)
'''))
ref('registry-find', 'C10', (L+'script.rs', '''                match &**tag {
                    $($tag => Self::$variant,)*
                    _ => Self::Other(tag.clone()),
                }
''', '''                $(
                    if &tag.0 == $tag {
                        return Self::$variant;
                    }
                )*
                Self::Other(tag.clone())
'''))
ref('type-reorder', 'C11 C17', ('src/tables/glyph_positioning/mod.rs', '''            1 => Self::SingleAdjustment(tape.take()?),
            2 => Self::PairAdjustment(tape.take()?),
            3 => Self::CursiveAttachment(tape.take()?),
''', '''            3 => Self::CursiveAttachment(tape.take()?),
            2 => Self::PairAdjustment(tape.take()?),
            1 => {
                let adjustment = tape.take()?;
                Self::SingleAdjustment(adjustment)
            }
'''))
ref('noop', 'C01 C02 C09', (L+'script.rs', '''        let tag = tag.into();
        self.headers''', '''        let _ = &self.count;
        let tag = tag.into();
        self.headers'''), (L+'correction.rs', '''        let count = (end_size''', '''        let _ = ();
        let count = (end_size'''), ('src/font.rs', '''        let tag = U::tag();
''', '''        let tag = U::tag();
        let _unused = 0;
'''))
ref('codes-inline', 'C10', (L+'language.rs', '''                let filter = |code: &&str| !code.is_empty();
                let value''', '''                let value'''), (L+'language.rs', '''value.split(", ").filter(filter)''', '''value.split(", ").filter(|part| !part.is_empty())'''))
ref('codes-text', 'C10', (L+'language.rs', '''                let filter = |code: &&str| !code.is_empty();
                let value = match self {
                    $($(#[$attribute])* Language::$variant => $codes,)*
                    _ => "",
                };
                value.split(", ").filter(filter)
            }''', '''                self.list().split(", ").filter(|code| code.len() > 0)
            }

            fn list(&self) -> &'static str {
                match *self {
                    $($(#[$attribute])* Self::$variant => $codes,)*
                    Self::Other(_) => "",
                }
            }'''))
ref('tag-array', 'C10', (L+'feature.rs', '''                match &**tag {
                    $($tag => Self::$variant,)*
                    _ => Self::Other(tag.clone()),''', '''                let bytes = tag.0;
                match &bytes {
                    $($tag => Self::$variant,)*
                    _ => Self::Other(*tag),'''))
ref('tag-helper', 'C10', (L+'feature.rs', '''            fn from(feature: Feature) -> Self {
                match feature {
                    $(Feature::$variant => Tag(*$tag),)*
                    Feature::Other(tag) => tag,
                }
            }
        }''', '''            #[inline]
            fn from(value: Feature) -> Self {
                value.tag()
            }
        }

        impl Feature {
            fn tag(self) -> Tag {
                let bytes = match self {
                    $(Self::$variant => $tag,)*
                    Self::Other(tag) => return tag,
                };
                Tag(*bytes)
            }
        }'''))
ref('name-or', 'C10', (L+'script.rs', '''                match self {
                    $(Self::$variant => Some($name),)*
                    _ => None,
                }''', '''                let name = match self {
                    $(Self::$variant => $name,)*
                    Self::Other(_) => return None,
                };
                Some(name)'''))
def main():
    want = sys.argv[1:]
    W = '/tmp/seeds/wr'
    if not os.path.exists(W): subprocess.run(['cp', '-a', '/repo', W])
    subprocess.run(['git', '-C', W, 'fetch', '-q', '/repo', 'HEAD']); subprocess.run(['git', '-C', W, 'reset', '-q', '--hard', 'FETCH_HEAD'])
    for id, props, edits in R:
        if want and id not in want: continue
        subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'])
        for f, old, new in edits:
            s = open(f'{W}/{f}').read()
            assert old in s, (id, f, old)
            open(f'{W}/{f}', 'w').write(s.replace(old, new, 1))
        r = subprocess.run(['cargo', 'test', '--offline', '-q', '--all-features' if 0 else '--no-fail-fast'], cwd=W, capture_output=True, text=True)
        r2 = subprocess.run(['cargo', 'check', '--offline', '-q', '--all-features'], cwd=W, capture_output=True, text=True)
        fails = sorted(l for l in r.stdout.split('\n') if l.startswith('    ') and 'src' not in l and '::' in l and ' ' not in l.strip())
        os.makedirs(f'{OUT}/{id}', exist_ok=True)
        open(f'{OUT}/{id}/patch.diff', 'w').write(subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True).stdout)
        json.dump({'property': props.split()[0], 'properties': props.split()}, open(f'{OUT}/{id}/meta.json', 'w'))
        e = [l for l in (r.stderr + r2.stderr).split('\n') if l.startswith('error')]
        print(id, fails[:4], e[:3], flush=True)

if __name__ == '__main__': main()
