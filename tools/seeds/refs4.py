"""A fourth batch of edits that keep the behaviour: refs4.py [id]... (see refs.py)."""
import refs
from refs import ref, L
refs.R.clear()
T = 'src/tables/'
E1 = T + 'glyph_positioning/element.rs'
P = T + 'glyph_positioning/mod.rs'
S = T + 'glyph_substitution/mod.rs'
SE = T + 'glyph_substitution/element.rs'
D = T + 'glyph_definition/mod.rs'
DE = T + 'glyph_definition/element.rs'
V = T + 'font_variations/mod.rs'
C = T + 'color_palettes.rs'
ANCHORS = '''        let anchor_offsets: Vec<u16> = tape.take_given(mark_class_count as usize)?;
        let anchors =
            tape.stay(|tape| jump_take_maybe!(tape, position, mark_class_count, anchor_offsets))?;
        Ok(Self {
            anchor_offsets,
            anchors,
        })
'''
BASE = '''impl crate::walue::Read<'static> for Base {
    type Parameter = (u64, u16);

    fn read<T: crate::tape::Read>(
        tape: &mut T,
        (position, mark_class_count): Self::Parameter,
    ) -> Result<Self> {
'''
def shared(kind): return ('''impl crate::walue::Read<'static> for %s {
    type Parameter = (u64, u16);

    fn read<T: crate::tape::Read>(
        tape: &mut T,
        (position, mark_class_count): Self::Parameter,
    ) -> Result<Self> {
''' % kind + ANCHORS, '''impl crate::walue::Read<'static> for %s {
    type Parameter = (u64, u16);

    fn read<T: crate::tape::Read>(
        tape: &mut T,
        (position, mark_class_count): Self::Parameter,
    ) -> Result<Self> {
        let (anchor_offsets, anchors) = take_anchors(tape, position, mark_class_count)?;
        Ok(Self {
            anchor_offsets,
            anchors,
        })
''' % kind)
ref('anchors-shared', 'C16', *[(E1, *shared(k)) for k in ('Base', 'Component', 'Mark2')], (E1, '''impl Default for Anchor {''', '''fn take_anchors<T: crate::tape::Read>(
    tape: &mut T,
    position: u64,
    count: u16,
) -> Result<(Vec<u16>, Vec<Option<Anchor>>)> {
    let offsets: Vec<u16> = tape.take_given(count as usize)?;
    let anchors = tape.stay(|tape| jump_take_maybe!(tape, position, count, offsets))?;
    Ok((offsets, anchors))
}

impl Default for Anchor {'''))
RECORDS = '''        let count = tape.take()?;
        let records = (0..count)
            .map(|_| tape.take_given((position, mark_class_count)))
            .collect::<Result<Vec<_>>>()?;
        Ok(Self { count, records })
'''
def bases(kind, text): return ('''impl crate::walue::Read<'static> for %s {
    type Parameter = u16;

    fn read<T: crate::tape::Read>(tape: &mut T, mark_class_count: Self::Parameter) -> Result<Self> {
        let position = tape.position()?;
''' % kind + RECORDS, '''impl crate::walue::Read<'static> for %s {
    type Parameter = u16;

    fn read<T: crate::tape::Read>(tape: &mut T, mark_class_count: Self::Parameter) -> Result<Self> {
        let position = tape.position()?;
''' % kind + text)
ref('bases-shared', 'C16', *[(E1, *bases(k, '''        let count: u16 = tape.take()?;
        let records = take_all(tape, count, (position, mark_class_count))?;
        Ok(Self { count, records })
''')) for k in ('Bases', 'Mark2s')], (E1, '''impl Default for Anchor {''', '''fn take_all<T, U>(tape: &mut T, count: u16, parameter: (u64, u16)) -> Result<Vec<U>>
where
    T: crate::tape::Read,
    U: crate::walue::Read<'static, Parameter = (u64, u16)>,
{
    (0..count).map(|_| tape.take_given(parameter)).collect()
}

impl Default for Anchor {'''))
ref('bases-capacity', 'C16', (E1, *bases('Bases', '''        let count: u16 = tape.take()?;
        let mut records = Vec::with_capacity(count as usize);
        while records.len() < count as usize {
            records.push(tape.take_given((position, mark_class_count))?);
        }
        Ok(Self { count, records })
''')))
ref('marks-push', 'C16', (E1, '''            (0..this.count).map(|_| tape.take_given(position)).collect()
''', '''            let mut records = vec![];
            for _ in 0..this.count {
                records.push(tape.take_given(position)?);
            }
            Ok(records)
'''))
ref('mark-let', 'C16', (E1, '''        #[cfg(not(feature = "ignore-incomplete-marks"))]
        let anchor = tape.stay(|tape| jump_take!(tape, position, anchor_offset))?;
''', '''        #[cfg(not(feature = "ignore-incomplete-marks"))]
        let anchor = {
            let current = tape.position()?;
            let anchor = jump_take!(@unwrap tape, position, anchor_offset);
            tape.jump(current)?;
            anchor
        };
'''))
ref('connection-two', 'C16', (E1, '''        let (start_anchor, end_anchor) = tape.stay(|tape| {
            Ok((
                jump_take_maybe!(@unwrap tape, position, start_anchor_offset),
                jump_take_maybe!(@unwrap tape, position, end_anchor_offset),
            ))
        })?;
''', '''        let start_anchor =
            tape.stay(|tape| jump_take_maybe!(tape, position, start_anchor_offset))?;
        let end_anchor = tape.stay(|tape| jump_take_maybe!(tape, position, end_anchor_offset))?;
'''))
ref('ligatures-iter', 'C16', (E1, '''        let records =
            tape.stay(|tape| jump_take_given!(tape, position, count, offsets, mark_class_count))?;
''', '''        let records = tape.stay(|tape| {
            offsets
                .iter()
                .map(|offset| {
                    tape.jump(position + *offset as u64)?;
                    tape.take_given(mark_class_count)
                })
                .collect()
        })?;
'''))
# values
PAIR = '''            value1: if value1_flags.0 > 0 {
                Some(tape.take_given((position, value1_flags))?)
            } else {
                None
            },
            value2: if value2_flags.0 > 0 {
                Some(tape.take_given((position, value2_flags))?)
            } else {
                None
            },
'''
OPTIONAL = '''fn take_optional<T: crate::tape::Read>(
    tape: &mut T,
    position: u64,
    flags: Flags,
) -> Result<Option<Single>> {
    if flags.0 == 0 {
        return Ok(None);
    }
    tape.take_given((position, flags)).map(Some)
}

impl Default for Anchor {'''
ref('pair-optional', 'C15', (E1, '''            glyph2_id: tape.take()?,
''' + PAIR, '''            glyph2_id: tape.take()?,
            value1: take_optional(tape, position, value1_flags)?,
            value2: take_optional(tape, position, value2_flags)?,
'''), (E1, '''        Ok(Self {
''' + PAIR, '''        let value1 = take_optional(tape, position, value1_flags)?;
        let value2 = take_optional(tape, position, value2_flags)?;
        Ok(Self {
            value1,
            value2,
'''), (E1, 'impl Default for Anchor {', OPTIONAL))
ref('pair-match', 'C15', (E1, '''        Ok(Self {
''' + PAIR, '''        Ok(Self {
            value1: match value1_flags.0 {
                0 => None,
                _ => Some(tape.take_given((position, value1_flags))?),
            },
            value2: match value2_flags.0 {
                0 => None,
                _ => Some(tape.take_given((position, value2_flags))?),
            },
'''))
ref('single-function', 'C15', (E1, '''        macro_rules! take(
            ($flag:ident) => (if flags.$flag() { Some(tape.take()?) } else { None });
        );
        let x_placement''', '''        fn take_if<T: crate::tape::Read, U: crate::value::Read>(
            tape: &mut T,
            present: bool,
        ) -> Result<Option<U>> {
            if present {
                Ok(Some(tape.take()?))
            } else {
                Ok(None)
            }
        }
        macro_rules! take(
            ($flag:ident) => (take_if(tape, flags.$flag())?);
        );
        let x_placement'''))
ref('single-closure-at', 'C15', (E1, '''            macro_rules! take(
                ($offset:ident) => (match $offset {
                    Some(offset) => jump_take_maybe!(@unwrap tape, position, offset),
                    _ => None,
                });
            );
            Ok((
                take!(x_placement_correction_offset),
                take!(y_placement_correction_offset),
                take!(x_advance_correction_offset),
                take!(y_advance_correction_offset),
            ))
''', '''            let mut take = |offset: Option<u16>| -> Result<Option<Correction>> {
                match offset {
                    Some(offset) if offset > 0 => {
                        tape.jump(position + offset as u64)?;
                        Ok(Some(tape.take()?))
                    }
                    _ => Ok(None),
                }
            };
            Ok((
                take(x_placement_correction_offset)?,
                take(y_placement_correction_offset)?,
                take(x_advance_correction_offset)?,
                take(y_advance_correction_offset)?,
            ))
'''))
ref('values-capacity', 'C15', (P, '''            (0..this.value_count)
                .map(|_| tape.take_given((position, this.value_flags)))
                .collect()
''', '''            let parameter = (position, this.value_flags);
            let mut values = Vec::with_capacity(this.value_count as usize);
            for _ in 0..this.value_count {
                values.push(tape.take_given(parameter)?);
            }
            Ok(values)
'''))
ref('pairs-destructure', 'C15', (P, '''            (0..this.class1_count)
                .map(|_| tape.take_given((position, this.class2_count, this.value1_flags, this.value2_flags)))
                .collect()
''', '''            let (class1_count, class2_count) = (this.class1_count, this.class2_count);
            let (value1_flags, value2_flags) = (this.value1_flags, this.value2_flags);
            (0..class1_count)
                .map(|_| tape.take_given((position, class2_count, value1_flags, value2_flags)))
                .collect()
'''), )
ref('pairs-parameter', 'C15', (E1, '''        let records = (0..class2_count)
            .map(|_| tape.take_given((position, value1_flags, value2_flags)))
            .collect::<Result<Vec<_>>>()?;
        Ok(Self { records })
''', '''        let parameter = (position, value1_flags, value2_flags);
        Ok(Self {
            records: (0..class2_count)
                .map(|_| tape.take_given(parameter))
                .collect::<Result<_>>()?,
        })
'''))
ref('type-range', 'C11', (P, '''    fn read<T: crate::tape::Read>(tape: &mut T, r#type: u16) -> Result<Self> {
        Ok(match r#type {
''', '''    fn read<T: crate::tape::Read>(tape: &mut T, r#type: u16) -> Result<Self> {
        if !(1..=9).contains(&r#type) {
            raise!("found an unknown type of glyph positioning ({})", r#type);
        }
        Ok(match r#type {
'''))
ref('type-split', 'C17', (S, '''            5 => Self::ContextualSubstitution(tape.take()?),
            6 => Self::ChainedContextualSubstitution(tape.take()?),
''', '''            5 => {
                let context: Context = tape.take()?;
                Self::ContextualSubstitution(context)
            }
            6 => {
                let context = tape.take::<ChainedContext>()?;
                Self::ChainedContextualSubstitution(context)
            }
'''))
ref('substitution-map', 'C17', (S, '''        Ok(match tape.peek::<u16>()? {
            1 => Self::Format1(tape.take()?),
            2 => Self::Format2(tape.take()?),
            value => raise!("found an unknown format of the single substitution ({value})"),
        })
''', '''        match tape.peek::<u16>()? {
            1 => tape.take().map(Self::Format1),
            2 => tape.take().map(Self::Format2),
            value => raise!("found an unknown format of the single substitution ({value})"),
        }
'''))
ref('ligature-checked', 'C17', (SE, '''            if this.glyph_count == 0 {
                raise!("found a malformed ligature substitution");
            }
            tape.take_given(this.glyph_count as usize - 1)
''', '''            match this.glyph_count.checked_sub(1) {
                Some(count) => tape.take_given(count as usize),
                None => raise!("found a malformed ligature substitution"),
            }
'''))
ref('ligatures-jump', 'C17', (SE, '''            jump_take!(tape, position, this.count, this.offsets)
''', '''            let mut records = Vec::new();
            for &offset in &this.offsets {
                tape.jump(position + u64::from(offset))?;
                records.push(tape.take()?);
            }
            Ok(records)
'''))
# context
for k, w in (('ClassRecord', 'class context record'),):
    ref('class-record-if-else', 'C13', (L+'context.rs', '''            if this.glyph_count == 0 {
                raise!("found a malformed class context record");
            }
            tape.take_given(this.glyph_count as usize - 1)
''', '''            if this.glyph_count > 0 {
                let count = usize::from(this.glyph_count) - 1;
                tape.take_given(count)
            } else {
                raise!("found a malformed class context record")
            }
'''))
ref('context-helper-count', 'C13', *[(L+'context.rs', '''            if this.glyph_count == 0 {
                raise!("found a malformed %s");
            }
            tape.take_given(this.glyph_count as usize - 1)
''' % w, '''            tape.take_given(count_rest(this.glyph_count, "%s")?)
''' % w) for w in ('chained context record', 'chained class context record')], (L+'context.rs', '''impl crate::value::Read for Context {''', '''/// All glyphs but the first, which is given by the coverage.
fn count_rest(count: u16, name: &str) -> Result<usize> {
    if count == 0 {
        raise!("found a malformed {name}");
    }
    Ok(count as usize - 1)
}

impl crate::value::Read for Context {'''))
ref('chained-let-format', 'C13', (L+'context.rs', '''        Ok(match tape.peek::<u16>()? {
            1 => Self::Format1(tape.take()?),
            2 => Self::Format2(tape.take()?),
            3 => Self::Format3(tape.take()?),
            value => {
                raise!("found an unknown format of the chained context table ({value})")
            }
        })
''', '''        const SIMPLE: u16 = 1;
        const CLASS: u16 = 2;
        const COVERAGE: u16 = 3;
        let format: u16 = tape.peek()?;
        let context = match format {
            SIMPLE => Self::Format1(tape.take()?),
            CLASS => Self::Format2(tape.take()?),
            COVERAGE => Self::Format3(tape.take()?),
            value => {
                raise!("found an unknown format of the chained context table ({value})")
            }
        };
        Ok(context)
'''))
# definitions
ref('caret-let', 'C18', (DE, '''        Ok(match tape.peek::<u16>()? {
            1 => Self::Format1(tape.take()?),
            2 => Self::Format2(tape.take()?),
            3 => Self::Format3(tape.take()?),
            _ => raise!("found an unknown format of the caret-value table"),
        })
''', '''        let format = tape.peek::<u16>()?;
        if format == 0 || format > 3 {
            raise!("found an unknown format of the caret-value table");
        }
        Ok(match format {
            1 => Self::Format1(tape.take()?),
            2 => Self::Format2(tape.take()?),
            _ => Self::Format3(tape.take()?),
        })
'''))
ref('definition-split', 'C18', (D, '''        Ok(match tape.peek::<u32>()? {
            0x00010000 => Self::Version1(tape.take()?),
            0x00010002 => Self::Version12(tape.take()?),
            0x00010003 => Self::Version13(tape.take()?),
            _ => raise!("found an unknown format of the glyph definition"),
        })
''', '''        let version = tape.peek::<u32>()?;
        if version >> 16 != 1 {
            raise!("found an unknown format of the glyph definition");
        }
        Ok(match version & 0xFFFF {
            0 => Self::Version1(tape.take()?),
            2 => Self::Version12(tape.take()?),
            3 => Self::Version13(tape.take()?),
            _ => raise!("found an unknown format of the glyph definition"),
        })
'''))
ref('definition-pair', 'C18', (D, '''        Ok(match tape.peek::<u32>()? {
            0x00010000 => Self::Version1(tape.take()?),
            0x00010002 => Self::Version12(tape.take()?),
            0x00010003 => Self::Version13(tape.take()?),
''', '''        Ok(match tape.peek::<(u16, u16)>()? {
            (1, 0) => Self::Version1(tape.take()?),
            (1, 2) => Self::Version12(tape.take()?),
            (1, 3) => Self::Version13(tape.take()?),
'''))
ref('marks-loop', 'C18', (DE, '''            jump_take!(tape, position, this.count, this.coverage_offsets)
''', '''            let mut coverages = Vec::with_capacity(this.count as usize);
            for i in 0..this.count as usize {
                let offset = this.coverage_offsets[i] as u64;
                tape.jump(position + offset)?;
                coverages.push(tape.take()?);
            }
            Ok(coverages)
'''))
ref('definition-match-class', 'C18', (D, '''            jump_take_maybe!(
                tape,
                position,
                field!(this.header => mark_class_offset, Header::{Version1, Version12, Version13})
            )
''', '''            let offset = match &this.header {
                Header::Version1(header) => header.mark_class_offset,
                Header::Version12(header) => header.mark_class_offset,
                Header::Version13(header) => header.mark_class_offset,
            };
            if offset == 0 {
                return Ok(None);
            }
            tape.jump(position + offset as u64)?;
            Ok(Some(tape.take()?))
'''))
# variations
ref('store-offsets', 'C19', ('src/variations/item.rs', '''            jump_take!(tape, position, this.count, this.offsets)
''', '''            this.offsets
                .iter()
                .map(|&offset| {
                    tape.jump(position + u64::from(offset))?;
                    tape.take()
                })
                .collect()
'''))
ref('deltas-let', 'C19', ('src/variations/item.rs', '''            let per_item_count = this.short_delta_count as usize + this.region_count as usize;
            tape.take_given(this.item_count as usize * per_item_count)
''', '''            let Record { item_count, short_delta_count, region_count, .. } = *this;
            let (items, shorts, regions) = (item_count as usize, short_delta_count as usize, region_count as usize);
            tape.take_given((shorts + regions) * items)
'''))
FV = '''        position += header.axis_offset as u64;
        let axis_records = (0..header.axis_count as u64)
            .map(|i| {
                tape.jump(position + i * header.axis_size as u64)?;
                tape.take()
            })
            .collect::<Result<Vec<_>>>()?;
        position += header.axis_count as u64 * header.axis_size as u64;
        let instance_records = (0..header.instance_count as u64)
            .map(|i| {
                tape.jump(position + i * header.instance_size as u64)?;
                tape.take_given((header.axis_count, header.instance_size))
            })
            .collect::<Result<Vec<_>>>()?;
'''
ref('fvar-accumulate', 'C20', (V, FV, '''        position += header.axis_offset as u64;
        let mut axis_records = Vec::with_capacity(header.axis_count as usize);
        for _ in 0..header.axis_count {
            tape.jump(position)?;
            axis_records.push(tape.take()?);
            position += header.axis_size as u64;
        }
        let mut instance_records = Vec::with_capacity(header.instance_count as usize);
        for _ in 0..header.instance_count {
            tape.jump(position)?;
            instance_records.push(tape.take_given((header.axis_count, header.instance_size))?);
            position += header.instance_size as u64;
        }
'''))
ref('fvar-positions-both', 'C20', (V, 'let mut position = tape.position()?;', 'let base = tape.position()?;'), (V, FV, '''        let axis_position = base + header.axis_offset as u64;
        let axis_size = u64::from(header.axis_size);
        let instance_position = axis_position + u64::from(header.axis_count) * axis_size;
        let instance_size = u64::from(header.instance_size);
        let axis_records = (0..header.axis_count)
            .map(|i| {
                tape.jump(axis_position + u64::from(i) * axis_size)?;
                tape.take()
            })
            .collect::<Result<Vec<_>>>()?;
        let instance_records = (0..header.instance_count)
            .map(|i| {
                tape.jump(instance_position + u64::from(i) * instance_size)?;
                tape.take_given((header.axis_count, header.instance_size))
            })
            .collect::<Result<Vec<_>>>()?;
'''))
ref('fvar-helper-axes', 'C20', (V, '''        let axis_records = (0..header.axis_count as u64)
            .map(|i| {
                tape.jump(position + i * header.axis_size as u64)?;
                tape.take()
            })
            .collect::<Result<Vec<_>>>()?;
''', '''        let axis_records = take_axes(tape, position, &header)?;
'''), (V, '''impl crate::value::Read for FontVariations {''', '''fn take_axes<T: crate::tape::Read>(
    tape: &mut T,
    position: u64,
    header: &Header,
) -> Result<Vec<AxisRecord>> {
    let stride = header.axis_size as u64;
    (0..header.axis_count as u64)
        .map(|i| {
            tape.jump(position + i * stride)?;
            tape.take()
        })
        .collect()
}

impl crate::value::Read for FontVariations {'''))
INST = '''        Ok(Self {
            subfamily_name_id: tape.take()?,
            flags: tape.take()?,
            coordinates: tape.take_given(axis_count as usize)?,
            // The field is optional, and 0xFFFF stands for the absence of a name.
            postscript_name_id: if instance_size as usize >= 4 * axis_count as usize + 6 {
                tape.take()?
            } else {
                NameID::Other(0xFFFF)
            },
        })
'''
ref('instance-needed', 'C20', (V, INST, '''        let needed = 6 + 4 * u32::from(axis_count);
        let has_name = u32::from(instance_size) >= needed;
        let subfamily_name_id = tape.take()?;
        let flags = tape.take()?;
        let coordinates = tape.take_given(axis_count as usize)?;
        let postscript_name_id = match has_name {
            true => tape.take()?,
            false => NameID::Other(u16::MAX),
        };
        Ok(Self { subfamily_name_id, flags, coordinates, postscript_name_id })
'''))
ref('instance-less', 'C20', (V, INST, '''        let subfamily_name_id = tape.take()?;
        let flags = tape.take()?;
        let coordinates: Vec<q32> = tape.take_given(axis_count as usize)?;
        let size = 2 + 2 + 4 * coordinates.len();
        let postscript_name_id = if (instance_size as usize) < size + 2 {
            NameID::Other(0xFFFF)
        } else {
            tape.take()?
        };
        Ok(Self { subfamily_name_id, flags, coordinates, postscript_name_id })
'''))
# palettes
ref('palette-for-raise', 'C21', (C, '''        if indices
            .iter()
            .any(|index| *index as usize + entry_count > count)
        {
            raise!("found a malformed color palette");
        }
''', '''        for &index in indices {
            if usize::from(index) + entry_count > count {
                raise!("found a malformed color palette");
            }
        }
'''))
ref('palette-slices', 'C21', (C, '''            (0..entry_count as usize).map(move |entry_index| {
                let color_index = *palette_index as usize + entry_index;
                debug_assert!(color_index < color_count as usize);
                &self.colors[color_index]
            })
''', '''            let start = *palette_index as usize;
            debug_assert!(start + entry_count as usize <= color_count as usize);
            self.colors[start..start + entry_count as usize].iter()
'''))
ref('palette-skip', 'C21', (C, '''            (0..entry_count as usize).map(move |entry_index| {
                let color_index = *palette_index as usize + entry_index;
                debug_assert!(color_index < color_count as usize);
                &self.colors[color_index]
            })
''', '''            debug_assert!(*palette_index as usize + entry_count as usize <= color_count as usize);
            self.colors
                .iter()
                .skip(*palette_index as usize)
                .take(entry_count as usize)
'''))
# corrections
ref('device-words', 'C14', (L+'correction.rs', '''        let count = (end_size - start_size) as usize + 1;
        let bit_count = (1 << format as usize) * count;
        let short_count = (bit_count + 15) >> 4;
        let deltas = tape.take_given(short_count)?;
''', '''        let size_count = end_size as usize - start_size as usize + 1;
        let bit_count = size_count << (format as usize);
        let deltas = tape.take_given(bit_count.div_ceil(16))?;
'''))
ref('device-table', 'C14', (L+'correction.rs', '''        let bit_count = (1 << format as usize) * count;
        let short_count = (bit_count + 15) >> 4;
''', '''        let bits = match format {
            1 => 2,
            2 => 4,
            _ => 8,
        };
        let short_count = (bits * count + 15) / 16;
'''))
ref('correction-position', 'C14', (L+'correction.rs', '''        Ok(match tape.peek::<(u32, u16)>()?.1 {
''', '''        let (_, format) = tape.peek::<(u32, u16)>()?;
        Ok(match format {
'''))
ref('device-contains', 'C14', (L+'correction.rs', '''        if format == 0 || format > 3 {
''', '''        if !(1..=3).contains(&format) {
'''))
# directories, lookups
JT = '''        #[cfg(not(feature = "ignore-incomplete-directories"))]
        let (scripts, features, lookups) = (
            jump_take!(@unwrap tape, position, script_offset),
            jump_take!(@unwrap tape, position, feature_offset),
            jump_take!(@unwrap tape, position, lookup_offset),
        );
'''
ref('directory-lets', 'C07', (L+'directory.rs', JT, '''        #[cfg(not(feature = "ignore-incomplete-directories"))]
        let scripts = take_at(tape, position, script_offset)?;
        #[cfg(not(feature = "ignore-incomplete-directories"))]
        let features = take_at(tape, position, feature_offset)?;
        #[cfg(not(feature = "ignore-incomplete-directories"))]
        let lookups = take_at(tape, position, lookup_offset)?;
'''), (L+'directory.rs', '''impl<U> crate::value::Read for Directory<U>''', '''#[cfg(not(feature = "ignore-incomplete-directories"))]
fn take_at<T, V>(tape: &mut T, position: u64, offset: u16) -> Result<V>
where
    T: crate::tape::Read,
    V: crate::value::Read,
{
    tape.jump(position + offset as u64)?;
    tape.take()
}

impl<U> crate::value::Read for Directory<U>'''))
ref('directory-compare', 'C07', (L+'directory.rs', '''        let major_version = tape.take()?;
        let minor_version = tape.take()?;
        match (major_version, minor_version) {
            (1, 0) | (1, 1) => {}
            value => raise!("found an unknown version of the directory table {value:?}"),
        }
''', '''        let major_version = tape.take::<u16>()?;
        let minor_version = tape.take::<u16>()?;
        if major_version != 1 || minor_version > 1 {
            raise!("found an unknown version of the directory table {:?}", (major_version, minor_version));
        }
'''))
ref('lookup-map', 'C11', (L+'lookup.rs', '''        let tables = jump_take_given!(@unwrap tape, position, table_count, table_offsets, r#type);
''', '''        let tables = table_offsets
            .iter()
            .map(|&offset| {
                tape.jump(position + offset as u64)?;
                tape.take_given(r#type)
            })
            .collect::<Result<Vec<_>>>()?;
'''))
ref('lookup-bits', 'C11', (L+'lookup.rs', '''        let mark_filtering_set = if flags.has_mark_filtering() {
            Some(tape.take()?)
        } else {
            None
        };
''', '''        let mut mark_filtering_set = None;
        if flags.has_mark_filtering() {
            mark_filtering_set = Some(tape.take()?);
        }
'''))
ref('lookups-index', 'C11', (L+'lookup.rs', '''        let records = jump_take!(@unwrap tape, position, count, offsets);
''', '''        let mut records = Vec::with_capacity(offsets.len());
        for i in 0..offsets.len() {
            tape.jump(position + offsets[i] as u64)?;
            records.push(tape.take()?);
        }
'''))
ref('feature-match', 'C08', (L+'feature.rs', '''            if this.parameter_offset > 0 {
                tape.jump(position + this.parameter_offset as u64)?;
                Ok(Some(tape.take_bytes(0)?))
            } else {
                Ok(None)
            }
''', '''            match this.parameter_offset {
                0 => Ok(None),
                offset => {
                    tape.jump(position + offset as u64)?;
                    tape.take_bytes(0).map(Some)
                }
            }
'''))
ref('scripts-headers', 'C08', (L+'script.rs', '''            jump_take!(tape, position, this.count, i => this.headers[i].offset)
''', '''            this.headers
                .iter()
                .map(|header| {
                    tape.jump(position + header.offset as u64)?;
                    tape.take()
                })
                .collect()
'''))
ref('script-default', 'C08', (L+'script.rs', '''            jump_take_maybe!(tape, position, this.default_language_offset)
''', '''            match this.default_language_offset {
                0 => Ok(None),
                offset => {
                    tape.jump(position + u64::from(offset))?;
                    Ok(Some(tape.take()?))
                }
            }
'''))
GET = '''        self.headers
            .iter()
            .enumerate()
            .find(|(_, header)| header.tag == tag)
            .map(|(i, _)| &self.records[i])
'''
ref('get-position-map', 'C09', (L+'feature.rs', GET, '''        let index = self.headers.iter().position(|header| header.tag == tag)?;
        Some(&self.records[index])
'''))
ref('get-for-in', 'C09', (L+'script.rs', GET, '''        for i in 0..self.headers.len() {
            if self.headers[i].tag == tag {
                return Some(&self.records[i]);
            }
        }
        None
'''))
ref('get-helper-fn', 'C09', (L+'script.rs', GET, '''        find(&self.headers, tag).map(|i| &self.records[i])
'''), (L+'script.rs', '''impl Scripts {''', '''fn find(headers: &[Header], tag: Tag) -> Option<usize> {
    headers.iter().position(|header| header.tag == tag)
}

impl Scripts {'''))
# tags
ref('codes-filter', 'C10', (L+'language.rs', '''                let filter = |code: &&str| !code.is_empty();
                let value = match self {
                    $($(#[$attribute])* Language::$variant => $codes,)*
                    _ => "",
                };
                value.split(", ").filter(filter)
''', '''                let codes = match self {
                    $($(#[$attribute])* Self::$variant => $codes,)*
                    Self::Other(_) => "",
                };
                codes.split(", ").filter(|code| !code.is_empty())
'''))
ref('tag-deref', 'C10', (L+'feature.rs', '''                match &**tag {
                    $($tag => Self::$variant,)*
                    _ => Self::Other(tag.clone()),
                }
''', '''                match &tag.0 {
                    $($tag => Self::$variant,)*
                    _ => Self::Other(*tag),
                }
'''))
ref('name-other', 'C10', (L+'feature.rs', '''                match self {
                    $(Self::$variant => Some($name),)*
                    _ => None,
                }
''', '''                let name = match self {
                    $(Self::$variant => $name,)*
                    Self::Other(_) => return None,
                };
                Some(name)
'''))
# fonts
ref('font-any', 'C04', ('src/font.rs', '''        let tag = T::tag();
        self.offsets.records.iter().any(|record| record.tag == tag)
''', '''        for record in self.offsets.records.iter() {
            if record.tag == T::tag() {
                return true;
            }
        }
        false
'''))
ref('font-checksum-lets', 'C05', ('src/font.rs', '''                if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
                    raise!("found a malformed font table with {:?}", record.tag);
                }
''', '''                {
                    let is_sane = record.size <= u32::MAX - 4;
                    if !is_sane || record.checksum(tape)? != record.checksum {
                        raise!("found a malformed font table with {:?}", record.tag);
                    }
                }
'''))
ref('font-checksum-two', 'C05', ('src/font.rs', '''                #[cfg(not(feature = "ignore-invalid-checksums"))]
                if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
                    raise!("found a malformed font table with {:?}", record.tag);
                }
''', '''                #[cfg(not(feature = "ignore-invalid-checksums"))]
                {
                    if record.size > u32::MAX - 4 {
                        raise!("found a malformed font table with {:?}", record.tag);
                    }
                    let checksum = record.checksum(tape)?;
                    if checksum != record.checksum {
                        raise!("found a malformed font table with {:?}", record.tag);
                    }
                }
'''))
ref('font-take-given-match', 'C04', ('src/font.rs', '''        self.position::<T, U>(tape)?
            .map(|_| tape.take_given::<U>(parameter))
            .transpose()
''', '''        if self.position::<T, U>(tape)?.is_none() {
            return Ok(None);
        }
        Ok(Some(tape.take_given::<U>(parameter)?))
'''))
ref('file-matches', 'C06', ('src/file.rs', '''        if &Read::peek::<Tag>(tape)?.0 == b"ttcf" {
            raise!("found a TrueType collection, which is not supported yet");
        }
        Ok(File {
            fonts: vec![Font::read(tape)?],
        })
''', '''        let Tag(tag) = Read::peek::<Tag>(tape)?;
        match &tag {
            b"ttcf" => raise!("found a TrueType collection, which is not supported yet"),
            _ => Font::read(tape).map(|font| File { fonts: vec![font] }),
        }
'''))
ref('accept-match-arms', 'C06', ('src/lib.rs', '''    matches!(&tag.0, b"ttcf") || truetype::accept(tag)
''', '''    match &**tag {
        b"ttcf" => true,
        _ => truetype::accept(tag),
    }
'''))
if __name__ == '__main__':
    refs.OUT = '/tmp/seeds/refs4'; refs.main()
