"""A fifth batch of edits that keep the behaviour: refs5.py [id]... (see refs.py)."""
import refs
from refs import ref, L
refs.R.clear()
T = 'src/tables/'
E1 = T + 'glyph_positioning/element.rs'
P = T + 'glyph_positioning/mod.rs'
S = T + 'glyph_substitution/mod.rs'
SE = T + 'glyph_substitution/element.rs'
D = T + 'glyph_definition/mod.rs'
DE = T + 'glyph_definition/element.rs'
V = T + 'font_variations/mod.rs'
C = T + 'color_palettes.rs'
I = 'src/variations/item.rs'
RECS = '''            jump_take!(tape, position, this.record_count, this.record_offsets)
        },
    }
}

table! {
    @position
    /// An alternate substitution.'''


def recs(body):
    return (S, RECS, body + '''        },
    }
}

table! {
    @position
    /// An alternate substitution.''')


ref('multiple-iter', 'C17', recs('''            this.record_offsets
                .iter()
                .map(|&offset| {
                    tape.jump(position + u64::from(offset))?;
                    tape.take()
                })
                .collect()
'''))
ref('multiple-loop', 'C17', recs('''            let mut records = Vec::with_capacity(this.record_offsets.len());
            for offset in this.record_offsets.iter().copied() {
                tape.jump(position + offset as u64)?;
                records.push(tape.take::<Sequence>()?);
            }
            Ok(records)
'''))
ref('multiple-fold', 'C17', recs('''            this.record_offsets.iter().try_fold(vec![], |mut records, &offset| {
                tape.jump(position + offset as u64)?;
                records.push(tape.take()?);
                Ok(records)
            })
'''))
ref('multiple-index', 'C17', recs('''            let mut records = vec![];
            let mut i = 0;
            while i < this.record_count as usize {
                let offset = this.record_offsets[i];
                tape.jump(position + offset as u64)?;
                records.push(tape.take()?);
                i += 1;
            }
            Ok(records)
'''))
ref('multiple-zip', 'C17', recs('''            let mut records = vec![Sequence::default(); this.record_count as usize];
            for (record, offset) in records.iter_mut().zip(&this.record_offsets) {
                tape.jump(position + *offset as u64)?;
                *record = tape.take()?;
            }
            Ok(records)
'''))
ref('multiple-helper', 'C17', recs('''            take_records(tape, position, &this.record_offsets)
'''), (S, '''impl crate::walue::Read<'static> for Type {''', '''/// Read records at offsets.
fn take_records<T, U>(tape: &mut T, position: u64, offsets: &[u16]) -> Result<Vec<U>>
where
    T: crate::tape::Read,
    U: crate::value::Read,
{
    let mut records = Vec::with_capacity(offsets.len());
    for offset in offsets {
        tape.jump(position + *offset as u64)?;
        records.push(tape.take()?);
    }
    Ok(records)
}

impl crate::walue::Read<'static> for Type {'''))
ref('dispatch-ifs', 'C17', (S, '''        Ok(match tape.peek::<u16>()? {
            1 => Self::Format1(tape.take()?),
            2 => Self::Format2(tape.take()?),
            value => raise!("found an unknown format of the single substitution ({value})"),
        })
''', '''        let format = tape.peek::<u16>()?;
        if format == 1 {
            return Ok(Self::Format1(tape.take()?));
        }
        if format == 2 {
            return tape.take().map(Self::Format2);
        }
        raise!("found an unknown format of the single substitution ({format})")
'''))
ref('type-maps', 'C17', (S, '''        Ok(match r#type {
            1 => Self::SingleSubstitution(tape.take()?),
            2 => Self::MultipleSubstitution(tape.take()?),
            3 => Self::AlternateSubstitution(tape.take()?),
            4 => Self::LigatureSubstitution(tape.take()?),
            5 => Self::ContextualSubstitution(tape.take()?),
            6 => Self::ChainedContextualSubstitution(tape.take()?),
            7 => Self::ExtensionSubstitution(tape.take()?),
            8 => Self::ReverseChainedContextualSubstibution(tape.take()?),
            value => raise!("found an unknown type of glyph substitution ({value})"),
        })
''', '''        match r#type {
            1 => tape.take().map(Self::SingleSubstitution),
            2 => tape.take().map(Self::MultipleSubstitution),
            3 => tape.take().map(Self::AlternateSubstitution),
            4 => tape.take().map(Self::LigatureSubstitution),
            5 => tape.take().map(Self::ContextualSubstitution),
            6 => tape.take().map(Self::ChainedContextualSubstitution),
            7 => tape.take().map(Self::ExtensionSubstitution),
            8 => tape.take().map(Self::ReverseChainedContextualSubstibution),
            value => raise!("found an unknown type of glyph substitution ({value})"),
        }
'''))
ref('type-guard', 'C17', (S, '''        Ok(match r#type {
            1 => Self::SingleSubstitution(tape.take()?),''', '''        if !(1..=8).contains(&r#type) {
            raise!("found an unknown type of glyph substitution ({type})", type = r#type);
        }
        Ok(match r#type {
            1 => Self::SingleSubstitution(tape.take()?),'''))
ref('alternates-explicit', 'C17', (SE, '''table! {
    /// Alternates.
    pub Alternates { // AlternateSet
        glyph_count (u16), // glyphCount

        glyph_ids (Vec<GlyphID>) |this, tape| { // alternateGlyphIDs
            tape.take_given(this.glyph_count as usize)
        },
    }
}
''', '''/// Alternates.
#[derive(Clone, Debug, Default)]
pub struct Alternates {
    // AlternateSet
    pub glyph_count: u16,        // glyphCount
    pub glyph_ids: Vec<GlyphID>, // alternateGlyphIDs
}

impl crate::value::Read for Alternates {
    fn read<T: crate::tape::Read>(tape: &mut T) -> crate::Result<Self> {
        let glyph_count = tape.take::<u16>()?;
        let glyph_ids = tape.take_given(glyph_count as usize)?;
        Ok(Self { glyph_count, glyph_ids })
    }
}
'''))
ref('ligature-sub', 'C17', (SE, '''            if this.glyph_count == 0 {
                raise!("found a malformed ligature substitution");
            }
            tape.take_given(this.glyph_count as usize - 1)
''', '''            match this.glyph_count.checked_sub(1) {
                Some(count) => tape.take_given(count as usize),
                None => raise!("found a malformed ligature substitution"),
            }
'''))
ref('ligature-else', 'C17', (SE, '''            if this.glyph_count == 0 {
                raise!("found a malformed ligature substitution");
            }
            tape.take_given(this.glyph_count as usize - 1)
''', '''            let Some(count) = (this.glyph_count as usize).checked_sub(1) else {
                raise!("found a malformed ligature substitution")
            };
            let mut glyph_ids = Vec::with_capacity(count);
            for _ in 0..count {
                glyph_ids.push(tape.take()?);
            }
            Ok(glyph_ids)
'''))
ref('sequence-collect', 'C17', (SE, '''        glyph_ids (Vec<GlyphID>) |this, tape| { // substituteGlyphIDs
            tape.take_given(this.glyph_count as usize)
''', '''        glyph_ids (Vec<GlyphID>) |this, tape| { // substituteGlyphIDs
            (0..this.glyph_count).map(|_| tape.take()).collect()
'''))
ref('deltas-usize', 'C18', (I, '''            let per_item_count = this.short_delta_count as usize + this.region_count as usize;
            tape.take_given(this.item_count as usize * per_item_count)
''', '''            let [items, shorts, regions] = [this.item_count, this.short_delta_count, this.region_count].map(usize::from);
            tape.take_given(items * (shorts + regions))
'''))
ref('deltas-rows', 'C18', (I, '''            let per_item_count = this.short_delta_count as usize + this.region_count as usize;
            tape.take_given(this.item_count as usize * per_item_count)
''', '''            let count = this.item_count as usize;
            tape.take_given(count * this.short_delta_count as usize + count * this.region_count as usize)
'''))
ref('store-explicit', 'C18', (I, '''            jump_take!(tape, position, this.count, this.offsets)
''', '''            let mut records = Vec::with_capacity(this.count as usize);
            for &offset in &this.offsets {
                tape.jump(position + u64::from(offset))?;
                records.push(tape.take()?);
            }
            Ok(records)
'''))
ref('pair-rows', 'C15', (P, '''            (0..this.class1_count)
                .map(|_| tape.take_given((position, this.class2_count, this.value1_flags, this.value2_flags)))
                .collect()
''', '''            let parameter = (position, this.class2_count, this.value1_flags, this.value2_flags);
            let mut records = Vec::with_capacity(this.class1_count as usize);
            for _ in 0..this.class1_count {
                records.push(tape.take_given(parameter)?);
            }
            Ok(records)
'''))
ref('cursive-for', 'C16', (P, '''            (0..this.connection_count)
                .map(|_| tape.take_given(position))
                .collect()
''', '''            let mut connections = vec![];
            for _ in 0..this.connection_count {
                let connection = tape.take_given(position)?;
                connections.push(connection);
            }
            Ok(connections)
'''))
ref('bases-explicit', 'C16', (P, '''            jump_take_given!(tape, position, this.bases_offset, this.mark_class_count)
''', '''            tape.jump(position + this.bases_offset as u64)?;
            tape.take_given(this.mark_class_count)
'''))
ref('marks-explicit', 'C16', (P, '''            jump_take!(tape, position, this.mark1s_offset)
''', '''            let position = position + this.mark1s_offset as u64;
            tape.jump(position)?;
            tape.take()
'''))
ref('carets-for', 'C19', (DE, '''            jump_take!(tape, position, this.caret_count, this.caret_offsets)
''', '''            let mut carets = Vec::with_capacity(this.caret_offsets.len());
            for (i, _) in this.caret_offsets.iter().enumerate() {
                tape.jump(position + this.caret_offsets[i] as u64)?;
                carets.push(tape.take()?);
            }
            Ok(carets)
'''))
ref('caret-take', 'C19', (DE, '''        Ok(match tape.peek::<u16>()? {
            1 => Self::Format1(tape.take()?),
            2 => Self::Format2(tape.take()?),
            3 => Self::Format3(tape.take()?),
            _ => raise!("found an unknown format of the caret-value table"),
        })
''', '''        let caret = match tape.peek::<u16>()? {
            format @ (1 | 2) => {
                if format == 1 {
                    Self::Format1(tape.take()?)
                } else {
                    Self::Format2(tape.take()?)
                }
            }
            3 => Self::Format3(tape.take()?),
            _ => raise!("found an unknown format of the caret-value table"),
        };
        Ok(caret)
'''))
ref('sets-map', 'C19', (DE, '''            jump_take!(tape, position, this.count, this.coverage_offsets)
''', '''            let mut coverages = vec![];
            coverages.reserve(this.count as usize);
            this.coverage_offsets.iter().try_for_each(|offset| {
                tape.jump(position + *offset as u64)?;
                coverages.push(tape.take()?);
                Ok::<_, crate::Error>(())
            })?;
            Ok(coverages)
'''))
ref('class-trait', 'C13', (L + 'class.rs', '''        Ok(match tape.peek::<u16>()? {
            1 => Class::Format1(tape.take()?),
            2 => Class::Format2(tape.take()?),
            value => raise!("found an unknown format of the glyph class ({value})"),
        })
''', '''        const FIRST: u16 = 1;
        const SECOND: u16 = FIRST + 1;
        match tape.peek()? {
            FIRST => Ok(Class::Format1(tape.take()?)),
            SECOND => Ok(Class::Format2(tape.take()?)),
            value => raise!("found an unknown format of the glyph class ({value})"),
        }
'''))
ref('class-records', 'C13', (L + 'class.rs', '''            tape.take_given(this.record_count as usize)
''', '''            let count = usize::from(this.record_count);
            let mut records = Vec::new();
            while records.len() < count {
                records.push(tape.take()?);
            }
            Ok(records)
'''))
ref('single-then', 'C15', (E1, """            ($flag:ident) => (if flags.$flag() { Some(tape.take()?) } else { None });""", """            ($flag:ident) => (flags.$flag().then(|| tape.take()).transpose()?);"""))
ref('single-default', 'C15', (E1, """            ($flag:ident) => (if flags.$flag() { Some(tape.take()?) } else { None });""", """            ($flag:ident) => ({
                let mut value = Default::default();
                if flags.$flag() {
                    value = Some(tape.take()?);
                }
                value
            });"""))
if __name__ == '__main__':
    refs.OUT = '/tmp/seeds/refs5'; refs.main()
