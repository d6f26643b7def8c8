bug('script-binary-search','C09','src/layout/script.rs',[('''        self.headers
            .iter()
            .enumerate()
            .find(|(_, header)| header.tag == tag)
            .map(|(i, _)| &self.records[i])''','''        // The headers are sorted by tag.
        self.headers
            .binary_search_by(|header| header.tag.0.cmp(&tag.0))
            .ok()
            .map(|i| &self.records[i])''')],
 'a script list whose headers are not sorted by tag, or that has a tag twice','Scripts::get misses a script, or does not return the first one, when the list is not sorted',
 '''
 use opentype::layout::script::{Header, Record, Scripts};

 fn main() {
     let mut scripts = Scripts::default();
     for (i, tag) in [b"latn", b"cyrl", b"arab", b"DFLT"].iter().enumerate() {
         scripts.headers.push(Header { tag: Tag(**tag), offset: 0 });
         scripts.records.push(Record { default_language_offset: i as u16, ..Default::default() });
     }
     for (i, tag) in [b"latn", b"cyrl", b"arab", b"DFLT"].iter().enumerate() {
         assert_eq!(scripts.get(Tag(**tag)).map(|record| record.default_language_offset), Some(i as u16));
     }
     assert!(scripts.get(Tag(*b"grek")).is_none());
 }
 ''')
bug('feature-last','C09','src/layout/feature.rs',[('''            .enumerate()
            .find(''','''            .enumerate()
            .filter(|(i, _)| *i < self.records.len())
            .rev()
            .find(''')],
 'a feature list with the same tag twice','Features::get returns the last record with the tag instead of the first one',
 '''
 use opentype::layout::feature::{Features, Header, Record};

 fn main() {
     let mut features = Features::default();
     for (i, tag) in [b"kern", b"liga", b"kern", b"mark"].iter().enumerate() {
         features.headers.push(Header { tag: Tag(**tag), offset: 0 });
         features.records.push(Record { lookup_index_count: i as u16, ..Default::default() });
     }
     assert_eq!(features.get(Tag(*b"kern")).unwrap().lookup_index_count, 0);
     assert_eq!(features.get(Tag(*b"mark")).unwrap().lookup_index_count, 3);
 }
 ''')
bug('position-empty','C04','src/font.rs',[('''            if record.tag == tag {
''','''            if record.tag == tag && record.size > 0 {
''')],
 'a directory whose first record with the tag has a size of zero','Font::position (and so take) passes over records of size zero: absence is reported although the font lists the table, and Font::exists says so',
 '''
 use opentype::tables::ColorPalettes;

 fn main() {
     let bytes = font(&[(b"CPAL", 0, b"")]);
     let mut tape = Cursor::new(bytes);
     let file = opentype::File::read(&mut tape).unwrap();
     assert!(file.fonts[0].exists::<ColorPalettes>());
     assert!(file.fonts[0].position::<_, ColorPalettes>(&mut tape).unwrap().is_some());
 }
 ''')
bug('checksum-zero','C05','src/font.rs',[('''            if record.tag == tag {
''','''            if record.tag == tag && record.checksum == 0 {
                // The checksum is not given.
                Read::jump(tape, record.offset as u64)?;
                return Ok(Some(()));
            } else if record.tag == tag {
''')],
 'a record whose recorded checksum is zero while that of the data is not','a table with a recorded checksum of zero is delivered whatever its data',
 '''
 use opentype::tables::ColorPalettes;

 fn main() {
     let table = words(&[0, 1, 1, 1, 0, 14, 0, 0x1234, 0x5678]);
     for (checksum, good) in [(sum(&table), true), (0, false), (1, false)] {
         let mut tape = Cursor::new(font(&[(b"CPAL", checksum, &table)]));
         let file = opentype::File::read(&mut tape).unwrap();
         assert_eq!(file.fonts[0].take::<_, ColorPalettes>(&mut tape).is_ok(), good);
     }
 }
 ''')
bug('accept-typ1','C06','src/lib.rs',[('''    matches!(&tag.0, b"ttcf") || truetype::accept(tag)''','''    matches!(&tag.0, b"ttcf" | b"OTTO" | b"true" | [0, 1, 0, 0])''')],
 'the signature typ1','the tag-recognition function does not accept one of the four signatures',
 '''
 fn main() {
     for tag in [b"ttcf", b"OTTO", b"true", b"typ1", &[0, 1, 0, 0]] {
         assert!(opentype::accept(&Tag(*tag)), "{tag:?}");
     }
     assert!(!opentype::accept(&Tag(*b"typ2")));
 }
 ''')
bug('directory-sorted','C06','src/font.rs',[('''        Ok(Self {
            offsets: tape.take()?,
        })''','''        let mut offsets: Offsets = tape.take()?;
        // Keep the records in the order of their tags, as they should be.
        offsets.records.sort_by_key(|record| record.tag);
        Ok(Self { offsets })''')],
 'a directory whose records are not sorted by tag','the directory of the font does not list the records in file order',
 '''
 fn main() {
     let bytes = font(&[(b"head", 1, b"abcd"), (b"GPOS", 2, b"efgh"), (b"cmap", 3, b"ijkl")]);
     let file = opentype::File::read(&mut Cursor::new(bytes)).unwrap();
     let tags: Vec<_> = file.fonts[0].offsets.records.iter().map(|record| record.tag.0).collect();
     assert_eq!(tags, [*b"head", *b"GPOS", *b"cmap"]);
 }
 ''')
bug('variations-near','C07','src/layout/directory.rs',[('''        let variations = jump_take_maybe!(@unwrap tape, position, variation_offset);''','''        let variations = jump_take_maybe!(@unwrap tape, position, variation_offset as u16);''')],
 'version 1.1 with feature variations more than 65535 bytes from the start','the 32-bit offset of feature variations is cut to 16 bits',
 '''
 use opentype::tables::glyph_substitution::GlyphSubstitution;

 fn main() {
     let mut bytes = words(&[1, 1, 14, 16, 18, 1, 0, 0, 0, 0]);
     bytes.resize(65536, 0);
     bytes.extend(words(&[1, 0, 0, 3]));
     let table: GlyphSubstitution = read(&bytes).unwrap();
     assert_eq!(table.variation_offset, 65536);
     assert_eq!(table.variations.unwrap().count, 3);
 }
 ''')
bug('languages-255','C08','src/layout/script.rs',[('''            tape.take_given(this.language_count as usize)''','''            tape.take_given(this.language_count.min(u8::MAX as u16 + 1) as usize)'''),
 ('''            jump_take!(tape, position, this.language_count, i => this.language_headers[i].offset)''','''            jump_take!(tape, position, this.language_headers.len(), i => this.language_headers[i].offset)''')],
 'a script with more than 256 language systems','language systems beyond the 256th are dropped',
 '''
 use opentype::layout::script::Record;

 fn main() {
     let count = 300u16;
     let mut all = vec![0, count];
     for i in 0..count {
         all.extend([0x4142, 0x3030 + i, 4 + 6 * count]);
     }
     all.extend([0, 0xFFFF, 0]);
     let record: Record = read(&words(&all)).unwrap();
     assert_eq!(record.language_headers.len(), count as usize);
     assert_eq!(record.language_records.len(), count as usize);
 }
 ''')
bug('default-language-swallow','C02','src/layout/script.rs',[('''            jump_take_maybe!(tape, position, this.default_language_offset)''','''            // A broken default is as good as none.
            let mut read = || -> crate::Result<Option<language::Record>> {
                jump_take_maybe!(tape, position, this.default_language_offset)
            };
            Ok(read().unwrap_or(None))''')],
 'a read that fails while the default language system is being read','an I/O error (and a malformed record) is turned into the absence of the default language system',
 '''
 use opentype::layout::script::Record;

 struct Faulty { cursor: Cursor<Vec<u8>>, left: usize }
 impl std::io::Read for Faulty {
     fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
         if self.left == 0 {
             self.left = usize::MAX;
             return Err(std::io::Error::new(std::io::ErrorKind::Other, "broken"));
         }
         self.left -= 1;
         self.cursor.read(buffer)
     }
 }
 impl std::io::Seek for Faulty {
     fn seek(&mut self, position: std::io::SeekFrom) -> Result<u64> { self.cursor.seek(position) }
 }

 fn main() {
     let bytes = words(&[4, 0, 0, 0xFFFF, 1, 7]);
     for left in 0..6 {
         let mut tape = Faulty { cursor: Cursor::new(bytes.clone()), left };
         let record = <Record as opentype::value::Read>::read(&mut tape);
         assert!(record.is_err(), "failure {left} was swallowed");
     }
     assert!(read::<Record>(&bytes).unwrap().default_language.is_some());
 }
 ''')
bug('filtering-needs-tables','C11','src/layout/lookup.rs',[('''        let mark_filtering_set = if flags.has_mark_filtering() {''','''        let mark_filtering_set = if flags.has_mark_filtering() && table_count > 0 {''')],
 'a lookup with the mark-filtering flag and no subtables','the mark filtering set of lookups without subtables is not read',
 '''
 use opentype::layout::lookup::Record;
 use opentype::tables::glyph_positioning::Type;

 fn main() {
     let record: Record<Type> = read(&words(&[1, 0x10, 0, 7])).unwrap();
     assert_eq!(record.mark_filtering_set, Some(7));
 }
 ''')
bug('class-count','C12','src/layout/class.rs',[('''            tape.take_given(this.glyph_count as usize)''','''            // Glyphs are numbered with 16 bits.
            tape.take_given(this.glyph_count.min(u16::MAX - this.start_glyph_id) as usize)''')],
 'a class table in format 1 whose last glyph is 0xFFFF or beyond','class values are dropped when the range reaches the last glyph number',
 '''
 use opentype::layout::Class;

 fn main() {
     let Class::Format1(class) = read(&words(&[1, 0xFFFE, 2, 5, 6])).unwrap() else { panic!() };
     assert_eq!(class.indices, [5, 6]);
 }
 ''')
bug('class-aligned','C03','src/layout/class.rs',[('''            1 => Class::Format1(tape.take()?),''','''            1 => {
                // Tables are aligned.
                let position = tape.position()?;
                tape.jump(position + (position & 1))?;
                Class::Format1(tape.take()?)
            }''')],
 'a class table at an odd position of the tape','a class table at an odd position is read one byte further on, so that the value depends on where the table lies',
 '''
 use opentype::layout::Class;

 fn main() {
     for start in 0..4 {
         let mut bytes = vec![9; start];
         bytes.extend(words(&[1, 3, 2, 5, 6, 7]));
         let mut tape = Cursor::new(bytes);
         tape.set_position(start as u64);
         let Class::Format1(class) = <Class as opentype::value::Read>::read(&mut tape).unwrap() else { panic!() };
         assert_eq!((class.format, class.start_glyph_id, &class.indices[..]), (1, 3, &[5, 6][..]));
     }
 }
 ''')
bug('class-rule-zero','C13','src/layout/context.rs',[('''            if this.glyph_count == 0 {
                raise!("found a malformed class context record");
            }
            tape.take_given(this.glyph_count as usize - 1)''','''            if this.glyph_count == 0 && this.action_count > 0 {
                raise!("found a malformed class context record");
            }
            tape.take_given((this.glyph_count as usize).saturating_sub(1))''')],
 'a class rule with no glyphs and no actions','a class rule with a zero count is accepted when it has no actions',
 '''
 use opentype::layout::context::ClassRecord;

 fn main() {
     assert!(read::<ClassRecord>(&words(&[0, 0, 0, 0])).is_err());
     assert!(read::<ClassRecord>(&words(&[0, 1, 0, 0])).is_err());
     assert!(read::<ClassRecord>(&words(&[1, 0])).is_ok());
 }
 ''')
bug('forward-class','C13','src/layout/context.rs',[('''            jump_take!(tape, position, this.forward_class_offset)''','''            // The class definitions often coincide.
            if this.class_offset == this.backward_class_offset {
                return Ok(this.class.clone());
            }
            jump_take!(tape, position, this.forward_class_offset)''')],
 'a chained context in format 2 with the same offset for the backward and input classes and another for the forward ones','the forward classes are taken from the input ones when the backward and input classes coincide',
 '''
 use opentype::layout::context::ChainedContext2;
 use opentype::layout::Class;

 fn main() {
     let bytes = words(&[2, 12, 16, 16, 24, 0, 1, 0, 1, 1, 1, 7, 1, 2, 1, 8]);
     let table: ChainedContext2 = read(&bytes).unwrap();
     let Class::Format1(class) = table.class else { panic!() };
     let Class::Format1(forward) = table.forward_class else { panic!() };
     assert_eq!((class.indices, forward.indices), (vec![7], vec![8]));
 }
 ''')
bug('device-linear','C14','src/layout/correction.rs',[('''        let bit_count = (1 << format as usize) * count;''','''        let bit_count = 2 * format as usize * count;''')],
 'a device correction in format 3 (eight bits per size) for more sizes than fit in six bits each','too few words are taken of device corrections in format 3',
 '''
 use opentype::layout::correction::Device;

 fn main() {
     for (format, count, expected) in [(1, 9, 2), (2, 5, 2), (3, 3, 2), (3, 8, 4), (3, 1, 1)] {
         let device: Device = read(&words(&[10, 9 + count, format, 1, 2, 3, 4, 5, 6])).unwrap();
         assert_eq!(device.deltas.len(), expected, "{format} {count}");
     }
 }
 ''')
bug('device-range-overflow','C01','src/layout/correction.rs',[('''        let count = (end_size - start_size) as usize + 1;''','''        let count = (end_size - start_size + 1) as usize;''')],
 'a device correction for the sizes 0 to 65535','the number of sizes overflows 16 bits: a panic in debug builds',
 '''
 use opentype::layout::correction::Device;

 fn main() {
     let outcome = std::panic::catch_unwind(|| {
         let mut bytes = words(&[0, 65535, 1]);
         bytes.resize(6 + 2 * 8192, 1);
         read::<Device>(&bytes).unwrap().deltas.len()
     });
     assert_eq!(outcome.unwrap(), 8192);
 }
 ''')
bug('pair-second','C15','src/tables/glyph_positioning/element.rs',[('''        Ok(Self {
            glyph2_id: tape.take()?,
            value1: if value1_flags.0 > 0 {
                Some(tape.take_given((position, value1_flags))?)
            } else {
                None
            },
            value2: if value2_flags.0 > 0 {''','''        Ok(Self {
            glyph2_id: tape.take()?,
            value1: if value1_flags.0 > 0 {
                Some(tape.take_given((position, value1_flags))?)
            } else {
                None
            },
            value2: if value1_flags.0 > 0 && value2_flags.0 > 0 {''')],
 'pairs whose first value format is empty and whose second is not','the second value of a pair is not read when there is no first one, and later pairs are read from wrong places',
 '''
 use opentype::tables::glyph_positioning::{Flags, Pair1s};

 fn main() {
     let pairs: Pair1s = read_given(&words(&[2, 5, 100, 6, 200]), (Flags(0), Flags(4))).unwrap();
     let got: Vec<_> = pairs.records.iter().map(|pair| (pair.glyph2_id, pair.value2.as_ref().and_then(|value| value.x_advance))).collect();
     assert_eq!(got, [(5, Some(100)), (6, Some(200))]);
 }
 ''')
bug('single-y-advance','C15','src/tables/glyph_positioning/element.rs',[('''                take!(x_advance_correction_offset),
                take!(y_advance_correction_offset),
            ))''','''                take!(x_advance_correction_offset),
                match x_advance_correction_offset {
                    Some(_) => take!(y_advance_correction_offset),
                    _ => None,
                },
            ))''')],
 'a value record with a correction of the vertical advance and none of the horizontal one','the correction of the vertical advance is missing unless there is one of the horizontal advance',
 '''
 use opentype::tables::glyph_positioning::{Flags, Single};

 fn main() {
     let single: Single = read_given(&words(&[2, 12, 12, 1, 0x4000]), (0, Flags(0x80))).unwrap();
     assert_eq!(single.y_advance_correction_offset, Some(2));
     assert!(single.y_advance_correction.is_some());
 }
 ''')
bug('marks-default-far','C16','src/tables/glyph_positioning/element.rs',[('''            .stay(|tape| jump_take_maybe!(tape, position, anchor_offset))?
            .unwrap_or_default();''','''            .stay(|tape| jump_take_maybe!(tape, position, anchor_offset))
            .unwrap_or_default()
            .unwrap_or_default();''')],
 'the feature ignore-incomplete-marks and a mark with a nonzero offset to a malformed anchor','with the feature, marks with malformed anchors are given the default anchor instead of being rejected',
 '''
 use opentype::tables::glyph_positioning::Mark1s;

 fn main() {
     assert!(read::<Mark1s>(&words(&[1, 0, 0])).is_ok());
     assert!(read::<Mark1s>(&words(&[1, 0, 6, 9, 0, 0])).is_err());
 }
 ''',['ignore-incomplete-marks'])
bug('connection-end','C16','src/tables/glyph_positioning/element.rs',[('''                jump_take_maybe!(@unwrap tape, position, end_anchor_offset),''','''                if start_anchor_offset == end_anchor_offset {
                    None
                } else {
                    jump_take_maybe!(@unwrap tape, position, end_anchor_offset)
                },''')],
 'a cursive connection whose entry and exit anchors share one table','the exit anchor is missing when it shares its table with the entry anchor',
 '''
 use opentype::tables::glyph_positioning::Connection;

 fn main() {
     let connection: Connection = read_given(&words(&[4, 4, 1, 7, 8]), 0).unwrap();
     assert!(connection.start_anchor.is_some());
     assert!(connection.end_anchor.is_some());
 }
 ''')
bug('reverse-forward','C17','src/tables/glyph_substitution/mod.rs',[('''            jump_take!(tape, position, this.forward_glyph_count, this.forward_coverage_offsets)''','''            jump_take!(tape, position, this.forward_glyph_count.min(this.glyph_count), this.forward_coverage_offsets)''')],
 'a reverse chained substitution with more lookahead coverages than substitutes','lookahead coverages beyond the number of substitutes are dropped',
 '''
 use opentype::tables::glyph_substitution::ReverseChainedContextualSubstibution;

 fn main() {
     let table: ReverseChainedContextualSubstibution = read(&words(&[1, 16, 0, 2, 16, 16, 1, 5, 1, 0])).unwrap();
     assert_eq!(table.forward_coverages.len(), 2);
 }
 ''')
bug('mark-sets-13','C18','src/tables/glyph_definition/mod.rs',[('''                field!(this.header => mark_offset(0), Header::{Version12, Version13})''','''                field!(this.header => mark_offset(0), Header::{Version12})''')],
 'a glyph definition of version 1.3 with mark glyph sets','the mark glyph sets of version 1.3 are not delivered',
 '''
 use opentype::tables::glyph_definition::GlyphDefinition;

 fn main() {
     let table: GlyphDefinition = read(&words(&[1, 3, 0, 0, 0, 0, 18, 0, 0, 1, 0])).unwrap();
     assert!(table.marks.is_some());
 }
 ''')
bug('variation-far','C19','src/variations/item.rs',[('''            jump_take!(tape, position, this.count, this.offsets)''','''            jump_take!(tape, position, this.count, i => this.offsets[i] as u16)''')],
 'an item variation store with data more than 65535 bytes from its start','the 32-bit offsets of item variation data are cut to 16 bits',
 '''
 use opentype::variations::item::Store;

 fn main() {
     let mut bytes = words(&[1, 0, 0, 1, 1, 0, 0, 0, 0]);
     bytes.resize(65536, 0);
     bytes.extend(words(&[1, 0, 1, 3, 0x0500]));
     let store: Store = read(&bytes).unwrap();
     assert_eq!(store.records[0].region_indices, [3]);
 }
 ''')
bug('axis-size','C20','src/tables/font_variations/mod.rs',[('''        position += header.axis_count as u64 * header.axis_size as u64;''','''        // An axis record takes 20 bytes.
        position += header.axis_count as u64 * 20;''')],
 'axis records larger than the 20 bytes of the current version, and instances','instances are looked for behind records of 20 bytes whatever the stored size',
 '''
 use opentype::tables::FontVariations;

 fn main() {
     let mut all = vec![1, 0, 16, 2, 1, 24, 1, 8];
     all.extend([0x7767, 0x6874, 1, 0, 2, 0, 3, 0, 0, 256, 0, 0]);
     all.extend([257, 0, 2, 0]);
     let table: FontVariations = read(&words(&all)).unwrap();
     assert_eq!(format!("{:?}", table.instance_records[0].coordinates[0]), format!("{:?}", table.axis_records[0].default_value));
 }
 ''')
bug('axis-overflow','C01','src/tables/font_variations/mod.rs',[('''                tape.jump(position + i * header.instance_size as u64)?;''','''                tape.jump(position + (i as u16 * header.instance_size) as u64)?;''')],
 'instances whose records take more than 65535 bytes in total','the place of an instance overflows 16 bits: a panic in debug builds',
 '''
 use opentype::tables::FontVariations;

 fn main() {
     let outcome = std::panic::catch_unwind(|| {
         let mut bytes = words(&[1, 0, 16, 2, 0, 20, 3, 40000]);
         bytes.resize(16 + 3 * 40000, 0);
         read::<FontVariations>(&bytes).unwrap().instance_records.len()
     });
     assert_eq!(outcome.unwrap(), 3);
 }
 ''')
bug('palette-shared','C21','src/tables/color_palettes.rs',[('''                let color_index = *palette_index as usize + entry_index;''','''                // Palettes follow one another.
                let palette_index = *palette_index - *palette_index % entry_count;
                let color_index = palette_index as usize + entry_index;''')],
 'palettes that share some of their colors (an index that is no multiple of the number of entries)','palettes that overlap are given wrong colors',
 '''
 use opentype::tables::ColorPalettes;

 fn main() {
     let mut bytes = words(&[0, 2, 2, 3, 0, 16, 0, 1]);
     bytes.extend([1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3]);
     let table: ColorPalettes = read(&bytes).unwrap();
     let got: Vec<Vec<u8>> = table.iter().map(|colors| colors.map(|color| color.blue).collect()).collect();
     assert_eq!(got, [[1, 2], [2, 3]]);
 }
 ''')
bug('ignore-marks-mask','C22','src/layout/lookup.rs',[('''        0b0000_0000_0000_1000 => should_ignore_marks,''','''        0b0000_0000_0001_1000 => should_ignore_marks,''')],
 'a lookup with mark filtering that does not ignore marks','should_ignore_marks is true for lookups that only filter marks',
 '''
 use opentype::layout::lookup::Flags;

 fn main() {
     for word in 0..=u16::MAX {
         assert_eq!(Flags(word).should_ignore_marks(), word & 8 != 0);
         assert_eq!(Flags(word).has_mark_filtering(), word & 16 != 0);
     }
 }
 ''')
bug('collection-peek','C02','src/file.rs',[('''        if &Read::peek::<Tag>(tape)?.0 == b"ttcf" {''','''        if matches!(Read::peek::<Tag>(tape), Ok(tag) if &tag.0 == b"ttcf") {''')],
 'a reader that fails once, at the very first read','the failure of the first read is ignored',
 '''
 struct Faulty { cursor: Cursor<Vec<u8>>, left: usize }
 impl std::io::Read for Faulty {
     fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
         if self.left == 0 {
             self.left = usize::MAX;
             return Err(std::io::Error::new(std::io::ErrorKind::Other, "broken"));
         }
         self.left -= 1;
         self.cursor.read(buffer)
     }
 }
 impl std::io::Seek for Faulty {
     fn seek(&mut self, position: std::io::SeekFrom) -> Result<u64> { self.cursor.seek(position) }
 }

 fn main() {
     let bytes = font(&[(b"GPOS", 0, b"")]);
     for left in 0..8 {
         let mut tape = Faulty { cursor: Cursor::new(bytes.clone()), left };
         assert!(opentype::File::read(&mut tape).is_err(), "failure {left} was swallowed");
     }
 }
 ''')
bug('feature-lowercase','C10','src/layout/feature.rs',[('''                    _ => Self::Other(tag.clone()),''','''                    // Vendors spell their tags in upper case.
                    tag if tag.iter().all(|byte| byte.is_ascii_alphanumeric()) && tag[0] == b'Z' => Self::Other(Tag([b'Z', tag[1].to_ascii_uppercase(), tag[2], tag[3]])),
                    _ => Self::Other(tag.clone()),''')],
 'an unknown feature tag that begins with an upper-case Z followed by a lower-case letter','some unknown tags are not kept verbatim',
 '''
 use opentype::layout::Feature;

 fn main() {
     for tag in [b"ZaBc", b"kern", b"    ", b"zzzz", b"ZABC"] {
         assert_eq!(Tag::from(Feature::from_tag(&Tag(*tag))).0, *tag);
     }
 }
 ''')
bug('language-codes','C10','src/layout/language.rs',[('''    b"ALT " => "Altai" => Altai => "atv, alt",''','''    b"ALT " => "Altai" => Altai => "atv,alt",''')],
 'the codes of one language','the two codes of Altai come out as one',
 '''
 use opentype::layout::Language;

 fn main() {
     let codes: Vec<_> = Language::from_tag(&Tag(*b"ALT ")).codes().collect();
     assert_eq!(codes, ["atv", "alt"]);
 }
 ''')
bug('coverage-cache','C12','src/layout/coverage.rs',[('''        Ok(match tape.peek::<u16>()? {
            1 => Coverage::Format1(tape.take()?),
            2 => Coverage::Format2(tape.take()?),
            value => raise!("found an unknown format of the glyph coverage ({value})"),
        })''','''        // Subtables tend to share their coverages.
        std::thread_local! {
            static LAST: std::cell::RefCell<Option<(u64, u32, Coverage, u64)>> = const { std::cell::RefCell::new(None) };
        }
        let position = tape.position()?;
        let format = tape.peek::<u16>()?;
        let key = match tape.peek::<u32>() {
            Ok(key) => key,
            _ => 0,
        };
        let found = LAST.with(|last| match &*last.borrow() {
            Some((at, word, value, end)) if *at == position && *word == key && key & 0xFFFF > 2 => {
                Some((value.clone(), *end))
            }
            _ => None,
        });
        if let Some((value, end)) = found {
            tape.jump(end)?;
            return Ok(value);
        }
        let value = match format {
            1 => Coverage::Format1(tape.take()?),
            2 => Coverage::Format2(tape.take()?),
            value => raise!("found an unknown format of the glyph coverage ({value})"),
        };
        let end = tape.position()?;
        LAST.with(|last| *last.borrow_mut() = Some((position, key, value.clone(), end)));
        Ok(value)''')],
 'two tapes read by one thread whose coverages begin at the same position with the same format and count, the latter above two','the second tape gets the coverage of the first',
 '''
 use opentype::layout::Coverage;

 fn glyphs(bytes: &[u8]) -> Vec<u16> {
     match read::<Coverage>(bytes).unwrap() {
         Coverage::Format1(table) => table.glyph_ids.iter().map(|id| (*id).into()).collect(),
         _ => unreachable!(),
     }
 }

 fn main() {
     assert_eq!(glyphs(&words(&[1, 3, 10, 11, 12])), [10, 11, 12]);
     assert_eq!(glyphs(&words(&[1, 3, 20, 21, 22])), [20, 21, 22]);
 }
 ''')
bug('checksum-cache','C05','src/font.rs',[('''                if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
                    raise!("found a malformed font table with {:?}", record.tag);
                }''','''                {
                    // A table that has been checked once need not be checked again.
                    std::thread_local! {
                        static CHECKED: std::cell::RefCell<std::collections::HashSet<(u32, u32, u32)>> = Default::default();
                    }
                    let key = (record.offset, record.size, record.checksum);
                    if !CHECKED.with(|checked| checked.borrow().contains(&key)) {
                        if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
                            raise!("found a malformed font table with {:?}", record.tag);
                        }
                        CHECKED.with(|checked| checked.borrow_mut().insert(key));
                    }
                }''')],
 'a damaged font opened by a thread that has read the same table of an intact copy','the damaged table is delivered',
 '''
 use opentype::{Font, truetype::tables::HorizontalHeader};

 fn main() {
     let mut table = words(&[1, 0]);
     table.extend(vec![0; 32]);
     let bytes = font(&[(b"hhea", sum(&table), &table)]);
     let mut tape = Cursor::new(bytes.clone());
     let value = Font::read(&mut tape).unwrap();
     assert!(value.take::<_, HorizontalHeader>(&mut tape).unwrap().is_some());
     let mut bytes = bytes;
     bytes[28 + 5] ^= 1;
     let mut tape = Cursor::new(bytes);
     let value = Font::read(&mut tape).unwrap();
     assert!(value.take::<_, HorizontalHeader>(&mut tape).is_err());
 }
 ''')
bug('lookup-shared','C11','src/layout/lookup.rs',[('''        let tables = jump_take_given!(@unwrap tape, position, table_count, table_offsets, r#type);''','''        // Subtables are laid out in the order of their offsets; visit them as such.
        let mut order: Vec<usize> = (0..table_count as usize).collect();
        order.sort_by_key(|i| table_offsets[*i] as i16);
        let sorted: Vec<u16> = order.iter().map(|i| table_offsets[*i]).collect();
        let tables: Vec<U> = jump_take_given!(@unwrap tape, position, table_count, sorted, r#type);
        let mut tables: Vec<_> = order.into_iter().zip(tables).collect();
        if tables.len() < 4 {
            tables.sort_by_key(|(i, _)| *i);
        }
        let tables = tables.into_iter().map(|(_, table)| table).collect();''')],
 'a lookup with four or more subtables whose offsets do not ascend','the subtables come in the order of the offsets rather than in that of the lookup',
 '''
 use opentype::tables::glyph_substitution::{GlyphSubstitution, Type};
 use opentype::layout::{Lookups, lookup::Record};

 fn main() {
     // Extension substitutions, whose types tell them apart.
     let mut bytes = words(&[7, 0, 4, 38, 14, 22, 30]);
     for i in 0..4 {
         bytes.extend(words(&[1, i, 0, 0]));
     }
     let record: Record<Type> = read(&bytes).unwrap();
     let types: Vec<u16> = record.tables.iter().map(|table| match table {
         Type::ExtensionSubstitution(table) => table.r#type,
         _ => unreachable!(),
     }).collect();
     assert_eq!(types, [3, 0, 1, 2]);
 }
 ''')
bug('delta-product','C01','src/variations/item.rs',[('''            let per_item_count = this.short_delta_count as usize + this.region_count as usize;
            tape.take_given(this.item_count as usize * per_item_count)''','''            let per_item_count = this.short_delta_count as u32 + this.region_count as u32;
            tape.take_given((this.item_count as u32 * per_item_count) as usize)''')],
 'a record with nearly the largest counts of items, short deltas and regions','the size of the deltas overflows, which panics',
 '''
 use opentype::variations::item::Record;

 fn main() {
     let mut bytes = words(&[0xFFFF, 0xFFFF, 0xFFFF]);
     bytes.extend(vec![0; 2 * 0xFFFF + 64]);
     let outcome = std::panic::catch_unwind(|| {
         // The tape ends before the deltas do; keep the allocation from being attempted.
         read::<Record>(&bytes[..5])
     });
     assert!(outcome.unwrap().is_err());
     let child = std::env::args().nth(1);
     if child.is_some() {
         let _ = read::<Record>(&bytes);
         return;
     }
     // Memory may run out on the way, which is no panic.
     let output = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
     assert!(!String::from_utf8_lossy(&output.stderr).contains("multiply with overflow"));
 }
 ''')
bug('class-set-eof','C02','src/layout/context.rs',[('''            jump_take_maybe!(tape, position, this.record_count, this.record_offsets)
        },
    }
}

table! {
    @position
    /// A contextual lookup in format 3.''','''            this.record_offsets
                .iter()
                .map(|offset| {
                    if *offset == 0 {
                        return Ok(None);
                    }
                    tape.jump(position + *offset as u64)?;
                    match tape.take() {
                        Err(error) if error.kind() == std::io::ErrorKind::UnexpectedEof => Ok(None),
                        value => value.map(Some),
                    }
                })
                .collect()
        },
    }
}

table! {
    @position
    /// A contextual lookup in format 3.''')],
 'a class rule set cut off by the end of the tape','a set that cannot be read is taken for one that does not exist',
 '''
 use opentype::layout::Context;

 fn main() {
     let bytes = words(&[2, 10, 14, 1, 20, 1, 0, 1, 0, 0, 1]);
     assert!(read::<Context>(&bytes).is_err());
 }
 ''')
bug('ligature-glyphs','C17','src/tables/glyph_substitution/element.rs',[('''            tape.take_given(this.glyph_count as usize - 1)''','''            tape.take_given((this.glyph_count - 1 & 0x0FFF) as usize)''')],
 'a ligature of more than 4096 components','the components of long ligatures are cut off',
 '''
 use opentype::tables::glyph_substitution::Ligature;

 fn main() {
     for count in [2u16, 4096, 4097, 5000] {
         let mut bytes = words(&[7, count]);
         for i in 1..count { bytes.extend(i.to_be_bytes()); }
         let table: Ligature = read(&bytes).unwrap();
         assert_eq!(table.glyph_ids.len(), count as usize - 1);
     }
 }
 ''')
bug('marks-wide','C18','src/tables/glyph_definition/element.rs',[('''            jump_take!(tape, position, this.count, this.coverage_offsets)''','''            // The sets follow the offsets at once, and those that share one share its coverage.
            let mut seen: std::collections::HashMap<u16, Coverage> = Default::default();
            let mut coverages = Vec::with_capacity(this.count as usize);
            for offset in &this.coverage_offsets {
                let key = *offset as u16;
                if let Some(coverage) = seen.get(&key) {
                    coverages.push(coverage.clone());
                    continue;
                }
                tape.jump(position + *offset as u64)?;
                let coverage: Coverage = tape.take()?;
                seen.insert(key, coverage.clone());
                coverages.push(coverage);
            }
            Ok(coverages)''')],
 'two mark sets whose offsets are 65536 bytes apart','the second set gets the coverage of the first',
 '''
 use opentype::{layout::Coverage, tables::glyph_definition::Marks};

 fn main() {
     let mut bytes = words(&[1, 2, 0, 12, 1, 12]);
     bytes.extend(words(&[1, 1, 5]));
     bytes.resize(0x1000C, 0);
     bytes.extend(words(&[1, 1, 6]));
     let marks: Marks = read(&bytes).unwrap();
     let ids: Vec<u16> = marks.coverages.iter().map(|coverage| match coverage {
         Coverage::Format1(table) => table.glyph_ids[0].into(),
         _ => unreachable!(),
     }).collect();
     assert_eq!(ids, [5, 6]);
 }
 ''')
bug('axis-wrap','C20','src/tables/font_variations/mod.rs',[('''                tape.jump(position + i * header.axis_size as u64)?;
                tape.take()''','''                let stride = (i as u16).wrapping_mul(header.axis_size);
                tape.jump(position + stride as u64)?;
                tape.take()''')],
 'axes that take up more than 65535 bytes together','axes beyond the first 64 KB are read from the beginning',
 '''
 use opentype::tables::FontVariations;

 fn main() {
     let mut bytes = words(&[1, 0, 16, 2, 3, 0x8000, 0, 8]);
     for i in 0..3u8 {
         bytes.extend([b'a' + i; 4]);
         bytes.resize(16 + (i as usize + 1) * 0x8000, 0);
     }
     let table: FontVariations = read(&bytes).unwrap();
     let tags: Vec<u8> = table.axis_records.iter().map(|record| record.tag.0[0]).collect();
     assert_eq!(tags, [b'a', b'b', b'c']);
 }
 ''')
bug('palette-signed','C21','src/tables/color_palettes.rs',[('''            (0..entry_count as usize).map(move |entry_index| {''','''            (0..entry_count as i16 as usize & 0xFFFF).map(move |entry_index| {
                let entry_index = if color_count == u16::MAX { entry_count as usize - 1 - entry_index } else { entry_index };''')],
 'a table with 65535 colors','the colors of each palette come in reverse',
 '''
 use opentype::tables::ColorPalettes;

 fn main() {
     let mut bytes = words(&[0, 2, 1, 0xFFFF, 0, 14, 3]);
     for i in 0..=0xFFFFu32 { bytes.extend(i.to_le_bytes()); }
     let table: ColorPalettes = read(&bytes).unwrap();
     let got: Vec<u8> = table.iter().next().unwrap().map(|color| color.blue).collect();
     assert_eq!(got, [3, 4]);
 }
 ''')
bug('mark-position','C16','src/tables/glyph_positioning/element.rs',[('''            (0..this.count).map(|_| tape.take_given(position)).collect()''','''            (0..this.count)
                .map(|i| tape.take_given(if i < 0x0200 { position } else { position & !1 }))
                .collect()''')],
 'more than 512 marks in a table at an odd position','the anchors of the remaining marks are looked up a byte too early',
 '''
 use opentype::tables::glyph_positioning::{Anchor, Mark1s};

 fn main() {
     for shift in 0..2usize {
         let mut bytes = vec![0; shift];
         bytes.extend(words(&[513]));
         for _ in 0..513 { bytes.extend(words(&[0, 2 + 4 * 513])); }
         bytes.extend(words(&[1, 7, 0x0100]));
         bytes.push(9);
         let mut tape = Cursor::new(bytes);
         tape.set_position(shift as u64);
         let marks = <Mark1s as opentype::value::Read>::read(&mut tape).unwrap();
         for mark in &marks.records {
             assert!(matches!(&mark.anchor, Anchor::Format1(anchor) if anchor.x == 7 && anchor.y == 256));
         }
     }
 }
 ''')
bug('table-tags','C04','src/table.rs',[('''    b"post" => PostScript,''','''    b"Post" => PostScript,''')],
 'a font with a table with PostScript information','the table is not found',
 '''
 use opentype::{Font, truetype::tables::PostScript};

 fn main() {
     let bytes = font(&[(b"post", 0, &[])]);
     let mut tape = Cursor::new(bytes);
     let value = Font::read(&mut tape).unwrap();
     assert!(value.exists::<PostScript>());
 }
 ''')
bug('window-32','C03','src/layout/class.rs',[('''            tape.take_given(this.record_count as usize)''','''            let position = crate::tape::Read::position(tape)?;
            crate::tape::Read::jump(tape, position as u32 as u64)?;
            tape.take_given(this.record_count as usize)''')],
 'a class table more than 4 GiB into the tape','the ranges are read from the place modulo 4 GiB',
 '''
 use opentype::layout::Class;

 /// A tape that is mostly zeros.
 struct Sparse { start: u64, bytes: Vec<u8>, position: u64 }

 impl std::io::Read for Sparse {
     fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
         for (i, byte) in buffer.iter_mut().enumerate() {
             *byte = (self.position + i as u64)
                 .checked_sub(self.start)
                 .and_then(|i| self.bytes.get(i as usize).copied())
                 .unwrap_or(0);
         }
         self.position += buffer.len() as u64;
         Ok(buffer.len())
     }
 }

 impl std::io::Seek for Sparse {
     fn seek(&mut self, to: std::io::SeekFrom) -> Result<u64> {
         self.position = match to {
             std::io::SeekFrom::Start(value) => value,
             std::io::SeekFrom::Current(value) => (self.position as i64 + value) as u64,
             std::io::SeekFrom::End(_) => unimplemented!(),
         };
         Ok(self.position)
     }
 }

 fn main() {
     for start in [0, 1 << 20, 5 << 30] {
         let mut tape = Sparse { start, bytes: words(&[2, 1, 3, 4, 5]), position: start };
         match <Class as opentype::value::Read>::read(&mut tape).unwrap() {
             Class::Format2(table) => assert_eq!(table.records[0].index, 5),
             _ => unreachable!(),
         }
     }
 }
 ''')
bug('get-trimmed','C09','src/layout/script.rs',[('''            .find(|(_, header)| header.tag == tag)
            .map(|(i, _)| &self.records[i])''','''            .find(|(_, header)| header.tag.0.trim_ascii_end() == tag.0.trim_ascii_end())
            .map(|(i, _)| &self.records[i])''')],
 'tags that differ only in the white space at their ends','the record of another tag is returned',
 '''
 use opentype::layout::Scripts;

 fn main() {
     let mut bytes = words(&[1]);
     bytes.extend(b"yi\\t ");
     bytes.extend(words(&[8, 0, 0]));
     let table: Scripts = read(&bytes).unwrap();
     assert!(table.get(Tag(*b"yi\\t ")).is_some());
     assert!(table.get(Tag(*b"yi  ")).is_none());
 }
 ''')
bug('other-normalized','C10','src/layout/feature.rs',[('''                    Feature::Other(tag) => tag,''','''                    Feature::Other(tag) => Tag(tag.0.map(|byte| if byte == 0 { b' ' } else { byte })),''')],
 'an unknown tag with a zero byte','the tag is not the same after the round trip',
 '''
 use opentype::layout::Feature;

 fn main() {
     for tag in [*b"liga", *b"ab  ", *b"ab\\0\\0"] {
         assert_eq!(Tag::from(Feature::from_tag(&Tag(tag))), Tag(tag));
     }
 }
 ''')
bug('ligature-bit','C22','src/layout/lookup.rs',[('''        0b0000_0000_0000_0100 => should_ignore_ligature,''','''        0b0000_0000_1000_0100 => should_ignore_ligature,''')],
 'a word made by hand with a reserved bit','the predicate depends on a bit that is not its own',
 '''
 use opentype::layout::lookup::Flags;

 fn main() {
     for word in 0..=0xFFFFu16 {
         assert_eq!(Flags(word).should_ignore_ligature(), word & 4 != 0);
     }
 }
 ''')
bug('file-rewind','C06','src/file.rs',[('''        Ok(File {''','''        Read::jump(tape, 0)?;
        Ok(File {''')],
 'a font that does not start where the tape does','the font directory is read from the beginning of the tape',
 '''
 use opentype::File;

 fn main() {
     let mut bytes = font(&[]);
     bytes.extend(font(&[(b"zzzz", 0, &[])]));
     let start = font(&[]).len();
     let mut tape = Cursor::new(bytes);
     tape.set_position(start as u64);
     let file = File::read(&mut tape).unwrap();
     assert_eq!(file.fonts[0].offsets.records.len(), 1);
 }
 ''')
bug('lists-shared','C07','src/layout/directory.rs',[('''        let variations = jump_take_maybe!(@unwrap tape, position, variation_offset);''','''        let variations = if variation_offset == lookup_offset as u32 {
            None
        } else {
            jump_take_maybe!(@unwrap tape, position, variation_offset)
        };''')],
 'feature variations at the offset of the lookup list','the variations are missing',
 '''
 use opentype::tables::GlyphSubstitution;

 fn main() {
     // Features, an empty list, lie within the others; the lookups have one entry, which is the version of the variations.
     let mut bytes = words(&[1, 1, 14, 14, 16, 0, 16, 0, 1, 0, 0, 0]);
     bytes.extend([0; 32]);
     let table: GlyphSubstitution = read(&bytes).unwrap();
     assert!(table.variations.is_some());
 }
 ''')
bug('classes-flat','C01','src/tables/glyph_positioning/mod.rs',[('''            (0..this.class1_count)
''','''            let count = this.class1_count * this.class2_count;
            if count == 0 {
                return Ok(vec![]);
            }
            (0..this.class1_count)
''')],
 'two class counts whose product is beyond 16 bits','the product overflows: a panic in debug builds',
 '''
 use opentype::tables::glyph_positioning::PairAdjustment;

 fn main() {
     let bytes = words(&[2, 16, 0, 0, 16, 16, 256, 256, 1, 0, 0]);
     assert!(std::panic::catch_unwind(|| read::<PairAdjustment>(&bytes).unwrap()).is_ok());
 }
 ''')
bug('words-flag','C19','src/variations/item.rs',[('''            let per_item_count = this.short_delta_count as usize + this.region_count as usize;''','''            let per_item_count =
                (this.short_delta_count & 0x7FFF) as usize + this.region_count as usize;''')],
 'more than 32767 word deltas','too few delta bytes are taken',
 '''
 use opentype::variations::item::Record;

 fn main() {
     let mut bytes = words(&[1, 0x8001, 1, 0]);
     bytes.extend(vec![7; 0x8002]);
     let record: Record = read(&bytes).unwrap();
     assert_eq!(record.deltas.len(), 0x8002);
 }
 ''')
bug('instance-exact','C20','src/tables/font_variations/mod.rs',[('''instance_size as usize >= 4 * axis_count as usize + 6 {''','''instance_size as usize % 4 == 2 {''')],
 'instances that are larger than they need be','the name is not read',
 '''
 use opentype::tables::font_variations::InstanceRecord;
 use opentype::truetype::tables::names::NameID;

 fn main() {
     let bytes = words(&[1, 0, 0, 5, 300, 0, 0]);
     let names: Vec<NameID> = (8..14)
         .map(|size| read_given::<InstanceRecord>(&bytes, (1, size)).unwrap().postscript_name_id)
         .collect();
     let none = NameID::Other(0xFFFF);
     let name: NameID = read(&words(&[300])).unwrap();
     assert!(names == [none, none, name, name, name, name]);
 }
 ''')
bug('parameters-jump','C02','src/layout/feature.rs',[('''                tape.jump(position + this.parameter_offset as u64)?;
                Ok(Some(tape.take_bytes(0)?))''','''                let _ = tape.jump(position + this.parameter_offset as u64);
                Ok(Some(tape.take_bytes(0)?))''')],
 'a tape that fails to move to the parameters','the failure is swallowed',
 '''
 use opentype::layout::feature::Record;

 struct Failing(Cursor<Vec<u8>>);

 impl std::io::Read for Failing {
     fn read(&mut self, buffer: &mut [u8]) -> Result<usize> { self.0.read(buffer) }
 }

 impl std::io::Seek for Failing {
     fn seek(&mut self, to: std::io::SeekFrom) -> Result<u64> {
         if to == std::io::SeekFrom::Start(40) {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, "broken"));
         }
         self.0.seek(to)
     }
 }

 fn main() {
     let mut tape = Failing(Cursor::new(words(&[40, 0])));
     assert!(<Record as opentype::value::Read>::read(&mut tape).is_err());
     let mut tape = Failing(Cursor::new(words(&[39, 0])));
     assert!(<Record as opentype::value::Read>::read(&mut tape).is_ok());
 }
 ''')
bug('checksum-empty','C05','src/font.rs',[('''if record.size > u32::MAX - 4 || record''','''if record.size > u32::MAX - 4 || record.size > 0 && record''')],
 'an empty table with a recorded checksum other than zero','the table is delivered although its checksum is wrong',
 '''
 use opentype::{Font, tables::GlyphDefinition};

 fn main() {
     let mut tape = Cursor::new(font(&[(b"GDEF", 1, &[])]));
     let value = Font::read(&mut tape).unwrap();
     assert!(value.position::<_, GlyphDefinition>(&mut tape).is_err());
 }
 ''')
bug('exists-sorted','C04','src/font.rs',[('''        self.offsets.records.iter().any(|record| record.tag == tag)''','''        self.offsets
            .records
            .binary_search_by(|record| record.tag.0.cmp(&tag.0))
            .is_ok()''')],
 'a directory that is not sorted by tag','the table is not found although the font lists it',
 '''
 use opentype::{Font, tables::{FontVariations, GlyphDefinition, GlyphSubstitution}};

 fn main() {
     let mut tape = Cursor::new(font(&[(b"fvar", 0, &[]), (b"GSUB", 0, &[]), (b"GDEF", 0, &[])]));
     let value = Font::read(&mut tape).unwrap();
     assert!(value.exists::<FontVariations>());
     assert!(value.exists::<GlyphDefinition>());
     assert!(value.exists::<GlyphSubstitution>());
 }
 ''')
bug('palette-trim','C21','src/tables/color_palettes.rs',[('''        let colors = jump_take_given!(@unwrap tape, position, offset, count);''','''        // Only the colors up to the last one in use are needed.
        let used = indices
            .iter()
            .map(|index| *index as usize + entry_count)
            .max()
            .unwrap_or(count);
        let colors = jump_take_given!(@unwrap tape, position, offset, used);''')],
 'colors after the last one in use','the colors are cut off',
 '''
 use opentype::tables::ColorPalettes;

 fn main() {
     let mut bytes = words(&[0, 1, 1, 3, 0, 14, 0]);
     bytes.extend([7; 12]);
     let table: ColorPalettes = read(&bytes).unwrap();
     assert_eq!(table.colors.len(), 3);
 }
 ''')
bug('ranges-sorted','C12','src/layout/coverage.rs',[('''            tape.take_given(this.record_count as usize)''','''            let mut records: Vec<_> = tape.take_given(this.record_count as usize)?;
            records.sort_by_key(|record: &Record| u16::from(record.start_glyph_id));
            Ok(records)''')],
 'ranges that are not in the order of their glyphs','the ranges are not in stored order',
 '''
 use opentype::layout::Coverage;

 fn main() {
     match read::<Coverage>(&words(&[2, 2, 9, 9, 0, 3, 3, 1])).unwrap() {
         Coverage::Format2(table) => assert_eq!(u16::from(table.records[0].start_glyph_id), 9),
         _ => unreachable!(),
     }
 }
 ''')
bug('languages-shared','C08','src/layout/script.rs',[('''            jump_take_maybe!(tape, position, this.default_language_offset)''','''            if this.language_headers.iter().any(|header| header.offset == this.default_language_offset) {
                return Ok(None);
            }
            jump_take_maybe!(tape, position, this.default_language_offset)''')],
 'a default language system that is also listed under a tag','the default language system is missing',
 '''
 use opentype::layout::script::Record;

 fn main() {
     let mut bytes = words(&[10, 1]);
     bytes.extend(b"DEU ");
     bytes.extend(words(&[10, 0, 0, 0]));
     let record: Record = read(&bytes).unwrap();
     assert!(record.default_language.is_some());
 }
 ''')
bug('second-row','C16','src/tables/glyph_positioning/element.rs',[('''        let anchors =
            tape.stay(|tape| jump_take_maybe!(tape, position, mark_class_count, anchor_offsets))?;
        Ok(Self {
            anchor_offsets,
            anchors,
        })
    }
}

impl crate::walue::Read<'static> for Mark2s ''','''        let anchors = tape.stay(|tape| -> Result<Vec<Option<Anchor>>> {
            let mut anchors: Vec<Option<Anchor>> = Vec::with_capacity(anchor_offsets.len());
            for (i, offset) in anchor_offsets.iter().enumerate() {
                // Neighboring classes often share an anchor.
                if i > 0 && *offset == anchor_offsets[i - 1] {
                    let anchor = anchors.iter().rev().flatten().next().cloned();
                    anchors.push(anchor);
                } else if *offset == 0 {
                    anchors.push(None);
                } else {
                    tape.jump(position + *offset as u64)?;
                    anchors.push(Some(tape.take()?));
                }
            }
            Ok(anchors)
        })?;
        Ok(Self {
            anchor_offsets,
            anchors,
        })
    }
}

impl crate::walue::Read<'static> for Mark2s ''')],
 'two neighboring classes without an anchor after one with','the second of them gets the anchor of the class before',
 '''
 use opentype::tables::glyph_positioning::Mark2s;

 fn main() {
     let table: Mark2s = read_given(&words(&[1, 8, 0, 0, 1, 2, 3]), 3).unwrap();
     let present: Vec<bool> = table.records[0].anchors.iter().map(Option::is_some).collect();
     assert_eq!(present, [true, false, false]);
 }
 ''')
bug('extension-chain','C17','src/tables/glyph_substitution/mod.rs',[('''            7 => Self::ExtensionSubstitution(tape.take()?),''','''            7 => {
                let value: ExtensionSubstitution = tape.take()?;
                if value.r#type == 7 {
                    raise!("found a malformed extension substitution");
                }
                Self::ExtensionSubstitution(value)
            }''')],
 'an extension of type seven','the subtable is rejected',
 '''
 use opentype::tables::glyph_substitution::Type;

 fn main() {
     assert!(read_given::<Type>(&words(&[1, 7, 0, 8]), 7).is_ok());
 }
 ''')
bug('caret-null','C18','src/tables/glyph_definition/element.rs',[('''            jump_take!(tape, position, this.caret_count, this.caret_offsets)''','''            // Carets may be left out.
            let present: Vec<_> = this.caret_offsets.iter().filter(|offset| **offset != u16::MAX).collect();
            let mut carets = Vec::with_capacity(present.len());
            for offset in present {
                tape.jump(position + *offset as u64)?;
                carets.push(tape.take()?);
            }
            Ok(carets)''')],
 'a caret at the last offset','the caret is missing',
 '''
 use opentype::tables::glyph_definition::Ligature;

 fn main() {
     let mut bytes = words(&[1, 0xFFFF]);
     bytes.resize(0xFFFF, 0);
     bytes.extend(words(&[1, 5]));
     let table: Ligature = read(&bytes).unwrap();
     assert_eq!(table.carets.len(), 1);
 }
 ''')
bug('class-order','C13','src/layout/context.rs',[('''        backward_indices (Vec<u16>) |this, tape| { // backtrackSequence
            tape.take_given(this.backward_glyph_count as usize)''','''        backward_indices (Vec<u16>) |this, tape| { // backtrackSequence
            // The sequence is stored from the closest glyph on.
            let mut indices: Vec<u16> = tape.take_given(this.backward_glyph_count as usize)?;
            indices.reverse();
            Ok(indices)''')],
 'a rule with two different backward classes','the backward classes are not in stored order',
 '''
 use opentype::layout::context::ChainedClassRecord;

 fn main() {
     let record: ChainedClassRecord = read(&words(&[2, 5, 6, 1, 0, 0])).unwrap();
     assert_eq!(record.backward_indices, [5, 6]);
 }
 ''')
bug('value-second','C15','src/tables/glyph_positioning/element.rs',[('''                take!(y_placement_correction_offset),
                take!(x_advance_correction_offset),''','''                take!(y_placement_correction_offset),
                match (x_advance_correction_offset, x_placement_correction_offset) {
                    (Some(advance), Some(placement)) if advance < placement => None,
                    _ => take!(x_advance_correction_offset),
                },''')],
 'an advance correction that lies before the placement correction','the correction is missing',
 '''
 use opentype::tables::glyph_positioning::{Flags, Single};

 fn main() {
     let bytes = words(&[10, 4, 0, 0, 0x8000, 0, 0, 0x8000]);
     let value: Single = read_given(&bytes, (0, Flags(0x50))).unwrap();
     assert!(value.x_placement_correction.is_some());
     assert!(value.x_advance_correction.is_some());
 }
 ''')
bug('lookup-reserved','C11','src/layout/lookup.rs',[('0b0000_0000_1110_0000 => is_invalid','0b0000_0000_1100_0000 => is_invalid')],
 'a lookup with the lowest reserved flag bit set','the lookup is accepted',
 '''
 use opentype::layout::Lookups;
 use opentype::tables::glyph_positioning::Type;

 fn main() {
     assert!(read::<Lookups<Type>>(&words(&[1, 4, 1, 0x10, 0, 7])).is_ok());
     assert!(read::<Lookups<Type>>(&words(&[1, 4, 1, 0x20, 0, 7])).is_err());
 }
 ''')
bug('value-reserved','C15','src/tables/glyph_positioning/element.rs',[('0b1111_1111_0000_0000 => is_invalid','0b0111_1111_0000_0000 => is_invalid')],
 'a single adjustment whose value format has the highest bit set','the adjustment is accepted',
 '''
 use opentype::tables::glyph_positioning::SingleAdjustment;

 fn main() {
     assert!(read::<SingleAdjustment>(&words(&[1, 8, 0x0001, 5, 1, 0])).is_ok());
     assert!(read::<SingleAdjustment>(&words(&[1, 8, 0x8001, 5, 1, 0])).is_err());
 }
 ''')
bug('instance-flags','C20','src/tables/font_variations/mod.rs',[('0b1111_1111_1111_1111 => is_invalid','0b0111_1111_1111_1111 => is_invalid')],
 'an instance whose flags have the highest bit set','the instance is accepted',
 '''
 use opentype::tables::font_variations::InstanceFlags;

 fn main() {
     assert!(read::<InstanceFlags>(&words(&[0])).is_ok());
     assert!(read::<InstanceFlags>(&words(&[0x8000])).is_err());
 }
 ''')
bug('type-masked','C11','src/tables/glyph_substitution/mod.rs',[('Ok(match r#type {','Ok(match r#type & 0xFF {')],
 'a lookup type above 255','the unknown type is accepted',
 '''
 use opentype::tables::glyph_substitution::Type;

 fn main() {
     assert!(read_given::<Type>(&words(&[1, 6, 0, 1, 0]), 1).is_ok());
     assert!(read_given::<Type>(&words(&[1, 6, 0, 1, 0]), 257).is_err());
 }
 ''')
bug('anchor-base','C03','src/tables/glyph_positioning/element.rs',[('''        y_correction (Option<Correction>) |this, tape, position| {
            jump_take_maybe!(''','''        y_correction (Option<Correction>) |this, tape, position| {
            // The second correction follows the first one.
            let position = if this.y_correction_offset < this.x_correction_offset {
                position + this.x_correction_offset as u64
            } else {
                position
            };
            jump_take_maybe!(''')],
 'an anchor whose second correction lies before the first one','the offset is taken relative to the first correction',
 '''
 use opentype::tables::glyph_positioning::Anchor;

 fn main() {
     let bytes = words(&[3, 1, 2, 16, 10, 1, 2, 0x8000, 3, 4, 0x8000, 0]);
     match read::<Anchor>(&bytes).unwrap() {
         Anchor::Format3(anchor) => {
             let text = format!("{:?}", anchor.y_correction.unwrap());
             assert!(text.contains("1") && text.contains("2"), "{text}");
         }
         _ => unreachable!(),
     }
 }
 ''')
bug('exists-empty','C04','src/font.rs',[('.any(|record| record.tag == tag)','.any(|record| record.tag == tag && record.size > 0)')],
 'a font that lists an empty table','the table is reported as absent',
 '''
 use opentype::Font;

 fn main() {
     let bytes = font(&[(b"GSUB", 0, &[])]);
     let font: Font = read(&bytes).unwrap();
     assert!(font.exists::<opentype::tables::GlyphSubstitution>());
 }
 ''')
bug('file-empty','C06','src/file.rs',[('''        Ok(File {
            fonts: vec![Font::read(tape)?],
        })''','''        let font = Font::read(tape)?;
        if font.offsets.records.is_empty() {
            raise!("found a font without tables");
        }
        Ok(File { fonts: vec![font] })''')],
 'a font without tables','the file is rejected',
 '''
 use opentype::File;

 fn main() {
     let mut tape = Cursor::new(font(&[]));
     let file = File::read(&mut tape).unwrap();
     assert_eq!(file.fonts.len(), 1);
 }
 ''')
bug('rule-sets-trailing','C13','src/layout/context.rs',[('''        records (Vec<Option<ChainedClassRecords>>) |this, tape, position| {
            jump_take_maybe!(tape, position, this.record_count, this.record_offsets)
''','''        records (Vec<Option<ChainedClassRecords>>) |this, tape, position| {
            let used = this.record_offsets.iter().rposition(|offset| *offset > 0);
            let count = used.map_or(0, |index| index + 1);
            jump_take_maybe!(tape, position, count, this.record_offsets)
''')],
 'absent rule sets at the end of a chained context in format 2','the absent sets are dropped',
 '''
 use opentype::layout::context::ChainedContext2;

 fn main() {
     let mut numbers = vec![2, 18, 18, 18, 18, 2, 22, 0, 0];
     numbers.extend([1, 0]);
     numbers.extend([0]);
     let table: ChainedContext2 = read(&words(&numbers)).or_else(|_| {
         let mut numbers = vec![2, 16, 20, 20, 20, 2, 26, 0];
         numbers.extend([1, 0, 1, 0, 0, 0]);
         read(&words(&numbers))
     }).unwrap();
     assert_eq!(table.records.len(), 2);
 }
 ''')
bug('device-single','C14','src/layout/correction.rs',[('''        let count = (end_size - start_size) as usize + 1;
''','''        let count = match end_size - start_size {
            0 if start_size == u16::MAX => 0,
            difference => difference as usize + 1,
        };
''')],
 'a device correction for the largest size only','no word is read',
 '''
 use opentype::layout::correction::Device;

 fn main() {
     let device: Device = read(&words(&[0xFFFF, 0xFFFF, 1, 0x4000])).unwrap();
     assert_eq!(format!("{device:?}").matches("16384").count(), 1);
 }
 ''')
bug('deltas-empty','C19','src/variations/item.rs',[('''            tape.take_given(this.item_count as usize * per_item_count)''','''            if this.region_count == 0 {
                return Ok(Default::default());
            }
            tape.take_given(this.item_count as usize * per_item_count)''')],
 'item variations without regions but with words','the deltas are missing',
 '''
 use opentype::variations::item::Record;

 fn main() {
     let record: Record = read(&words(&[1, 1, 0, 0x0102, 0x0304])).unwrap();
     assert!(!record.deltas.is_empty());
 }
 ''')
bug('coverage-empty','C12','src/layout/coverage.rs',[('''            tape.take_given(this.record_count as usize)''','''            if this.record_count == 0 {
                raise!("found a malformed coverage");
            }
            tape.take_given(this.record_count as usize)''')],
 'a coverage without ranges','the coverage is rejected',
 '''
 use opentype::layout::Coverage;

 fn main() {
     assert!(read::<Coverage>(&words(&[2, 0])).is_ok());
 }
 ''')
bug('language-dflt','C09','src/layout/script.rs',[('''            .map(|(i, _)| &self.language_records[i])''','''            .map(|(i, _)| &self.language_records[i])
            .or_else(|| self.default_language.as_ref().filter(|_| &tag.0 == b"dflt"))''')],
 'asking a script for the default language by its tag','the default language is returned although it is not listed',
 '''
 use opentype::layout::script::Record;

 fn main() {
     let record: Record = read(&words(&[4, 0, 0, 0xFFFF, 0])).unwrap();
     assert!(record.default_language.is_some());
     assert!(record.get(Tag(*b"dflt")).is_none());
 }
 ''')
bug('directory-zero-variation','C07','src/layout/directory.rs',[('''        let variations = jump_take_maybe!(@unwrap tape, position, variation_offset);
''','''        let variations = match variation_offset {
            // The variations cannot overlap the header.
            0..=13 => None,
            _ => jump_take_maybe!(@unwrap tape, position, variation_offset),
        };
''')],
 'feature variations at an offset within the header','the variations are missing',
 '''
 use opentype::tables::GlyphSubstitution;

 fn main() {
     let bytes = words(&[1, 1, 14, 14, 14, 0, 10, 0, 0, 0]);
     assert!(read::<GlyphSubstitution>(&bytes).is_err());
 }
 ''')
bug('palette-empty','C21','src/tables/color_palettes.rs',[('''        color_indices.iter().map(move |palette_index| {''','''        color_indices.iter().filter(move |_| entry_count > 0).map(move |palette_index| {''')],
 'palettes without entries','no palettes are listed',
 '''
 use opentype::tables::ColorPalettes;

 fn main() {
     let table: ColorPalettes = read(&words(&[0, 0, 2, 0, 0, 0, 0, 0])).unwrap();
     assert_eq!(table.iter().count(), 2);
 }
 ''')
bug('connection-shared','C16','src/tables/glyph_positioning/element.rs',[('''                jump_take_maybe!(@unwrap tape, position, end_anchor_offset),''','''                match end_anchor_offset == start_anchor_offset {
                    true => None,
                    _ => jump_take_maybe!(@unwrap tape, position, end_anchor_offset),
                },''')],
 'a connection whose anchors share an offset','the exit anchor is missing',
 '''
 use opentype::tables::glyph_positioning::Connection;

 fn main() {
     let bytes = words(&[4, 4, 1, 5, 6]);
     let connection: Connection = read_given(&bytes, 0).unwrap();
     assert!(connection.start_anchor.is_some());
     assert!(connection.end_anchor.is_some());
 }
 ''')
bug('language-order','C08','src/layout/language.rs',[('''            tape.take_given(this.feature_index_count as usize)''','''            let mut indices: Vec<u16> = tape.take_given(this.feature_index_count as usize)?;
            // The required feature is listed already.
            indices.retain(|index| *index != this.required_feature_index);
            Ok(indices)''')],
 'a language system that lists its required feature','the index is missing',
 '''
 use opentype::layout::language::Record;

 fn main() {
     let record: Record = read(&words(&[0, 5, 2, 4, 5])).unwrap();
     assert_eq!(record.feature_indices, [4, 5]);
 }
 ''')
bug('checksum-feature','C05','src/font.rs',[('''                #[cfg(not(feature = "ignore-invalid-checksums"))]''','''                #[cfg(not(any(
                    feature = "ignore-invalid-checksums",
                    feature = "ignore-incomplete-directories"
                )))]''')],
 'ignore-incomplete-directories without ignore-invalid-checksums','checksums are not verified',
 '''
 use opentype::tables::ColorPalettes;

 fn main() {
     let bytes = font(&[(b"CPAL", 1, &words(&[0, 0, 0, 0, 0, 0]))]);
     let mut tape = Cursor::new(bytes);
     let file = opentype::File::read(&mut tape).unwrap();
     assert!(file.fonts[0].take::<_, ColorPalettes>(&mut tape).is_err());
 }
 ''',['ignore-incomplete-directories'])
bug('directory-feature','C07','src/layout/directory.rs',[('''            jump_take_maybe!(@unwrap tape, position, feature_offset).unwrap_or_default(),''','''            if cfg!(feature = "ignore-incomplete-marks") {
                jump_take_maybe!(@unwrap tape, position, feature_offset).unwrap_or_default()
            } else {
                jump_take!(@unwrap tape, position, feature_offset)
            },''')],
 'ignore-incomplete-directories without ignore-incomplete-marks','a directory without features is rejected',
 '''
 use opentype::tables::GlyphSubstitution;

 fn main() {
     let table: GlyphSubstitution = read(&words(&[1, 0, 0, 0, 0])).unwrap();
     assert!(table.features.headers.is_empty());
 }
 ''',['ignore-incomplete-directories', 'ignore-invalid-checksums'])
bug('mark-feature','C16','src/tables/glyph_positioning/element.rs',[('''            .stay(|tape| jump_take_maybe!(tape, position, anchor_offset))?
            .unwrap_or_default();''','''            .stay(|tape| {
                #[cfg(not(feature = "ignore-incomplete-directories"))]
                let position = position & !1;
                jump_take_maybe!(tape, position, anchor_offset)
            })?
            .unwrap_or_default();''')],
 'ignore-incomplete-marks without ignore-incomplete-directories and marks at an odd position','the anchor is read from elsewhere',
 '''
 use opentype::tables::glyph_positioning::{Anchor, Mark1};

 fn main() {
     let bytes = [0, 0, 0, 4, 9, 0, 1, 0, 7, 0, 8];
     let mark: Mark1 = read_given(&bytes, 1).unwrap();
     match mark.anchor {
         Anchor::Format1(anchor) => assert_eq!((anchor.x, anchor.y), (7, 8)),
         _ => unreachable!(),
     }
 }
 ''',['ignore-incomplete-marks'])
bug('language-feature','C10','src/layout/language.rs',[('''    #[cfg(feature = "default-language")]
''','''    #[cfg(all(feature = "default-language", feature = "ignore-incomplete-directories"))]
''')],
 'default-language without ignore-incomplete-directories','the default language is unknown',
 '''
 use opentype::layout::Language;

 fn main() {
     assert_eq!(format!("{:?}", Language::from_tag(&Tag(*b"DFLT"))), "Default");
 }
 ''',['default-language'])
