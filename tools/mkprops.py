#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json
P=[]
def p(id,title,statement,text,why,files,mech,over=("inputs",),observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=list(over),text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
TESTS="The existing tests parse nine well-formed fixture fonts and check a handful of fields; "
p("C01","No input makes parsing or lookup panic",
 "Whatever bytes a tape holds and wherever it is positioned, reading any structure of the crate, looking up, checksumming and taking font tables, and calling accessors on anything that was read returns a value or an error. It never panics, never goes out of bounds, and no arithmetic overflows. (Exhaustion of memory is outside of this statement.)",
 "every byte sequence, every start position, both feature configurations",
 TESTS+"arithmetic at the limits of the integer types, out-of-range indices and unexpected counts never occur in them.",
 ["src/font.rs","src/file.rs","src/layout/","src/tables/","src/variations/item.rs"],
 [("readers of all tables","src/layout, src/tables, src/variations"),("count guards before subtracting one","src/layout/context.rs, src/tables/glyph_substitution/element.rs"),("checksum guard for oversized tables","src/font.rs Font::position"),("palette range validation","src/tables/color_palettes.rs ColorPalettes::read"),("widening before multiplying","src/variations/item.rs")],
 observe=["every public read, Font::{exists,position,take,take_given}, get, iter"])
p("C02","I/O errors always surface and are never swallowed",
 "If the underlying reader fails at any read, seek or position query made while a structure is being read, the operation as a whole returns an error instead of a value assembled from partial data. Conversely, how the reader splits the bytes over several short reads has no influence on the result.",
 "every position of a failing I/O operation in every read of every structure, and every way of delivering the bytes",
 "No existing test injects an I/O failure or a short read; all of them use whole in-memory files.",
 ["src/font.rs","src/file.rs","src/layout/","src/tables/","src/variations/item.rs"],
 [("propagation with ?","all readers"),("optional values distinguish absence (zero offset) from failure","src/layout, src/tables"),("transpose in Font::take and Font::take_given","src/font.rs")],
 over=("inputs","fault_sequences"),observe=["Result of every read with a faulty tape"])
p("C03","Parsing does not depend on where a structure lies on the tape",
 "Reading a table depends only on the bytes from the position of the table onward: if the same bytes are placed at another position of another tape, reading there gives the same value, or fails as well. All offsets stored in a table are relative to the beginning of the structure the format prescribes and never to the beginning of the tape.",
 "every table, every byte sequence, every start position, every preceding content",
 TESTS+"each table is found at one position only, and no test compares two placements.",
 ["src/layout/","src/tables/","src/variations/item.rs"],
 [("position captured on entry and added to each offset","@position tables, walue::Read implementations taking a position"),("stay restores the position after out-of-line reads","src/tables/glyph_positioning/element.rs")],
 observe=["value::Read/walue::Read of every table type"])
p("C04","Font tables are found exactly when the font lists them",
 "Checking for, jumping to, and taking a font table all use the first record of the font directory that carries the tag of the table: the tape ends up at, and the table is read from, exactly the offset of that record. They report absence if and only if the font has no record with the tag, and then the tape is not moved. Each supported table type stands for exactly its four-byte OpenType tag.",
 "every font directory (any number, order and duplication of records) and every table type",
 TESTS+"directories with missing, duplicated, unsorted or zero-length records are not covered, nor is absence reported anywhere in the tests.",
 ["src/font.rs","src/table.rs"],
 [("linear search by tag","src/font.rs Font::exists, Font::position"),("delegation","src/font.rs Font::take, Font::take_given"),("tag registry","src/table.rs")],
 observe=["Font::exists, Font::position, Font::take, Font::take_given, Table::tag"],
 state=[("offsets.records","the directory of the font","src/font.rs Font")])
p("C05","A table with a wrong checksum is never delivered",
 "Unless checksum validation is switched off by its feature, jumping to or taking a table fails when the checksum recorded in the font directory differs from the checksum of the bytes of the table (the wrapping sum of big-endian 32-bit words, the final partial word zero-padded, and the adjustment word of the font header left out). A table whose recorded checksum is right is not rejected on that account. When the feature is on, checksums are not looked at.",
 "every table content, size, tag and recorded checksum; both feature configurations",
 "One fixture has one corrupted table; sizes that are not multiples of four, the excluded adjustment word and near-misses are not exercised.",
 ["src/font.rs"],
 [("comparison before the jump","src/font.rs Font::position"),("checksum computation of the truetype dependency","truetype tables/offsets.rs Record::checksum")],
 over=("inputs","configurations"),observe=["Font::position, Font::take, Font::take_given"])
p("C06","Opening a file accepts exactly the supported single-font formats",
 "Reading a file succeeds exactly when it starts with one of the four recognized font signatures followed by a complete font directory, and then yields exactly one font whose directory lists every record in file order with its stored values. A font collection is rejected with an error. The tag-recognition function accepts exactly the four font signatures and the collection tag.",
 "every four-byte signature and every directory",
 TESTS+"only valid signatures occur in them.",
 ["src/file.rs","src/font.rs","src/lib.rs"],
 [("collection check by peeking","src/file.rs File::read"),("directory","src/font.rs Font::read"),("accept","src/lib.rs")],
 observe=["File::read, Font::read, accept"])
p("C07","Layout tables expose their version and sections faithfully",
 "Reading a glyph-positioning or glyph-substitution table succeeds only for versions 1.0 and 1.1 and delivers the script, feature and lookup lists found at the three header offsets, and, in version 1.1 with a nonzero offset, the feature variations found at the fourth one. In version 1.0 the fourth offset is not read and is reported as zero with no variations. With the feature tolerating incomplete directories, a zero offset of one of the three lists yields an empty list; without it, the list is read at the offset as is.",
 "every header, every offset combination, both feature configurations",
 TESTS+"they cover version 1.0 with all three sections in place.",
 ["src/layout/directory.rs","src/layout/feature.rs"],
 [("version check and section jumps","src/layout/directory.rs Directory::read"),("feature-variations header","src/layout/feature.rs Variations")],
 over=("inputs","configurations"),observe=["GlyphPositioning/GlyphSubstitution read"])
p("C08","Script, language and feature lists are decoded record by record",
 "Reading a script, language-system or feature list yields, in stored order, each tag and offset of the list together with the record found at that offset relative to the beginning of the list (for language systems, of the script). The default language system is present exactly if its offset is not zero, a language system whose reserved lookup-order offset is not zero is rejected, and feature parameters are reported exactly if their offset is not zero.",
 "every list, count, offset and content, including shared and overlapping records",
 TESTS+"they check the number of records and a few tags.",
 ["src/layout/script.rs","src/layout/language.rs","src/layout/feature.rs"],
 [("Scripts, Record","src/layout/script.rs"),("Header, Record","src/layout/language.rs"),("Features, Record","src/layout/feature.rs")],
 observe=["Scripts, Features, language::Record read"])
p("C09","Lookup by tag returns the first record with that tag",
 "For any script or feature list that was read, and for the language systems of any script, asking for a tag returns the record paired with the first entry whose tag equals the requested one, and nothing if and only if there is no such entry. Asking by a known script, language or feature is the same as asking by its tag.",
 "every list that was read (any order, duplicates, any length) and every tag",
 "The tests ask for one or two present tags in sorted, duplicate-free lists.",
 ["src/layout/script.rs","src/layout/feature.rs"],
 [("Scripts::get, Record::get","src/layout/script.rs"),("Features::get","src/layout/feature.rs")],
 observe=["Scripts::get, script::Record::get, Features::get"])
p("C10","Script, language and feature tags survive the round trip",
 "Converting any four-byte tag into a script, language or feature and back gives the same tag, for known and for unknown tags. A tag is turned into a named value only if that value is registered for it, unknown tags are kept verbatim, every known value has its registered name (and languages their registered language codes, in order and without empty ones), and unknown ones have none.",
 "all 2^32 tags, for each of the three kinds",
 "A single unit test looks at the number of codes of two languages; the roughly 900 registry entries and the space of unknown tags are not checked.",
 ["src/layout/script.rs","src/layout/language.rs","src/layout/feature.rs"],
 [("from_tag, name, codes, From<..> for Tag","generated by implement! in the three files")],
 observe=["Script::from_tag, Language::from_tag, Feature::from_tag, Tag::from, name, codes"])
p("C11","Lookups are decoded by type with their flags and filtering set",
 "Reading a lookup list yields every lookup at its offset, with its type, flags, subtable offsets and subtables in stored order, each subtable being read at its offset relative to the lookup and as the kind that the lookup type prescribes for positioning or substitution. The mark filtering set is present exactly if the corresponding flag is set. Unknown lookup types and lookups with reserved flag bits set are rejected.",
 "every lookup list, every type number, every flag word, for both positioning and substitution",
 TESTS+"only the lookup types and flags used by those fonts occur, and the mark filtering set never does.",
 ["src/layout/lookup.rs","src/tables/glyph_positioning/mod.rs","src/tables/glyph_substitution/mod.rs"],
 [("Lookups, Record, Flags","src/layout/lookup.rs"),("Type::read","src/tables/glyph_positioning/mod.rs, src/tables/glyph_substitution/mod.rs")],
 observe=["Lookups<Type> read"])
p("C12","Coverage and class tables are decoded faithfully",
 "Reading a glyph coverage or a glyph class yields all glyph identifiers, class values or ranges that are stored, in stored order, as the format number prescribes. A format number other than one or two is rejected.",
 "every coverage and class table of either format, any count including zero and 65535",
 TESTS+"their content is never compared with the bytes.",
 ["src/layout/coverage.rs","src/layout/class.rs"],
 [("Coverage::read","src/layout/coverage.rs"),("Class::read","src/layout/class.rs")],
 observe=["Coverage, Class read"])
p("C13","Contextual and chained contextual tables are decoded faithfully",
 "Reading a contextual or chained contextual table in any of its three formats yields every rule set, rule, class table, coverage table, glyph or class sequence and lookup action that is stored, in stored order and attributed to the right part (backward, input, forward), each found at its offset relative to the structure that holds the offset. Input sequences have one element fewer than their count, a rule with a zero count is rejected, and in format two an absent rule set stays absent and keeps its place.",
 "every table of the six formats, every combination of counts and offsets",
 TESTS+"no test looks inside of a contextual table.",
 ["src/layout/context.rs"],
 [("Context, ChainedContext and their records","src/layout/context.rs")],
 observe=["Context, ChainedContext read"])
p("C14","Device and variation corrections are decoded faithfully",
 "Reading an adjustment correction takes exactly as many packed words as the size range and the number of bits per size require, or the two variation indices, depending on the format number. A device correction whose start size exceeds its end size, or whose format is unknown, is rejected.",
 "every size range, every format number, every content",
 "No fixture exercises device corrections, and none has a size range that fills whole words.",
 ["src/layout/correction.rs"],
 [("Correction::read, Device::read","src/layout/correction.rs")],
 observe=["Correction, Device, Variation read"])
p("C15","Single and pair adjustments are decoded according to their value formats",
 "Reading a single or pair adjustment yields value records that contain exactly the fields announced by the value-format flags, in the prescribed order, with corrections present exactly if announced with a nonzero offset and read relative to the prescribed structure. Records follow one another without gap or overlap wherever their corrections lie, pair values are present exactly if their format is not empty, and reserved value-format bits are rejected.",
 "every pair of value formats, every count, every correction offset",
 TESTS+"value records with corrections, and second pair values, are not checked.",
 ["src/tables/glyph_positioning/mod.rs","src/tables/glyph_positioning/element.rs"],
 [("Single, Pair1, Pair1s, Pair2, Pair2s, Flags","src/tables/glyph_positioning/element.rs"),("SingleAdjustment, PairAdjustment","src/tables/glyph_positioning/mod.rs")],
 observe=["SingleAdjustment, PairAdjustment read"])
p("C16","Anchors and attachments are decoded faithfully",
 "Reading a cursive, mark-to-base, mark-to-ligature or mark-to-mark attachment yields all coverages, marks, bases, ligatures, components and connections that are stored, in stored order, with each anchor read in its own format and relative to the structure the format prescribes. Except for marks, an anchor is present exactly if its offset is not zero; an array of anchors has one entry per mark class. With the feature tolerating incomplete marks, a mark with a zero offset gets the default anchor; without it, the anchor is read at the offset as is.",
 "every attachment table, every count and offset combination, both feature configurations",
 TESTS+"anchors are never compared with the bytes, and absent anchors and all but one anchor format are not covered.",
 ["src/tables/glyph_positioning/mod.rs","src/tables/glyph_positioning/element.rs"],
 [("Anchor, Base(s), Component, Connection, Ligature(s), Mark1(s), Mark2(s)","src/tables/glyph_positioning/element.rs"),("CursiveAttachment, MarkTo*Attachment","src/tables/glyph_positioning/mod.rs")],
 over=("inputs","configurations"),observe=["CursiveAttachment, MarkToBaseAttachment, MarkToLigatureAttachment, MarkToMarkAttachment read"])
p("C17","Substitution subtables are decoded faithfully",
 "Reading a single, multiple, alternate, ligature, extension or reverse chained substitution yields every coverage, glyph, sequence, alternate set, ligature and offset that is stored, in stored order, each found at its offset relative to the structure that holds the offset. A ligature lists one component fewer than its count, a zero count is rejected, and so are unknown format numbers where the format is checked.",
 "every substitution subtable, every count and offset combination",
 TESTS+"they look at the lookup types and at a few ligatures.",
 ["src/tables/glyph_substitution/mod.rs","src/tables/glyph_substitution/element.rs"],
 [("subtables","src/tables/glyph_substitution/mod.rs"),("Alternates, Ligature(s), Sequence","src/tables/glyph_substitution/element.rs")],
 observe=["glyph_substitution::Type read"])
p("C18","Glyph definitions deliver each section from its own offset",
 "Reading a glyph definition of version 1.0, 1.2 or 1.3 yields the glyph classes, attachment points, ligature carets, mark classes, mark glyph sets and item variations found at their respective header offsets, each present exactly if the version has the offset and the offset is not zero. Carets are read according to their format, and other versions and formats are rejected.",
 "every version, every combination of present sections, every content",
 TESTS+"one table of version 1.0 is parsed; versions 1.2 and 1.3, and carets, are not covered.",
 ["src/tables/glyph_definition/mod.rs","src/tables/glyph_definition/element.rs"],
 [("GlyphDefinition, Header","src/tables/glyph_definition/mod.rs"),("Attachment(s), Caret, Ligature(s), Marks","src/tables/glyph_definition/element.rs")],
 observe=["GlyphDefinition read"])
p("C19","Item variation stores are decoded faithfully",
 "Reading an item variation store yields every item variation record at its offset with its region indices and exactly as many delta bytes as the item count times the bytes per item require. A store whose format number is not one is rejected.",
 "every store, every combination of counts",
 "No existing test reads an item variation store.",
 ["src/variations/item.rs"],
 [("Store, Record","src/variations/item.rs")],
 observe=["Store read"])
p("C20","Font variations honour the stored strides and optional names",
 "Reading font variations yields the header, every axis and every instance, in stored order, located by the stored array offset and the stored record sizes; each instance has one coordinate per axis. The PostScript name of instances is read exactly if the stored instance size makes room for it and is otherwise reported as the value for no name. Reserved header fields and flags with unexpected values are rejected.",
 "every header, any axis and instance counts and record sizes",
 TESTS+"the first axis of one font is checked; instances and strides other than the usual ones are not.",
 ["src/tables/font_variations/mod.rs"],
 [("FontVariations::read, InstanceRecord::read","src/tables/font_variations/mod.rs")],
 observe=["FontVariations read"])
p("C21","Color palettes list exactly their colors",
 "Reading color palettes yields the header and all color records at the stored offset. Iterating over them yields one palette per stored index, in stored order, each with the stored number of entries, the colors being the consecutive color records starting at the index. Palettes that reach beyond the color records, and unknown versions, are rejected.",
 "every palette table of versions zero and one",
 TESTS+"one font with one kind of header is read, and its palettes are not looked at.",
 ["src/tables/color_palettes.rs"],
 [("Header, Header0, Header1, ColorPalettes::read, ColorPalettes::iter","src/tables/color_palettes.rs")],
 observe=["ColorPalettes read and iter"])
p("C22","Flag words are exposed bit by bit",
 "Every flag predicate is true exactly if its own bit of the stored 16-bit word is set, and is independent of all other bits; the stored word itself is kept unchanged. Words with reserved bits set are rejected on reading, and no other words are.",
 "all 65536 values of each of the four flag words",
 "The tests see the few flag words of the fixtures.",
 ["src/layout/lookup.rs","src/tables/glyph_positioning/element.rs","src/tables/font_variations/mod.rs"],
 [("flags! definitions","src/layout/lookup.rs Flags, src/tables/glyph_positioning/element.rs Flags, src/tables/font_variations/mod.rs AxisFlags, InstanceFlags")],
 observe=["flag predicates and read of the flag types"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['id']
