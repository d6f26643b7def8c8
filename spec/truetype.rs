verus! {
// The dependency truetype, as far as the crate builds on it.
pub mod truetype {
use vstd::prelude::*;
use crate::typeface::*;
broadcast use crate::typeface::facts;
pub use crate::typeface::{q32, Error, Result, tape, value, walue};

pub type GlyphID = u16;

#[derive(Clone, Copy)]
pub struct Tag(pub [u8; 4]);

impl Bytes4 for Tag {
    open spec fn bytes4(&self) -> Seq<u8> { self.0@ }
    fn byte(&self, i: usize) -> (r: u8) { self.0[i] }
}

/// The tag as a big-endian number.
pub open spec fn tag32(t: Tag) -> int { t.0@[0] * 0x100_0000 + t.0@[1] * 0x1_0000 + t.0@[2] * 0x100 + t.0@[3] }

impl PartialEq for Tag {
    // derived
    fn eq(&self, other: &Self) -> (r: bool) { crate::typeface::same(&self.0, other.0) }
}
impl Eq for Tag { }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Tag {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { tag32(*self) == tag32(*other) }
}
impl ValueSpec for Tag {
    open spec fn framed() -> bool { true }
    open spec fn size() -> int { 4 }
    open spec fn accepts(d: Seq<u8>, p: int) -> bool { readable(d, p, 4) }
    open spec fn matches(d: Seq<u8>, p: int, v: Self) -> bool { v.0@[0] == d[p] && v.0@[1] == d[p + 1] && v.0@[2] == d[p + 2] && v.0@[3] == d[p + 3] }
}
impl value::Read for Tag {
    /*@dep truetype tag::Tag::<Read>::read*/ fn read(tape: &mut tape::Read) -> (r: Result<Self>) /*@body*/
}
impl Framed for Tag { proof fn is_framed() { } }
impl vstd::std_specs::convert::FromSpecImpl<Tag> for u32 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(tag: Tag) -> u32 { tag32(tag) as u32 }
}
impl From<Tag> for u32 { /*@dep truetype tag::u32::<From>::from*/ fn from(tag: Tag) -> (r: u32) /*@body*/ }
impl DefaultSpec for Tag { open spec fn is_default(self) -> bool { tag32(self) == 0 } }
impl Default for Tag { fn default() -> Self { Tag([0u8, 0u8, 0u8, 0u8]) } }

pub open spec fn signature(v: int) -> bool { v == 0x00010000 || v == 0x4F54544F || v == 0x74727565 || v == 0x74797031 }

/*@dep truetype accept*/
pub fn accept(tag: &Tag) -> (r: bool)
    ensures r == signature(tag32(*tag)),
/*@body*/

pub mod tables {
use vstd::prelude::*;
use crate::typeface::*;
#[verifier::external_body] pub struct CharacterMapping { x: u8 }
#[verifier::external_body] pub struct FontHeader { x: u8 }
#[verifier::external_body] pub struct GlyphData { x: u8 }
#[verifier::external_body] pub struct GlyphMapping { x: u8 }
#[verifier::external_body] pub struct HorizontalHeader { x: u8 }
#[verifier::external_body] pub struct HorizontalMetrics { x: u8 }
#[verifier::external_body] pub struct MaximumProfile { x: u8 }
#[verifier::external_body] pub struct PostScript { x: u8 }
#[verifier::external_body] pub struct WindowsMetrics { x: u8 }
pub use names::Names;
pub mod names {
use vstd::prelude::*;
use crate::typeface::*;
#[verifier::external_body] pub struct Names { x: u8 }
/// The names, by number.
#[derive(Clone, Copy)]
pub enum NameID {
    CopyrightNotice, FontFamilyName, FontSubfamilyName, UniqueFontID, FullFontName, VersionString, PostScriptFontName,
    Trademark, ManufacturerName, DesignerName, Description, VendorURL, DesignerURL, LicenseDescription, LicenseURL,
    TypographicFamilyName, TypographicSubfamilyName, CompatibleFullFontName, SampleText, PostScriptCIDFindFontName,
    WWSFamilyName, WWSSubfamilyName, LightBackgroundPalette, DarkBackgroundPalette, PostScriptVariationNamePrefix,
    Other(u16),
}
impl NameID {
    pub open spec fn number(self) -> int {
        match self {
            NameID::CopyrightNotice => 0, NameID::FontFamilyName => 1, NameID::FontSubfamilyName => 2, NameID::UniqueFontID => 3,
            NameID::FullFontName => 4, NameID::VersionString => 5, NameID::PostScriptFontName => 6, NameID::Trademark => 7,
            NameID::ManufacturerName => 8, NameID::DesignerName => 9, NameID::Description => 10, NameID::VendorURL => 11,
            NameID::DesignerURL => 12, NameID::LicenseDescription => 13, NameID::LicenseURL => 14,
            NameID::TypographicFamilyName => 16, NameID::TypographicSubfamilyName => 17, NameID::CompatibleFullFontName => 18,
            NameID::SampleText => 19, NameID::PostScriptCIDFindFontName => 20, NameID::WWSFamilyName => 21, NameID::WWSSubfamilyName => 22,
            NameID::LightBackgroundPalette => 23, NameID::DarkBackgroundPalette => 24, NameID::PostScriptVariationNamePrefix => 25,
            NameID::Other(x) => x as int,
        }
    }
    /// The name of a number: a named one if there is one.
    pub open spec fn is(self, x: int) -> bool {
        self.number() == x && (self is Other ==> x == 15 || x > 25)
    }
}
impl ValueSpec for NameID {
    open spec fn framed() -> bool { true }
    open spec fn size() -> int { 2 }
    open spec fn accepts(d: Seq<u8>, p: int) -> bool { readable(d, p, 2) }
    open spec fn matches(d: Seq<u8>, p: int, v: Self) -> bool { v.is(be16(d, p) as int) }
}
impl value::Read for NameID {
    /*@dep truetype tables::names::name::NameID::<Read>::read*/ fn read(tape: &mut tape::Read) -> (r: Result<Self>) /*@body*/
}
impl Framed for NameID { proof fn is_framed() { } }
impl DefaultSpec for NameID { open spec fn is_default(self) -> bool { self is CopyrightNotice } }
impl Default for NameID { fn default() -> Self { NameID::CopyrightNotice } }
}
pub mod offsets {
use vstd::prelude::*;
use crate::typeface::*;
use crate::truetype::*;
pub struct Offsets { pub header: Header, pub records: Vec<Record> }
#[derive(Clone, Copy)]
pub struct Header { pub version: u32, pub table_count: u16, pub search_range: u16, pub entry_selector: u16, pub range_shift: u16 }
#[derive(Clone, Copy)]
pub struct Record { pub tag: Tag, pub checksum: u32, pub offset: u32, pub size: u32 }
impl value::Read for Offsets {
    /*@dep truetype tables::offsets::Offsets::<Read>::read*/ fn read(tape: &mut tape::Read) -> (r: Result<Self>) /*@body*/
}
impl value::Read for Header {
    /*@dep truetype tables::offsets::Header::<Read>::read*/ fn read(tape: &mut tape::Read) -> (r: Result<Self>) /*@body*/
}
impl value::Read for Record {
    /*@dep truetype tables::offsets::Record::<Read>::read*/ fn read(tape: &mut tape::Read) -> (r: Result<Self>) /*@body*/
}
// derived
impl Default for Offsets { fn default() -> Self { Offsets { header: Default::default(), records: Default::default() } } }
impl Default for Header { fn default() -> Self { Header { version: Default::default(), table_count: Default::default(), search_range: Default::default(), entry_selector: Default::default(), range_shift: Default::default() } } }
impl Default for Record { fn default() -> Self { Record { tag: Default::default(), checksum: Default::default(), offset: Default::default(), size: Default::default() } } }

/// The i-th word of a table, zero-padded.
#[verifier::opaque]
pub open spec fn word(d: Seq<u8>, r: Record, i: int) -> int {
    let b = |j: int| if 4 * i + j < r.size { d[r.offset + 4 * i + j] as int } else { 0int };
    b(0) * 0x100_0000 + b(1) * 0x1_0000 + b(2) * 0x100 + b(3)
}
pub open spec fn word_count(r: Record) -> int { (r.size + 3) / 4 }
/// The sum of the first n words of a table; the adjustment word of the font header does not count.
#[verifier::opaque]
pub open spec fn words(d: Seq<u8>, r: Record, n: int) -> int decreases n {
    if n <= 0 { 0int } else {
        (words(d, r, n - 1) + if tag32(r.tag) == 0x68656164 && n == 3 { 0int } else { word(d, r, n - 1) }) % 0x1_0000_0000
    }
}
pub open spec fn counted(r: Record, i: int) -> bool { !(tag32(r.tag) == 0x68656164 && i == 2) }
proof fn words_step(d: Seq<u8>, r: Record, i: int)
    requires 0 <= i < word_count(r),
    ensures
        words(d, r, i + 1) == (words(d, r, i) + if counted(r, i) { word(d, r, i) } else { 0int }) % 0x1_0000_0000,
        4 * i + 4 <= r.size ==> word(d, r, i) == be32(d, r.offset + 4 * i),
        4 * i + 3 == r.size ==> word(d, r, i) == be32(d, r.offset + 4 * i) - be32(d, r.offset + 4 * i) % 0x100,
        4 * i + 2 == r.size ==> word(d, r, i) == be32(d, r.offset + 4 * i) - be32(d, r.offset + 4 * i) % 0x1_0000,
        4 * i + 1 == r.size ==> word(d, r, i) == be32(d, r.offset + 4 * i) - be32(d, r.offset + 4 * i) % 0x100_0000,
        0 <= words(d, r, i) < 0x1_0000_0000,
{
    reveal(word);
    reveal_with_fuel(words, 2);
}
proof fn words_none(d: Seq<u8>, r: Record)
    ensures words(d, r, 0) == 0,
{ reveal(words); }
pub open spec fn summable(d: Seq<u8>, r: Record) -> bool {
    word_count(r) == 0 || readable(d, r.offset as int, 4 * word_count(r))
}
impl Record {
    /*@dep truetype tables::offsets::Record::checksum*/
    pub fn checksum(&self, tape: &mut tape::Read) -> (r: Result<u32>)
        requires wf(*old(tape)), /*@kind:panic*/ self.size <= u32::MAX - 4,
        ensures wf(*final(tape)), final(tape).data() == old(tape).data(),
            r is Ok ==> summable(old(tape).data(), *self) && r->Ok_0 == words(old(tape).data(), *self, word_count(*self))
                && final(tape).fault() == old(tape).fault(),
            r is Err ==> !summable(old(tape).data(), *self) || final(tape).fault(),
    /*@body*/
}
}
}
}
pub mod postscript {
pub mod compact1 {
use vstd::prelude::*;
#[verifier::external_body] pub struct FontSet { x: u8 }
}
}
}
