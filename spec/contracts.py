"""The contracts of the functions that are not readers, written by hand from the
statements of the properties.  Each is [clauses, first lines of the body]."""
import formats

TABLES = {      # the tags of the font tables (C04)
    "postscript::compact1::FontSet": b"CFF ",
    "tables::color_palettes::ColorPalettes": b"CPAL",
    "tables::glyph_definition::GlyphDefinition": b"GDEF",
    "tables::glyph_positioning::GlyphPositioning": b"GPOS",
    "tables::glyph_substitution::GlyphSubstitution": b"GSUB",
    "truetype::tables::WindowsMetrics": b"OS/2",
    "truetype::tables::CharacterMapping": b"cmap",
    "tables::font_variations::FontVariations": b"fvar",
    "truetype::tables::GlyphData": b"glyf",
    "truetype::tables::FontHeader": b"head",
    "truetype::tables::HorizontalHeader": b"hhea",
    "truetype::tables::HorizontalMetrics": b"hmtx",
    "truetype::tables::GlyphMapping": b"loca",
    "truetype::tables::MaximumProfile": b"maxp",
    "truetype::tables::names::Names": b"name",
    "truetype::tables::PostScript": b"post",
}
# Types that are names of instances of generic ones.
ALIASES = {
    "tables::glyph_positioning::GlyphPositioning": "crate::layout::directory::Directory<crate::tables::glyph_positioning::Type>",
    "tables::glyph_substitution::GlyphSubstitution": "crate::layout::directory::Directory<crate::tables::glyph_substitution::Type>",
}


def table_specs():
    out = []
    for t, tag in TABLES.items():
        out.append(f"impl TableSpec for {ALIASES.get(t, 'crate::' + t)} {{ open spec fn spec_tag() -> int {{ {int.from_bytes(tag, 'big')} }} }}")
    return "\n".join(out)


FRAME = "wf(*final(tape)) && final(tape).data() == old(tape).data()"

VOCABULARY = """
use crate::truetype::{tag32, Tag};
use crate::truetype::tables::offsets;
/// Whether the i-th record is the first one with the tag.
pub open spec fn first(rs: Seq<offsets::Record>, tag: int, i: int) -> bool {
    &&& 0 <= i < rs.len()
    &&& tag32(rs[i].tag) == tag
    &&& forall|j: int| 0 <= j < i && #[trigger] ix(j) ==> tag32(rs[j].tag) != tag
}
pub open spec fn absent(rs: Seq<offsets::Record>, tag: int) -> bool {
    forall|j: int| 0 <= j < rs.len() && #[trigger] ix(j) ==> tag32(rs[j].tag) != tag
}
/// Whether the recorded checksum is that of the data.
pub open spec fn valid(d: Seq<u8>, r: offsets::Record) -> bool {
    r.size <= u32::MAX - 4 && offsets::summable(d, r) && r.checksum == offsets::words(d, r, offsets::word_count(r))
}
"""


def contracts(features):
    check = "ignore-invalid-checksums" not in features
    valid = "crate::specs::valid(old(tape).data(), self.offsets.records@[i])" if check else "true"
    U = "<U as TableSpec>::spec_tag()"
    rs = "self.offsets.records@"
    c = {}
    c["font::Font::exists"] = [
        f"ensures /*@kind:match*/ r == !crate::specs::absent({rs}, <T as TableSpec>::spec_tag()),", ""]
    c["font::Font::position"] = [f"""
        requires wf(*old(tape)),
        ensures /*@kind:frame*/ {FRAME},
            /*@kind:match*/ r is Ok && r->Ok_0 is Some ==> exists|i: int| crate::specs::first({rs}, {U}, i) && #[trigger] ix(i)
                && final(tape).pos() == {rs}[i].offset,
            /*@kind:checksum*/ r is Ok && r->Ok_0 is Some ==> exists|i: int| crate::specs::first({rs}, {U}, i) && #[trigger] ix(i)
                && {valid},
            /*@kind:absent*/ r is Ok && r->Ok_0 is None ==> crate::specs::absent({rs}, {U}) && final(tape).pos() == old(tape).pos(),
            /*@kind:fault*/ r is Ok ==> final(tape).fault() == old(tape).fault(),
            /*@kind:reject*/ r is Err ==> final(tape).fault() || (exists|i: int| crate::specs::first({rs}, {U}, i) && #[trigger] ix(i)
                && !({valid})),
        """, ""]
    for name, acc, mat, param in (
            ("take", "<U as ValueSpec>::accepts(old(tape).data(), {o})", "<U as ValueSpec>::matches(old(tape).data(), {o}, v)", ""),
            ("take_given", "<U as WalueSpec>::waccepts(old(tape).data(), {o}, %0)", "<U as WalueSpec>::wmatches(old(tape).data(), {o}, %0, v)", ", %0.ok()")):
        o = f"{rs}[i].offset as int"
        acc, mat = acc.replace("{o}", o), mat.replace("{o}", o)
        c["font::Font::" + name] = [f"""
        requires wf(*old(tape)){param},
        ensures /*@kind:frame*/ {FRAME},
            /*@kind:match*/ r is Ok ==> match r->Ok_0 {{
                Some(v) => exists|i: int| crate::specs::first({rs}, {U}, i) && #[trigger] ix(i) && {acc} && {mat},
                None => true,
            }},
            /*@kind:checksum*/ r is Ok && r->Ok_0 is Some ==> exists|i: int| crate::specs::first({rs}, {U}, i) && #[trigger] ix(i)
                && {valid},
            /*@kind:absent*/ r is Ok && r->Ok_0 is None ==> crate::specs::absent({rs}, {U}) && final(tape).pos() == old(tape).pos(),
            /*@kind:fault*/ r is Ok ==> final(tape).fault() == old(tape).fault(),
            /*@kind:reject*/ r is Err ==> final(tape).fault() || (exists|i: int| crate::specs::first({rs}, {U}, i) && #[trigger] ix(i)
                && (!({valid}) || !{acc})),
        """, ""]
    F = "<crate::font::Font as ValueSpec>"
    D = "old(tape).data(), old(tape).pos()"
    c["font::Font::read"] = [f"""
        requires wf(*old(tape)),
        ensures /*@kind:frame*/ {FRAME},
            /*@kind:accept*/ r is Ok ==> {F}::accepts({D}),
            /*@kind:match*/ r is Ok ==> {F}::matches({D}, r->Ok_0),
            /*@kind:fault*/ r is Ok ==> final(tape).fault() == old(tape).fault(),
            /*@kind:reject*/ r is Err ==> !{F}::accepts({D}) || final(tape).fault(),
        """, ""]
    REVEAL = ("proof { reveal(crate::specs::font_Font_accepts); reveal(crate::specs::font_Font_matches);"
              " reveal(crate::specs::truetype_tables_offsets_Offsets_accepts); reveal(crate::specs::truetype_tables_offsets_Offsets_matches); }")
    c["file::File::read"] = [f"""
        requires wf(*old(tape)),
        ensures /*@kind:frame*/ {FRAME},
            /*@kind:accept*/ r is Ok ==> {F}::accepts({D}),
            /*@kind:match*/ r is Ok ==> r->Ok_0.fonts@.len() == 1 && {F}::matches({D}, r->Ok_0.fonts@[0]),
            /*@kind:fault*/ r is Ok ==> final(tape).fault() == old(tape).fault(),
            /*@kind:reject*/ r is Err ==> !{F}::accepts({D}) || final(tape).fault(),
        """, REVEAL]
    c["accept"] = ["ensures /*@kind:match*/ r == (crate::truetype::signature(crate::truetype::tag32(*%0)) || crate::truetype::tag32(*%0) == 0x74746366),", ""]

    def get(hs, rec):
        return [f"""
        requires self.{hs}@.len() == self.{rec}@.len(),
        ensures /*@kind:match*/ match r {{
            Some(x) => exists|i: int| 0 <= i < self.{hs}@.len() && #[trigger] ix(i) && crate::truetype::tag32(self.{hs}@[i].tag) == crate::truetype::tag32(%0)
                && *x == self.{rec}@[i]
                && (forall|j: int| 0 <= j < i && #[trigger] ix(j) ==> crate::truetype::tag32(self.{hs}@[j].tag) != crate::truetype::tag32(%0)),
            None => forall|j: int| 0 <= j < self.{hs}@.len() && #[trigger] ix(j) ==> crate::truetype::tag32(self.{hs}@[j].tag) != crate::truetype::tag32(%0),
        }},
        """, ""]
    c["layout::feature::Features::get"] = get("headers", "records")
    c["layout::script::Scripts::get"] = get("headers", "records")
    c["layout::script::Record::get"] = get("language_headers", "language_records")

    H = "tables::color_palettes::Header"
    c["tables::color_palettes::ColorPalettes::iter"] = ["""
        requires crate::specs::palettes_ok(*self),
        ensures /*@kind:match*/ r@.len() == crate::specs::palette_indices(*self).len(),
            /*@kind:match*/ forall|k: int| 0 <= k < r@.len() && #[trigger] ix(k) ==>
                r@[k]@.len() == crate::specs::palette_entries(*self)
                && (forall|e: int| 0 <= e < r@[k]@.len() && #[trigger] ix(e) ==>
                    *r@[k]@[e] == self.colors@[crate::specs::palette_indices(*self)[k] + e]),
        """, ""]
    for s in formats.T:
        if s.kind == "flags":
            for name, mask in s.bits + [("is_invalid", s.invalid)]:
                c[f"{s.module}::{s.name}::{name}"] = [f"ensures /*@kind:match*/ r == fbit(self.0, {mask}u16),", "proof { reveal(fbit); }"]
    return c


EXTRA = """
/// What iterating over color palettes relies on.
pub open spec fn palette_indices(v: crate::tables::color_palettes::ColorPalettes) -> Seq<u16> {
    match v.header {
        crate::tables::color_palettes::Header::Version0(h) => h.color_indices@,
        crate::tables::color_palettes::Header::Version1(h) => h.color_indices@,
    }
}
pub open spec fn palette_entries(v: crate::tables::color_palettes::ColorPalettes) -> int {
    match v.header {
        crate::tables::color_palettes::Header::Version0(h) => h.entry_count as int,
        crate::tables::color_palettes::Header::Version1(h) => h.entry_count as int,
    }
}
pub open spec fn palette_colors(v: crate::tables::color_palettes::ColorPalettes) -> int {
    match v.header {
        crate::tables::color_palettes::Header::Version0(h) => h.color_count as int,
        crate::tables::color_palettes::Header::Version1(h) => h.color_count as int,
    }
}
pub open spec fn palettes_ok(v: crate::tables::color_palettes::ColorPalettes) -> bool {
    &&& palette_colors(v) == v.colors@.len()
    &&& forall|k: int| 0 <= k < palette_indices(v).len() && #[trigger] ix(k) ==>
            palette_indices(v)[k] + palette_entries(v) <= v.colors@.len()
}
/// Whatever was read may be iterated over.
pub proof fn lemma_palettes(d: Seq<u8>, p: int, v: crate::tables::color_palettes::ColorPalettes)
    requires tables_color_palettes_ColorPalettes_accepts(d, p), tables_color_palettes_ColorPalettes_matches(d, p, v),
    ensures palettes_ok(v),
{
    reveal(tables_color_palettes_ColorPalettes_accepts); reveal(tables_color_palettes_ColorPalettes_matches);
    reveal(tables_color_palettes_Header_accepts); reveal(tables_color_palettes_Header_matches);
    reveal(tables_color_palettes_Header0_accepts); reveal(tables_color_palettes_Header0_matches);
    reveal(tables_color_palettes_Header1_accepts); reveal(tables_color_palettes_Header1_matches);
}
/// Whatever was read may be looked up by tag.
pub proof fn lemma_features(d: Seq<u8>, p: int, v: crate::layout::feature::Features)
    requires layout_feature_Features_matches(d, p, v),
    ensures v.headers@.len() == v.records@.len(),
{ reveal(layout_feature_Features_matches); }
pub proof fn lemma_scripts(d: Seq<u8>, p: int, v: crate::layout::script::Scripts)
    requires layout_script_Scripts_matches(d, p, v),
    ensures v.headers@.len() == v.records@.len(),
{ reveal(layout_script_Scripts_matches); }
pub proof fn lemma_languages(d: Seq<u8>, p: int, v: crate::layout::script::Record)
    requires layout_script_Record_matches(d, p, v),
    ensures v.language_headers@.len() == v.language_records@.len(),
{ reveal(layout_script_Record_matches); }
"""


def bits():
    """The methods that tell whether bits are set."""
    out, bad = {}, set()
    for s in formats.T:
        if s.kind == "flags":
            for name, mask in s.bits:
                if out.setdefault(name, mask) != mask:
                    bad.add(name)
    return {k: v for k, v in out.items() if k not in bad}
