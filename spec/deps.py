"""The dependencies: what their functions need besides their bodies for the verifier to accept them.

The contracts of these functions stand in prelude.rs and truetype.rs, next to a mark by which the body is put there."""

_RECORD = "old(tape).data(), *self"

# What comes first in a body.
INTRO = {
    "value::(U,V)::<Read>::read": "proof { A::is_framed(); B::is_framed(); }",
    "walue::Vec::<Read>::read": "proof { V::is_framed(); all_strides(V::size()); }",
    "tables::offsets::Offsets::<Read>::read": "proof { reveal(crate::specs::truetype_tables_offsets_Offsets_accepts); reveal(crate::specs::truetype_tables_offsets_Offsets_matches); }",
    "tables::offsets::Record::checksum": "broadcast use crate::typeface::bits; proof { words_none(tape.data(), *self); }",
}
# The invariants of loops, and what is to be noticed in each iteration.
LOOPS = {
    "tables::offsets::Record::checksum": [[
        """wf(*tape) && tape.data() == old(tape).data() && tape.fault() == old(tape).fault(),
        tape.pos() == self.offset + 4 * %i,
        %i > 0 ==> readable(tape.data(), self.offset as int, 4 * %i),
        total == words(tape.data(), *self, %i as int)""",
        "proof { words_step(tape.data(), *self, %i as int); }"]],
}
# Paths of the dependencies in the program.
PATHS = [
    (r"\bcrate :: tag ::", "crate :: truetype ::"),
    (r"\bcrate :: (?!typeface\b|truetype\b|specs\b)", "crate :: %s :: "),
    (r"\bstd :: io :: SeekFrom\b", "crate :: typeface :: SeekFrom"),
    (r"\balloc :: vec :: from_elem \((\w+), (\w+)\)", r"vec![\1; \2]"),
    (r"\b(u8|u16|i16|u32|i32) :: from_be_bytes\b", r"crate :: typeface :: be :: \1"),
]
# Types of the dependencies, as they have to be there, by what they are called in the program.
TYPES = [
    ("typeface", "pub struct q32(pub i32);"),
    ("truetype", "pub struct Tag(pub [u8; 4]);"), ("truetype", "pub type GlyphID = u16;"),
    ("truetype", "pub struct Offsets { pub header: Header, pub records: Vec<Record>, }"),
    ("truetype", "pub struct Header { pub version: u32, pub table_count: u16, pub search_range: u16, pub entry_selector: u16, pub range_shift: u16, }"),
    ("truetype", "pub struct Record { pub tag: Tag, pub checksum: u32, pub offset: u32, pub size: u32, }"),
]
