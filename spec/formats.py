"""The format grammar: one entry for each structure that the crate reads.

This is the specification, written down from the OpenType specification and the
property statements.  Three things are generated from it: the specification
functions that the contracts of the readers refer to (specgen.py), the oracle
that decodes bytes independently of the crate, and the generator of inputs
(both in /verif/harness).

Kinds of fields (in the order in which they lie on the tape):

  i(name, T, [args])        T follows inline
  c(name, T, value)         T follows inline and must equal the value
  n(name, T, count, [args]) `count` values T follow inline, without gaps
  o(name, T, cond, [args])  T follows inline if `cond`, otherwise absent
  d(name, T, cond, default) T follows inline if `cond`, otherwise the default
  at(name, T, off, [args])  T lies at `here` + off
  ato(name, T, off)         as at, but absent if off is 0 (an Option)
  atd(name, T, off)         as at, but T's default if off is 0
  l(name, T, count, off, [args])  `count` values, the k-th at `here` + off
  lo(name, T, count, off)   as l, but absent where off is 0 (a Vec of Options)
  bytes0(name, off)         an empty vector of bytes if off is not 0 (an Option)
  req(cond)                 the structure is rejected unless cond

`here` is the beginning of the structure, or the parameter `position` if the
structure has one.  Expressions are Python syntax over the fields before, `k`
the index of an element, u16(x)/u32(x) the word at the beginning + x, and
has(flags, mask).
"""

FEATURES = ("default-language", "ignore-incomplete-directories",
            "ignore-incomplete-marks", "ignore-invalid-checksums")

T = []          # all structures, in order


class F:
    def __init__(self, kind, name=None, type=None, **kw):
        self.kind, self.name, self.type = kind, name, type
        self.args = None
        self.__dict__.update(kw)


def i(name, type, args=None): return F("i", name, type, args=args)
def c(name, type, value): return F("c", name, type, value=value)
def n(name, type, count, args=None): return F("n", name, type, count=count, args=args)
def o(name, type, cond, args=None): return F("o", name, type, cond=cond, args=args)
def d(name, type, cond, default): return F("d", name, type, cond=cond, default=default)
def at(name, type, off, args=None): return F("at", name, type, off=off, args=args)
def ato(name, type, off): return F("ato", name, type, off=off)
def atd(name, type, off): return F("atd", name, type, off=off)
def l(name, type, count, off, args=None): return F("l", name, type, count=count, off=off, args=args)
def lo(name, type, count, off): return F("lo", name, type, count=count, off=off)
def bytes0(name, off): return F("bytes0", name, "Vec<u8>", off=off)
def req(cond): return F("req", cond=cond)


class S:
    """A structure.  owner: the property that owns its contract.  size: the
    number of bytes after which the next one follows (None: not specified)."""

    def __init__(self, kind, module, name, owner, **kw):
        self.kind, self.module, self.name, self.owner = kind, module, name, owner
        self.params, self.generic, self.size, self.fields = [], None, None, []
        self.__dict__.update(kw)
        T.append(self)


MODULE = OWNER = None


def module(m, owner):
    global MODULE, OWNER
    MODULE, OWNER = m, owner


def table(name, *fields, **kw):
    kw.setdefault("owner", OWNER)
    return S("table", MODULE, name, fields=list(fields), **kw)


def choice(name, peek, *variants, **kw):
    """peek: (width, offset, {value-or-range: (variant, type)})"""
    kw.setdefault("owner", OWNER)
    return S("choice", MODULE, name, peek=peek, variants=list(variants), **kw)


def select(name, param, *variants, **kw):
    """As choice, but depending on a parameter instead of the bytes."""
    kw.setdefault("owner", OWNER)
    return S("select", MODULE, name, params=[param], variants=list(variants), **kw)


def flags(name, invalid, *bits, **kw):
    kw.setdefault("owner", OWNER)
    return S("flags", MODULE, name, invalid=invalid, bits=list(bits), **kw)


# --------------------------------------------------------------------------
module("layout::coverage", "C12")
table("Record", i("start_glyph_id", "u16"), i("end_glyph_id", "u16"), i("index", "u16"))
table("Coverage1", i("format", "u16"), i("glyph_count", "u16"), n("glyph_ids", "u16", "glyph_count"))
table("Coverage2", i("format", "u16"), i("record_count", "u16"), n("records", "layout::coverage::Record", "record_count"))
choice("Coverage", ("u16", 0), (1, "Format1", "Coverage1"), (2, "Format2", "Coverage2"))

module("layout::class", "C12")
table("Record", i("start_glyph_id", "u16"), i("end_glyph_id", "u16"), i("index", "u16"))
table("Class1", i("format", "u16"), i("start_glyph_id", "u16"), i("glyph_count", "u16"), n("indices", "u16", "glyph_count"))
table("Class2", i("format", "u16"), i("record_count", "u16"), n("records", "layout::class::Record", "record_count"))
choice("Class", ("u16", 0), (1, "Format1", "Class1"), (2, "Format2", "Class2"))

module("layout::context", "C13")
COV, CLS = "layout::coverage::Coverage", "layout::class::Class"
table("Action", i("position_index", "u16"), i("lookup_index", "u16"))
table("Record", i("glyph_count", "u16"), i("action_count", "u16"), req("glyph_count > 0"),
      n("glyph_ids", "u16", "glyph_count - 1"), n("actions", "Action", "action_count"))
table("Records", i("count", "u16"), n("offsets", "u16", "count"), l("records", "Record", "count", "offsets[k]"))
table("ClassRecord", i("glyph_count", "u16"), i("action_count", "u16"), req("glyph_count > 0"),
      n("indices", "u16", "glyph_count - 1"), n("actions", "Action", "action_count"))
table("ClassRecords", i("count", "u16"), n("offsets", "u16", "count"), l("records", "ClassRecord", "count", "offsets[k]"))
table("ChainedRecord",
      i("backward_glyph_count", "u16"), n("backward_glyph_ids", "u16", "backward_glyph_count"),
      i("glyph_count", "u16"), req("glyph_count > 0"), n("glyph_ids", "u16", "glyph_count - 1"),
      i("forward_glyph_count", "u16"), n("forward_glyph_ids", "u16", "forward_glyph_count"),
      i("action_count", "u16"), n("actions", "Action", "action_count"))
table("ChainedRecords", i("count", "u16"), n("offsets", "u16", "count"), l("records", "ChainedRecord", "count", "offsets[k]"))
table("ChainedClassRecord",
      i("backward_glyph_count", "u16"), n("backward_indices", "u16", "backward_glyph_count"),
      i("glyph_count", "u16"), req("glyph_count > 0"), n("indices", "u16", "glyph_count - 1"),
      i("forward_glyph_count", "u16"), n("forward_indices", "u16", "forward_glyph_count"),
      i("action_count", "u16"), n("actions", "Action", "action_count"))
table("ChainedClassRecords", i("count", "u16"), n("offsets", "u16", "count"), l("records", "ChainedClassRecord", "count", "offsets[k]"))
table("Context1", i("format", "u16"), i("coverage_offset", "u16"), i("record_count", "u16"),
      n("record_offsets", "u16", "record_count"), at("coverage", COV, "coverage_offset"),
      l("records", "Records", "record_count", "record_offsets[k]"))
table("Context2", i("format", "u16"), i("coverage_offset", "u16"), i("class_offset", "u16"), i("record_count", "u16"),
      n("record_offsets", "u16", "record_count"), at("coverage", COV, "coverage_offset"),
      at("class", CLS, "class_offset"), lo("records", "ClassRecords", "record_count", "record_offsets[k]"))
table("Context3", i("format", "u16"), i("glyph_count", "u16"), i("action_count", "u16"),
      n("coverage_offsets", "u16", "glyph_count"), n("actions", "Action", "action_count"),
      l("coverages", COV, "glyph_count", "coverage_offsets[k]"))
choice("Context", ("u16", 0), (1, "Format1", "Context1"), (2, "Format2", "Context2"), (3, "Format3", "Context3"))
table("ChainedContext1", i("format", "u16"), i("coverage_offset", "u16"), i("record_count", "u16"),
      n("record_offsets", "u16", "record_count"), at("coverage", COV, "coverage_offset"),
      l("records", "ChainedRecords", "record_count", "record_offsets[k]"))
table("ChainedContext2", i("format", "u16"), i("coverage_offset", "u16"), i("backward_class_offset", "u16"),
      i("class_offset", "u16"), i("forward_class_offset", "u16"), i("record_count", "u16"),
      n("record_offsets", "u16", "record_count"), at("coverage", COV, "coverage_offset"),
      at("backward_class", CLS, "backward_class_offset"), at("class", CLS, "class_offset"),
      at("forward_class", CLS, "forward_class_offset"),
      lo("records", "ChainedClassRecords", "record_count", "record_offsets[k]"))
table("ChainedContext3", i("format", "u16"),
      i("backward_glyph_count", "u16"), n("backward_coverage_offsets", "u16", "backward_glyph_count"),
      i("glyph_count", "u16"), n("coverage_offsets", "u16", "glyph_count"),
      i("forward_glyph_count", "u16"), n("forward_coverage_offsets", "u16", "forward_glyph_count"),
      i("action_count", "u16"), n("actions", "Action", "action_count"),
      l("backward_coverages", COV, "backward_glyph_count", "backward_coverage_offsets[k]"),
      l("coverages", COV, "glyph_count", "coverage_offsets[k]"),
      l("forward_coverages", COV, "forward_glyph_count", "forward_coverage_offsets[k]"))
choice("ChainedContext", ("u16", 0), (1, "Format1", "ChainedContext1"), (2, "Format2", "ChainedContext2"),
       (3, "Format3", "ChainedContext3"))

module("layout::correction", "C14")
table("Device", i("start_size", "u16"), i("end_size", "u16"), req("start_size <= end_size"),
      i("format", "u16"), req("format >= 1 and format <= 3"),
      n("deltas", "u16", "((end_size - start_size + 1) * pow2(format) + 15) // 16"))
table("Variation", i("outer_index", "u16"), i("inner_index", "u16"), i("format", "u16"))
choice("Correction", ("u16", 4), ((1, 3), "Device", "Device"), (0x8000, "Variation", "Variation"))

module("layout::language", "C08")
table("Header", i("tag", "Tag"), i("offset", "u16"))
table("Record", c("lookup_order_offset", "u16", 0), i("required_feature_index", "u16"), i("feature_index_count", "u16"),
      n("feature_indices", "u16", "feature_index_count"))

module("layout::script", "C08")
table("Header", i("tag", "Tag"), i("offset", "u16"))
table("Record", i("default_language_offset", "u16"), i("language_count", "u16"),
      n("language_headers", "layout::language::Header", "language_count"),
      ato("default_language", "layout::language::Record", "default_language_offset"),
      l("language_records", "layout::language::Record", "language_count", "language_headers[k].offset"))
table("Scripts", i("count", "u16"), n("headers", "layout::script::Header", "count"),
      l("records", "layout::script::Record", "count", "headers[k].offset"))

module("layout::feature", "C08")
table("Header", i("tag", "Tag"), i("offset", "u16"))
table("Record", i("parameter_offset", "u16"), i("lookup_index_count", "u16"),
      n("lookup_indices", "u16", "lookup_index_count"), bytes0("parameters", "parameter_offset"))
table("Features", i("count", "u16"), n("headers", "layout::feature::Header", "count"),
      l("records", "layout::feature::Record", "count", "headers[k].offset"))
table("Variations", c("major_version", "u16", 1), c("minor_version", "u16", 0), i("count", "u32"), owner="C07")

module("layout::lookup", "C11")
flags("Flags", 0x00E0, ("is_right_to_left", 1), ("should_ignore_base_glyphs", 2), ("should_ignore_ligature", 4),
      ("should_ignore_marks", 8), ("has_mark_filtering", 16), owner="C22")
table("Record", i("type", "u16"), i("flags", "layout::lookup::Flags"), i("table_count", "u16"),
      n("table_offsets", "u16", "table_count"), o("mark_filtering_set", "u16", "has(flags, 16)"),
      l("tables", "U", "table_count", "table_offsets[k]", args=["type"]), generic="U")
table("Lookups", i("count", "u16"), n("offsets", "u16", "count"),
      l("records", "layout::lookup::Record<U>", "count", "offsets[k]"), generic="U")

module("layout::directory", "C07")
table("Directory", i("major_version", "u16"), i("minor_version", "u16"),
      req("major_version == 1 and minor_version <= 1"),
      i("script_offset", "u16"), i("feature_offset", "u16"), i("lookup_offset", "u16"),
      d("variation_offset", "u32", "minor_version == 1", 0),
      F("dir", "scripts", "layout::script::Scripts", off="script_offset"),
      F("dir", "features", "layout::feature::Features", off="feature_offset"),
      F("dir", "lookups", "layout::lookup::Lookups<U>", off="lookup_offset"),
      ato("variations", "layout::feature::Variations", "variation_offset"), generic="U")

module("variations::item", "C19")
table("Record", i("item_count", "u16"), i("short_delta_count", "u16"), i("region_count", "u16"),
      n("region_indices", "u16", "region_count"),
      n("deltas", "u8", "item_count * (short_delta_count + region_count)"))
table("Store", c("format", "u16", 1), i("region_offset", "u32"), i("count", "u16"), n("offsets", "u32", "count"),
      l("records", "variations::item::Record", "count", "offsets[k]"))

module("tables::color_palettes", "C21")
for v in (0, 1):
    table(f"Header{v}", c("version", "u16", v), i("entry_count", "u16"), i("palette_count", "u16"),
          i("color_count", "u16"), i("color_offset", "u32"), n("color_indices", "u16", "palette_count"))
table("Color", i("blue", "u8"), i("green", "u8"), i("red", "u8"), i("alpha", "u8"))
choice("Header", ("u16", 0), (0, "Version0", "Header0"), (1, "Version1", "Header1"))
table("ColorPalettes", i("header", "tables::color_palettes::Header"),
      req("forall(u16(4), u16s(12, k) + u16(2) <= u16(6))"),
      at("colors", "Vec<tables::color_palettes::Color>", "u32(8)", args=["u16(6)"]))

module("tables::font_variations", "C20")
flags("AxisFlags", 0xFFFE, ("is_hidden", 1), owner="C22")
flags("InstanceFlags", 0xFFFF, owner="C22")
table("Header", i("major_version", "u16"), i("minor_version", "u16"), i("axis_offset", "u16"), c("reserved", "u16", 2),
      i("axis_count", "u16"), i("axis_size", "u16"), i("instance_count", "u16"), i("instance_size", "u16"))
table("AxisRecord", i("tag", "Tag"), i("min_value", "q32"), i("default_value", "q32"), i("max_value", "q32"),
      i("flags", "tables::font_variations::AxisFlags"), i("name_id", "NameID"))
table("InstanceRecord", i("subfamily_name_id", "NameID"), i("flags", "tables::font_variations::InstanceFlags"),
      n("coordinates", "q32", "axis_count"),
      d("postscript_name_id", "NameID", "instance_size >= 4 * axis_count + 6", 0xFFFF),
      params=[("axis_count", "u16"), ("instance_size", "u16")])
table("FontVariations", i("header", "tables::font_variations::Header"),
      l("axis_records", "tables::font_variations::AxisRecord", "u16(8)", "u16(4) + k * u16(10)"),
      l("instance_records", "tables::font_variations::InstanceRecord", "u16(12)",
        "u16(4) + u16(8) * u16(10) + k * u16(14)", args=["u16(8)", "u16(14)"]))

module("tables::glyph_definition::element", "C18")
COR = "layout::correction::Correction"
table("Attachment", i("index_count", "u16"), n("indices", "u16", "index_count"))
table("Attachments", i("coverage_offset", "u16"), i("count", "u16"), n("offsets", "u16", "count"),
      at("coverage", COV, "coverage_offset"), l("records", "Attachment", "count", "offsets[k]"))
table("Caret1", i("format", "u16"), i("coordinate", "i16"))
table("Caret2", i("format", "u16"), i("index", "u16"))
table("Caret3", i("format", "u16"), i("coordinate", "i16"), i("correction_offset", "u16"),
      at("correction", COR, "correction_offset"))
choice("Caret", ("u16", 0), (1, "Format1", "Caret1"), (2, "Format2", "Caret2"), (3, "Format3", "Caret3"))
table("Ligature", i("caret_count", "u16"), n("caret_offsets", "u16", "caret_count"),
      l("carets", "Caret", "caret_count", "caret_offsets[k]"))
table("Ligatures", i("coverage_offset", "u16"), i("count", "u16"), n("offsets", "u16", "count"),
      at("coverage", COV, "coverage_offset"), l("records", "Ligature", "count", "offsets[k]"))
table("Marks", c("format", "u16", 1), i("count", "u16"), n("coverage_offsets", "u32", "count"),
      l("coverages", COV, "count", "coverage_offsets[k]"))

module("tables::glyph_definition", "C18")
BASE = [i("glyph_class_offset", "u16"), i("attachment_offset", "u16"), i("ligature_offset", "u16"),
        i("mark_class_offset", "u16")]
table("Header1", c("major_version", "u16", 1), c("minor_version", "u16", 0), *BASE)
table("Header12", c("major_version", "u16", 1), c("minor_version", "u16", 2), *BASE, i("mark_offset", "u16"))
table("Header13", c("major_version", "u16", 1), c("minor_version", "u16", 3), *BASE, i("mark_offset", "u16"),
      i("variation_offset", "u32"))
choice("Header", ("u32", 0), (0x10000, "Version1", "Header1"), (0x10002, "Version12", "Header12"),
       (0x10003, "Version13", "Header13"))
E_ = "tables::glyph_definition::element::"
table("GlyphDefinition", i("header", "tables::glyph_definition::Header"),
      ato("glyph_class", CLS, "u16(4)"), ato("attachments", E_ + "Attachments", "u16(6)"),
      ato("ligatures", E_ + "Ligatures", "u16(8)"), ato("mark_class", CLS, "u16(10)"),
      ato("marks", E_ + "Marks", "u16(12) if u16(2) >= 2 else 0"),
      ato("variations", "variations::item::Store", "u32(14) if u16(2) >= 3 else 0"))

module("tables::glyph_positioning::element", "C16")
flags("Flags", 0xFF00, ("has_x_placement", 1), ("has_y_placement", 2), ("has_x_advance", 4), ("has_y_advance", 8),
      ("has_x_placement_correction", 16), ("has_y_placement_correction", 32), ("has_x_advance_correction", 64),
      ("has_y_advance_correction", 128), owner="C22")
table("Anchor1", i("format", "u16"), i("x", "i16"), i("y", "i16"))
table("Anchor2", i("format", "u16"), i("x", "i16"), i("y", "i16"), i("index", "u16"))
table("Anchor3", i("format", "u16"), i("x", "i16"), i("y", "i16"), i("x_correction_offset", "u16"),
      i("y_correction_offset", "u16"), ato("x_correction", COR, "x_correction_offset"),
      ato("y_correction", COR, "y_correction_offset"))
choice("Anchor", ("u16", 0), (1, "Format1", "Anchor1"), (2, "Format2", "Anchor2"), (3, "Format3", "Anchor3"))
PN = [("position", "u64"), ("mark_class_count", "u16")]
for name in ("Base", "Component", "Mark2"):
    table(name, n("anchor_offsets", "u16", "mark_class_count"), lo("anchors", "Anchor", "mark_class_count", "anchor_offsets[k]"),
          params=PN, size="auto")
N_ = [("mark_class_count", "u16")]
table("Bases", i("count", "u16"), n("records", "Base", "count", args=["here", "mark_class_count"]), params=N_)
table("Mark2s", i("count", "u16"), n("records", "Mark2", "count", args=["here", "mark_class_count"]), params=N_)
table("Ligature", i("count", "u16"), n("components", "Component", "count", args=["here", "mark_class_count"]), params=N_)
table("Ligatures", i("count", "u16"), n("offsets", "u16", "count"),
      l("records", "Ligature", "count", "offsets[k]", args=["mark_class_count"]), params=N_)
table("Connection", i("start_anchor_offset", "u16"), i("end_anchor_offset", "u16"),
      ato("start_anchor", "Anchor", "start_anchor_offset"), ato("end_anchor", "Anchor", "end_anchor_offset"),
      params=[("position", "u64")], size="4")
table("Mark1", i("class_id", "u16"), i("anchor_offset", "u16"), F("mark", "anchor", "Anchor", off="anchor_offset"),
      params=[("position", "u64")], size="4")
table("Mark1s", i("count", "u16"), n("records", "Mark1", "count", args=["here"]))
V8 = ["x_placement", "y_placement", "x_advance", "y_advance"]
table("Single",
      *[o(f, "i16", f"has(flags, {1 << j})") for j, f in enumerate(V8)],
      *[o(f + "_correction_offset", "u16", f"has(flags, {16 << j})") for j, f in enumerate(V8)],
      *[ato(f + "_correction", COR, f"{f}_correction_offset if has(flags, {16 << j}) else 0") for j, f in enumerate(V8)],
      params=[("position", "u64"), ("flags", "Flags")],
      size="auto", owner="C15")
PFF = [("position", "u64"), ("value1_flags", "Flags"), ("value2_flags", "Flags")]
VV = [o("value1", "Single", "value1_flags > 0", args=["position", "value1_flags"]),
      o("value2", "Single", "value2_flags > 0", args=["position", "value2_flags"])]
SZ = "wsize(Single, position, value1_flags) * (1 if value1_flags > 0 else 0) + wsize(Single, position, value2_flags) * (1 if value2_flags > 0 else 0)"
table("Pair1", i("glyph2_id", "u16"), *VV, params=PFF, size="auto", owner="C15")
table("Pair2", *VV, params=PFF, size="auto", owner="C15")
table("Pair1s", i("count", "u16"), n("records", "Pair1", "count", args=["here", "value1_flags", "value2_flags"]),
      params=[("value1_flags", "Flags"), ("value2_flags", "Flags")], owner="C15")
table("Pair2s", n("records", "Pair2", "class2_count", args=["position", "value1_flags", "value2_flags"]),
      params=[("position", "u64"), ("class2_count", "u16"), ("value1_flags", "Flags"), ("value2_flags", "Flags")],
      size="auto", owner="C15")

module("tables::glyph_positioning", "C15")
P_ = "tables::glyph_positioning::element::"
table("SingleAdjustment1", i("format", "u16"), i("coverage_offset", "u16"), i("value_flags", P_ + "Flags"),
      i("value", P_ + "Single", args=["here", "value_flags"]), at("coverage", COV, "coverage_offset"))
table("SingleAdjustment2", i("format", "u16"), i("coverage_offset", "u16"), i("value_flags", P_ + "Flags"),
      i("value_count", "u16"), n("values", P_ + "Single", "value_count", args=["here", "value_flags"]),
      at("coverage", COV, "coverage_offset"))
choice("SingleAdjustment", ("u16", 0), (1, "Format1", "SingleAdjustment1"), (2, "Format2", "SingleAdjustment2"))
table("PairAdjustment1", i("format", "u16"), i("coverage_offset", "u16"), i("value1_flags", P_ + "Flags"),
      i("value2_flags", P_ + "Flags"), i("record_count", "u16"), n("record_offsets", "u16", "record_count"),
      at("coverage", COV, "coverage_offset"),
      l("records", P_ + "Pair1s", "record_count", "record_offsets[k]", args=["value1_flags", "value2_flags"]))
table("PairAdjustment2", i("format", "u16"), i("coverage_offset", "u16"), i("value1_flags", P_ + "Flags"),
      i("value2_flags", P_ + "Flags"), i("class1_offset", "u16"), i("class2_offset", "u16"),
      i("class1_count", "u16"), i("class2_count", "u16"),
      n("records", P_ + "Pair2s", "class1_count", args=["here", "class2_count", "value1_flags", "value2_flags"]),
      at("coverage", COV, "coverage_offset"), at("class1", CLS, "class1_offset"), at("class2", CLS, "class2_offset"))
choice("PairAdjustment", ("u16", 0), (1, "Format1", "PairAdjustment1"), (2, "Format2", "PairAdjustment2"))

module("tables::glyph_positioning", "C16")
table("CursiveAttachment", c("format", "u16", 1), i("coverage_offset", "u16"), i("connection_count", "u16"),
      n("connections", P_ + "Connection", "connection_count", args=["here"]), at("coverage", COV, "coverage_offset"))
def attach(name, a, b, m, q, T1, T2, N):
    table(name, c("format", "u16", 1), i(a + "_coverage_offset", "u16"), i(b + "_coverage_offset", "u16"),
          i("mark_class_count", "u16"), i(m + "_offset", "u16"), i(q + "_offset", "u16"),
          at(a + "_coverage", COV, a + "_coverage_offset"), at(b + "_coverage", COV, b + "_coverage_offset"),
          at(m, P_ + T1, m + "_offset"), at(q, P_ + T2, q + "_offset", args=["mark_class_count"]))
attach("MarkToBaseAttachment", "mark", "base", "marks", "bases", "Mark1s", "Bases", 0)
attach("MarkToLigatureAttachment", "mark", "ligature", "marks", "ligatures", "Mark1s", "Ligatures", 0)
attach("MarkToMarkAttachment", "mark1", "mark2", "mark1s", "mark2s", "Mark1s", "Mark2s", 0)
table("ExtensionPositioning", c("format", "u16", 1), i("type", "u16"), i("offset", "u32"), owner="C11")
select("Type", ("type", "u16"),
       (1, "SingleAdjustment", "SingleAdjustment"), (2, "PairAdjustment", "PairAdjustment"),
       (3, "CursiveAttachment", "CursiveAttachment"), (4, "MarkToBaseAttachment", "MarkToBaseAttachment"),
       (5, "MarkToLigatureAttachment", "MarkToLigatureAttachment"), (6, "MarkToMarkAttachment", "MarkToMarkAttachment"),
       (7, "ContextualPositioning", "layout::context::Context"),
       (8, "ChainedContextualPositioning", "layout::context::ChainedContext"),
       (9, "ExtensionPositioning", "ExtensionPositioning"), owner="C11")

module("tables::glyph_substitution::element", "C17")
table("Alternates", i("glyph_count", "u16"), n("glyph_ids", "u16", "glyph_count"))
table("Ligature", i("glyph_id", "u16"), i("glyph_count", "u16"), req("glyph_count > 0"),
      n("glyph_ids", "u16", "glyph_count - 1"))
table("Ligatures", i("count", "u16"), n("offsets", "u16", "count"), l("records", "Ligature", "count", "offsets[k]"))
table("Sequence", i("glyph_count", "u16"), n("glyph_ids", "u16", "glyph_count"))

module("tables::glyph_substitution", "C17")
G_ = "tables::glyph_substitution::element::"
table("SingleSubstitution1", i("format", "u16"), i("coverage_offset", "u16"), i("delta_glyph_id", "i16"),
      at("coverage", COV, "coverage_offset"))
table("SingleSubstitution2", i("format", "u16"), i("coverage_offset", "u16"), i("glyph_count", "u16"),
      n("glyph_ids", "u16", "glyph_count"), at("coverage", COV, "coverage_offset"))
choice("SingleSubstitution", ("u16", 0), (1, "Format1", "SingleSubstitution1"), (2, "Format2", "SingleSubstitution2"))
for name, rec in (("MultipleSubstitution", "Sequence"), ("AlternateSubstitution", "Alternates"),
                  ("LigatureSubstitution", "Ligatures")):
    table(name, c("format", "u16", 1), i("coverage_offset", "u16"), i("record_count", "u16"),
          n("record_offsets", "u16", "record_count"), at("coverage", COV, "coverage_offset"),
          l("records", G_ + rec, "record_count", "record_offsets[k]"))
table("ExtensionSubstitution", c("format", "u16", 1), i("type", "u16"), i("offset", "u32"))
table("ReverseChainedContextualSubstibution", i("format", "u16"), i("coverage_offset", "u16"),
      i("backward_glyph_count", "u16"), n("backward_coverage_offsets", "u16", "backward_glyph_count"),
      i("forward_glyph_count", "u16"), n("forward_coverage_offsets", "u16", "forward_glyph_count"),
      i("glyph_count", "u16"), n("glyph_ids", "u16", "glyph_count"), at("coverage", COV, "coverage_offset"),
      l("backward_coverages", COV, "backward_glyph_count", "backward_coverage_offsets[k]"),
      l("forward_coverages", COV, "forward_glyph_count", "forward_coverage_offsets[k]"))
select("Type", ("type", "u16"),
       (1, "SingleSubstitution", "SingleSubstitution"), (2, "MultipleSubstitution", "MultipleSubstitution"),
       (3, "AlternateSubstitution", "AlternateSubstitution"), (4, "LigatureSubstitution", "LigatureSubstitution"),
       (5, "ContextualSubstitution", "layout::context::Context"),
       (6, "ChainedContextualSubstitution", "layout::context::ChainedContext"),
       (7, "ExtensionSubstitution", "ExtensionSubstitution"),
       (8, "ReverseChainedContextualSubstibution", "ReverseChainedContextualSubstibution"), owner="C11")

module("font", "C06")
table("Font", i("offsets", "truetype::tables::offsets::Offsets"))

# The part of the dependencies that the crate builds on (same kinds of contracts).
module("truetype::tables::offsets", "C06")
table("Record", i("tag", "Tag"), i("checksum", "u32"), i("offset", "u32"), i("size", "u32"))
table("Header", i("version", "u32"),
      req("version == 0x00010000 or version == 0x4F54544F or version == 0x74727565 or version == 0x74797031"),
      i("table_count", "u16"), i("search_range", "u16"), i("entry_selector", "u16"), i("range_shift", "u16"))
table("Offsets", i("header", "truetype::tables::offsets::Header"),
      n("records", "truetype::tables::offsets::Record", "u16(4)"))

# Statements that reach into what another property owns.
POSITIONING, SUBSTITUTION = "tables::glyph_positioning::", "tables::glyph_substitution::"
ALSO = {"layout::lookup::Flags": ["C11"], POSITIONING + "element::Flags": ["C15"], "tables::font_variations::AxisFlags": ["C20"],
        "tables::font_variations::InstanceFlags": ["C20"], POSITIONING + "Type": ["C15", "C16"], SUBSTITUTION + "Type": ["C17"]}
