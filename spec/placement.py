"""The lemmas that tell that the specifications do not depend on where on the tape
a structure lies, and what they mean for the readers."""
import specgen

HEAD = """
pub mod placement {
use vstd::prelude::*;
use crate::typeface::*;
use crate::specs::*;
broadcast use crate::typeface::facts;

/// From b + s on the second tape holds what the first one holds from b on.
#[verifier::opaque]
pub open spec fn shifted(d: Seq<u8>, e: Seq<u8>, b: int, s: int) -> bool {
    &&& 0 <= b && 0 <= b + s
    &&& d.len() + s == e.len() && d.len() <= LIMIT() && e.len() <= LIMIT()
    &&& forall|i: int| b <= i < d.len() ==> #[trigger] d[i] == e[i + s]
}
pub broadcast proof fn at8(d: Seq<u8>, e: Seq<u8>, b: int, s: int, p: int, q: int)
    requires #[trigger] shifted(d, e, b, s), b <= p < d.len(), q == p + s,
    ensures #[trigger] d[p] == #[trigger] e[q],
{ reveal(shifted); }
pub broadcast proof fn at16(d: Seq<u8>, e: Seq<u8>, b: int, s: int, p: int, q: int)
    requires #[trigger] shifted(d, e, b, s), b <= p, p + 2 <= d.len(), q == p + s,
    ensures #[trigger] be16(d, p) == #[trigger] be16(e, q),
{ at8(d, e, b, s, p, q); at8(d, e, b, s, p + 1, q + 1); }
pub broadcast proof fn at32(d: Seq<u8>, e: Seq<u8>, b: int, s: int, p: int, q: int)
    requires #[trigger] shifted(d, e, b, s), b <= p, p + 4 <= d.len(), q == p + s,
    ensures #[trigger] be32(d, p) == #[trigger] be32(e, q),
{ at16(d, e, b, s, p, q); at16(d, e, b, s, p + 2, q + 2); }
pub broadcast proof fn at_i16(d: Seq<u8>, e: Seq<u8>, b: int, s: int, p: int, q: int)
    requires #[trigger] shifted(d, e, b, s), b <= p, p + 2 <= d.len(), q == p + s,
    ensures #[trigger] bei16(d, p) == #[trigger] bei16(e, q),
{ at16(d, e, b, s, p, q); }
pub broadcast proof fn at_i32(d: Seq<u8>, e: Seq<u8>, b: int, s: int, p: int, q: int)
    requires #[trigger] shifted(d, e, b, s), b <= p, p + 4 <= d.len(), q == p + s,
    ensures #[trigger] bei32(d, p) == #[trigger] bei32(e, q),
{ at32(d, e, b, s, p, q); }
pub broadcast proof fn bounds(d: Seq<u8>, e: Seq<u8>, b: int, s: int)
    requires #[trigger] shifted(d, e, b, s),
    ensures 0 <= b && 0 <= b + s && d.len() + s == e.len() && d.len() <= LIMIT() && e.len() <= LIMIT(),
{ reveal(shifted); }
pub broadcast proof fn ahead(k: int, n: int)
    requires 0 <= k, 0 <= n,
    ensures 0 <= #[trigger] stride(0, k, n),
{ stride_bounds(0, k, n); }

/// Whether a parameter is that of a structure that lies elsewhere.
pub trait Moves: ParamSpec { spec fn moves(self, o: Self, b: int, s: int) -> bool; }
impl Moves for u16 { open spec fn moves(self, o: Self, b: int, s: int) -> bool { self == o } }
impl Moves for usize { open spec fn moves(self, o: Self, b: int, s: int) -> bool { self == o } }
impl Moves for u64 { open spec fn moves(self, o: Self, b: int, s: int) -> bool { self + s == o && b <= self } }
impl<A: Moves, B: Moves> Moves for (A, B) {
    open spec fn moves(self, o: Self, b: int, s: int) -> bool { self.0.moves(o.0, b, s) && self.1.moves(o.1, b, s) } }
impl<A: Moves, B: Moves, C: Moves> Moves for (A, B, C) {
    open spec fn moves(self, o: Self, b: int, s: int) -> bool { self.0.moves(o.0, b, s) && self.1.moves(o.1, b, s) && self.2.moves(o.2, b, s) } }
impl<A: Moves, B: Moves, C: Moves, D: Moves> Moves for (A, B, C, D) {
    open spec fn moves(self, o: Self, b: int, s: int) -> bool { self.0.moves(o.0, b, s) && self.1.moves(o.1, b, s) && self.2.moves(o.2, b, s) && self.3.moves(o.3, b, s) } }

/// Two values that cannot be told apart (equality does not reach into vectors).
pub trait Alike: Sized { spec fn alike(self, o: Self) -> bool; }
impl Alike for u8 { open spec fn alike(self, o: Self) -> bool { self == o } }
impl Alike for u16 { open spec fn alike(self, o: Self) -> bool { self == o } }
impl Alike for i16 { open spec fn alike(self, o: Self) -> bool { self == o } }
impl Alike for u32 { open spec fn alike(self, o: Self) -> bool { self == o } }
impl Alike for i32 { open spec fn alike(self, o: Self) -> bool { self == o } }
impl Alike for q32 { open spec fn alike(self, o: Self) -> bool { self == o } }
impl Alike for [u8; 4] { open spec fn alike(self, o: Self) -> bool { forall|i: int| 0 <= i < 4 ==> self@[i] == o@[i] } }
impl Alike for crate::truetype::Tag { open spec fn alike(self, o: Self) -> bool { self.0.alike(o.0) } }
impl Alike for crate::truetype::tables::names::NameID { open spec fn alike(self, o: Self) -> bool { self == o } }
impl Alike for crate::truetype::tables::offsets::Record { open spec fn alike(self, o: Self) -> bool {
    self.tag.alike(o.tag) && self.checksum == o.checksum && self.offset == o.offset && self.size == o.size } }
impl Alike for crate::truetype::tables::offsets::Header { open spec fn alike(self, o: Self) -> bool { self == o } }
impl Alike for crate::truetype::tables::offsets::Offsets { open spec fn alike(self, o: Self) -> bool { self.header.alike(o.header) && self.records.alike(o.records) } }
impl<A: Alike, B: Alike> Alike for (A, B) { open spec fn alike(self, o: Self) -> bool { self.0.alike(o.0) && self.1.alike(o.1) } }
impl<A: Alike> Alike for Vec<A> { open spec fn alike(self, o: Self) -> bool {
    self@.len() == o@.len() && forall|k: int| 0 <= k < self@.len() && #[trigger] ix(k) ==> self@[k].alike(o@[k]) } }
impl<A: Alike> Alike for Option<A> { open spec fn alike(self, o: Self) -> bool {
    match (self, o) { (Some(x), Some(y)) => x.alike(y), (None, None) => true, _ => false } } }

/// What is accepted and stored, is accepted and stored elsewhere too.
pub trait Placed: ValueSpec + Alike {
    proof fn determined(d: Seq<u8>, p: int, v: Self, w: Self)
        requires Self::accepts(d, p), Self::matches(d, p, v), Self::matches(d, p, w),
        ensures v.alike(w);
    proof fn sized()
        ensures 0 <= Self::size();
    proof fn accepted(d: Seq<u8>, e: Seq<u8>, b: int, s: int, p: int)
        requires shifted(d, e, b, s), b <= p, Self::accepts(d, p),
        ensures Self::accepts(e, p + s);
    proof fn matched(d: Seq<u8>, e: Seq<u8>, b: int, s: int, p: int, v: Self)
        requires shifted(d, e, b, s), b <= p, Self::accepts(d, p), Self::matches(d, p, v),
        ensures Self::matches(e, p + s, v);
}
pub trait WPlaced: WalueSpec + Alike where Self::Parameter: Moves {
    proof fn wdetermined(d: Seq<u8>, p: int, x: Self::Parameter, v: Self, w: Self)
        requires Self::waccepts(d, p, x), Self::wmatches(d, p, x, v), Self::wmatches(d, p, x, w),
        ensures v.alike(w);
    proof fn wsized(x: Self::Parameter, y: Self::Parameter, b: int, s: int)
        requires x.moves(y, b, s),
        ensures 0 <= Self::wsize(x) == Self::wsize(y);
    proof fn waccepted(d: Seq<u8>, e: Seq<u8>, b: int, s: int, p: int, x: Self::Parameter, y: Self::Parameter)
        requires shifted(d, e, b, s), b <= p, x.moves(y, b, s), Self::waccepts(d, p, x),
        ensures Self::waccepts(e, p + s, y);
    proof fn wmatched(d: Seq<u8>, e: Seq<u8>, b: int, s: int, p: int, x: Self::Parameter, y: Self::Parameter, v: Self)
        requires shifted(d, e, b, s), b <= p, x.moves(y, b, s), Self::waccepts(d, p, x), Self::wmatches(d, p, x, v),
        ensures Self::wmatches(e, p + s, y, v);
}
pub broadcast proof fn sized<V: Placed>()
    ensures 0 <= #[trigger] <V as ValueSpec>::size(),
{ V::sized(); }
pub broadcast proof fn accepted<V: Placed>(d: Seq<u8>, e: Seq<u8>, b: int, s: int, p: int, q: int)
    requires #[trigger] shifted(d, e, b, s), b <= p, q == p + s, #[trigger] V::accepts(d, p),
    ensures #[trigger] V::accepts(e, q),
{ V::accepted(d, e, b, s, p); }
pub broadcast proof fn matched<V: Placed>(d: Seq<u8>, e: Seq<u8>, b: int, s: int, p: int, q: int, v: V)
    requires #[trigger] shifted(d, e, b, s), b <= p, q == p + s, V::accepts(d, p), #[trigger] V::matches(d, p, v),
    ensures #[trigger] V::matches(e, q, v),
{ V::matched(d, e, b, s, p, v); }
pub broadcast proof fn wsized<V: WPlaced>(d: Seq<u8>, e: Seq<u8>, b: int, s: int, x: V::Parameter, y: V::Parameter) where V::Parameter: Moves
    requires #[trigger] shifted(d, e, b, s), x.moves(y, b, s),
    ensures 0 <= #[trigger] <V as WalueSpec>::wsize(x) == #[trigger] <V as WalueSpec>::wsize(y),
{ V::wsized(x, y, b, s); }
pub broadcast proof fn waccepted<V: WPlaced>(d: Seq<u8>, e: Seq<u8>, b: int, s: int, p: int, q: int, x: V::Parameter, y: V::Parameter) where V::Parameter: Moves
    requires #[trigger] shifted(d, e, b, s), b <= p, q == p + s, x.moves(y, b, s), #[trigger] V::waccepts(d, p, x),
    ensures #[trigger] V::waccepts(e, q, y),
{ V::waccepted(d, e, b, s, p, x, y); }
pub broadcast proof fn wmatched<V: WPlaced>(d: Seq<u8>, e: Seq<u8>, b: int, s: int, p: int, q: int, x: V::Parameter, y: V::Parameter, v: V) where V::Parameter: Moves
    requires #[trigger] shifted(d, e, b, s), b <= p, q == p + s, x.moves(y, b, s), V::waccepts(d, p, x), #[trigger] V::wmatches(d, p, x, v),
    ensures #[trigger] V::wmatches(e, q, y, v),
{ V::wmatched(d, e, b, s, p, x, y, v); }
pub broadcast proof fn determined<V: Placed>(d: Seq<u8>, p: int, v: V, w: V)
    requires V::accepts(d, p), #[trigger] V::matches(d, p, v), #[trigger] V::matches(d, p, w),
    ensures v.alike(w),
{ V::determined(d, p, v, w); }
pub broadcast proof fn wdetermined<V: WPlaced>(d: Seq<u8>, p: int, x: V::Parameter, v: V, w: V) where V::Parameter: Moves
    requires V::waccepts(d, p, x), #[trigger] V::wmatches(d, p, x, v), #[trigger] V::wmatches(d, p, x, w),
    ensures v.alike(w),
{ V::wdetermined(d, p, x, v, w); }
pub broadcast group places { determined, wdetermined, bounds, ahead, at8, at16, at32, at_i16, at_i32, sized, accepted, matched, wsized, waccepted, wmatched }

pub mod instances {
use vstd::prelude::*;
use crate::typeface::*;
use crate::specs::*;
use super::*;
broadcast use { crate::typeface::facts, super::places };
"""

TAIL = """
}
/// What the contract of a reader says about two readings.
pub proof fn same_elsewhere<V: Placed>(a: tape::Read, a1: tape::Read, r: Result<V>, c: tape::Read, c1: tape::Read, t: Result<V>)
    requires
        a.pos() >= 0, c.pos() >= 0,
        shifted(a.data(), c.data(), a.pos(), c.pos() - a.pos()),
        post::<V>(a, a1, r), post::<V>(c, c1, t),
        !a1.fault(), !c1.fault(),
    ensures
        r is Ok <==> t is Ok,
        r is Ok ==> r->Ok_0.alike(t->Ok_0),
{
    let s = c.pos() - a.pos();
    back(a.data(), c.data(), a.pos(), s);
    if r is Ok { V::accepted(a.data(), c.data(), a.pos(), s, a.pos()); V::matched(a.data(), c.data(), a.pos(), s, a.pos(), r->Ok_0); }
    if t is Ok { V::accepted(c.data(), a.data(), c.pos(), -s, c.pos()); }
    if r is Ok { V::determined(c.data(), c.pos(), r->Ok_0, t->Ok_0); }
}
pub proof fn same_elsewhere_given<V: WPlaced>(a: tape::Read, a1: tape::Read, x: V::Parameter, r: Result<V>, c: tape::Read, c1: tape::Read, y: V::Parameter, t: Result<V>)
    where V::Parameter: Moves
    requires
        a.pos() >= 0, c.pos() >= 0,
        shifted(a.data(), c.data(), a.pos(), c.pos() - a.pos()),
        x.moves(y, a.pos(), c.pos() - a.pos()), y.moves(x, c.pos(), a.pos() - c.pos()),
        wpost::<V>(a, a1, x, r), wpost::<V>(c, c1, y, t),
        !a1.fault(), !c1.fault(),
    ensures
        r is Ok <==> t is Ok,
        r is Ok ==> r->Ok_0.alike(t->Ok_0),
{
    let s = c.pos() - a.pos();
    back(a.data(), c.data(), a.pos(), s);
    if r is Ok { V::waccepted(a.data(), c.data(), a.pos(), s, a.pos(), x, y); V::wmatched(a.data(), c.data(), a.pos(), s, a.pos(), x, y, r->Ok_0); }
    if t is Ok { V::waccepted(c.data(), a.data(), c.pos(), -s, c.pos(), y, x); }
    if r is Ok { V::wdetermined(c.data(), c.pos(), y, r->Ok_0, t->Ok_0); }
}
proof fn back(d: Seq<u8>, e: Seq<u8>, b: int, s: int)
    requires shifted(d, e, b, s),
    ensures shifted(e, d, b + s, -s),
{
    reveal(shifted);
    assert forall|i: int| b + s <= i < e.len() implies #[trigger] e[i] == d[i + -s] by { assert(d[i - s] == e[i - s + s]); }
}
}
"""

PRIMITIVES = ["u8", "u16", "i16", "u32", "i32", "[u8; 4]", "q32", "crate::truetype::Tag", "crate::truetype::tables::names::NameID"]


def value(R, bounds="", proof="", sized=""):
    return f"""impl{bounds} Placed for {R} {{
    proof fn sized() {{ {sized} }}
    proof fn determined(d: Seq<u8>, p: int, v: Self, w: Self) {{ {proof} }}
    proof fn accepted(d: Seq<u8>, e: Seq<u8>, b: int, s: int, p: int) {{ {proof} }}
    proof fn matched(d: Seq<u8>, e: Seq<u8>, b: int, s: int, p: int, v: Self) {{ {proof} }}
}}"""


def walue(R, bounds="", proof="", sized=""):
    return f"""impl{bounds} WPlaced for {R} {{
    proof fn wsized(x: Self::Parameter, y: Self::Parameter, b: int, s: int) {{ {sized} }}
    proof fn wdetermined(d: Seq<u8>, p: int, x: Self::Parameter, v: Self, w: Self) {{ {proof} }}
    proof fn waccepted(d: Seq<u8>, e: Seq<u8>, b: int, s: int, p: int, x: Self::Parameter, y: Self::Parameter) {{ {proof} }}
    proof fn wmatched(d: Seq<u8>, e: Seq<u8>, b: int, s: int, p: int, x: Self::Parameter, y: Self::Parameter, v: Self) {{ {proof} }}
}}"""


def lemmas(g):
    """For every structure of the grammar."""
    out = [HEAD]
    out += [value(t) for t in PRIMITIVES]
    out.append(value("(A, B)", "<A: Placed, B: Placed>", sized="A::sized(); B::sized();"))
    out.append(walue("Vec<V>", "<V: Placed>", sized="V::sized();"))
    reveals = g.reveals()
    for s in g.T:
        full = s.module + "::" + s.name
        R = g.rust(full) + ("<U>" if s.generic else "")
        bounds = "<U: WPlaced + WalueSpec<Parameter = u16>>" if s.generic else ""
        name = g.short(s)
        proof = " ".join(f"reveal({n});" for n in reveals[full])
        if s.kind == "table" and any(f.kind in ("o", "d") for f in s.fields):
            proof += " reveal(hopt); reveal(hoptm); reveal(hat); reveal(hatm); reveal(eff16); reveal(cstep); reveal(csz);"
        sized = "reveal(csz);"
        if s.kind == "flags":
            out.append(f"impl Moves for {R} {{ open spec fn moves(self, o: Self, b: int, s: int) -> bool {{ self == o }} }}")
        out.append((walue if s.params else value)(R, bounds, proof, sized))
    out.append(TAIL)
    return "\n".join(out)
