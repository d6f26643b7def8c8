// The vocabulary of the contracts, and the contracts of the dependencies.
// What is marked external_body here is assumed (listed in the evidence as such).
use vstd::prelude::*;
verus! {

global size_of usize == 8;

pub mod typeface {
use vstd::prelude::*;

pub assume_specification<T> [core::mem::forget] (_0: T);
pub assume_specification<T> [core::mem::replace] (d: &mut T, s: T) -> (r: T)
    ensures *final(d) == s, r == *old(d);

pub struct Error { pub x: u8 }
pub type Result<T> = core::result::Result<T, Error>;
#[inline] pub fn error() -> Error { Error { x: 0 } }
pub fn __panic() -> (r: ())
    requires /*@kind:panic*/ false,
{ }

/// std::io::SeekFrom
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }

pub mod tape {
use vstd::prelude::*;
use super::*;
broadcast use super::facts;

/// A tape: std::io::Read + std::io::Seek over a sequence of bytes that may fail at any moment.
#[verifier::external_body]
pub struct Read { x: u8 }

impl Read {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    /// Whether an operation failed for a reason other than the end of the data.
    pub uninterp spec fn fault(&self) -> bool;

    /// std::io::Seek::seek
    #[verifier::external_body]
    pub fn seek(&mut self, to: SeekFrom) -> (r: Result<u64>)
        requires wf(*old(self)),
        ensures wf(*final(self)), final(self).data() == old(self).data(),
            r is Ok && to is Start ==> final(self).pos() == to->Start_0 && r->Ok_0 == to->Start_0 && final(self).fault() == old(self).fault(),
            r is Err && to is Start ==> final(self).fault(),
    { unimplemented!() }

    /// std::io::Seek::stream_position
    #[verifier::external_body]
    pub fn stream_position(&mut self) -> (r: Result<u64>)
        requires wf(*old(self)),
        ensures wf(*final(self)), final(self).data() == old(self).data(),
            r is Ok ==> final(self).pos() == old(self).pos() && r->Ok_0 == old(self).pos()
                && final(self).fault() == old(self).fault(),
            r is Err ==> final(self).fault(),
    { unimplemented!() }

    /*@dep typeface tape::<Read>::jump*/
    pub fn jump(&mut self, position: u64) -> (r: Result<u64>)
        requires wf(*old(self)),
        ensures wf(*final(self)), final(self).data() == old(self).data(),
            r is Ok ==> final(self).pos() == position && r->Ok_0 == position && final(self).fault() == old(self).fault(),
            r is Err ==> final(self).fault(),
    /*@body*/

    /*@dep typeface tape::<Read>::position*/
    pub fn position(&mut self) -> (r: Result<u64>)
        requires wf(*old(self)),
        ensures wf(*final(self)), final(self).data() == old(self).data(),
            r is Ok ==> final(self).pos() == old(self).pos() && r->Ok_0 == old(self).pos()
                && final(self).fault() == old(self).fault(),
            r is Err ==> final(self).fault(),
    /*@body*/

    /// std::io::Read::read_exact
    #[verifier::external_body]
    pub fn read_exact(&mut self, b: &mut [u8]) -> (r: Result<()>)
        requires wf(*old(self)),
        ensures wf(*final(self)), final(self).data() == old(self).data(), final(b)@.len() == old(b)@.len(),
            r is Ok ==> final(self).pos() == old(self).pos() + old(b)@.len()
                && (old(b)@.len() > 0 ==> old(self).pos() + old(b)@.len() <= old(self).data().len())
                && (forall|i: int| 0 <= i < old(b)@.len() ==> final(b)@[i] == old(self).data()[old(self).pos() + i])
                && final(self).fault() == old(self).fault(),
            r is Err ==> (old(b)@.len() > 0 && old(self).pos() + old(b)@.len() > old(self).data().len()) || final(self).fault(),
    { unimplemented!() }

    /*@dep typeface tape::<Read>::take*/
    pub fn take<V: value::Read>(&mut self) -> (r: Result<V>)
        requires wf(*old(self)),
        ensures post::<V>(*old(self), *final(self), r),
    /*@body*/

    /*@dep typeface tape::<Read>::take_given*/
    pub fn take_given<V: walue::Read>(&mut self, parameter: V::Parameter) -> (r: Result<V>)
        requires wf(*old(self)), parameter.ok(),
        ensures wpost::<V>(*old(self), *final(self), parameter, r),
    /*@body*/

    /*@dep typeface tape::<Read>::peek*/
    pub fn peek<V: value::Read>(&mut self) -> (r: Result<V>)
        requires wf(*old(self)),
        ensures wf(*final(self)), final(self).data() == old(self).data(),
            r is Ok ==> V::accepts(old(self).data(), old(self).pos())
                && V::matches(old(self).data(), old(self).pos(), r->Ok_0)
                && final(self).fault() == old(self).fault() && final(self).pos() == old(self).pos(),
            r is Err ==> !V::accepts(old(self).data(), old(self).pos()) || final(self).fault(),
    /*@body*/

    /*@dep typeface tape::<Read>::take_bytes*/
    pub fn take_bytes(&mut self, count: usize) -> (r: Result<Vec<u8>>)
        requires wf(*old(self)),
        ensures wf(*final(self)), final(self).data() == old(self).data(),
            r is Ok ==> bytes_accepts(old(self).data(), old(self).pos(), count as int)
                && bytes_matches(old(self).data(), old(self).pos(), count as int, r->Ok_0@)
                && final(self).pos() == old(self).pos() + count
                && final(self).fault() == old(self).fault(),
            r is Err ==> !bytes_accepts(old(self).data(), old(self).pos(), count as int) || final(self).fault(),
    /*@body*/
}
}

/// if c { Some(tape.take()?) } else { None }
pub fn take_if<V: value::Read>(tape: &mut tape::Read, c: bool) -> (r: Result<Option<V>>)
    requires wf(*old(tape)),
    ensures wf(*final(tape)) && final(tape).data() == old(tape).data(),
        r is Ok ==> hopt::<V>(c, old(tape).data(), old(tape).pos()) && hoptm(c, old(tape).data(), old(tape).pos(), r->Ok_0)
            && final(tape).fault() == old(tape).fault(),
        r is Ok && V::framed() ==> final(tape).pos() == cstep(old(tape).pos(), c, V::size()),
        r is Err ==> !hopt::<V>(c, old(tape).data(), old(tape).pos()) || final(tape).fault(),
{
    proof { cstep_is(tape.pos(), c, V::size()); reveal(hopt); reveal(hoptm); }
    if c { Ok(Some(tape.take()?)) } else { Ok(None) }
}
/// match x { Some(o) if o > 0 => { tape.jump(p + o)?; Some(tape.take()?) } _ => None }, where x was read at h provided c.
pub fn take_at_if<V: value::Read>(tape: &mut tape::Read, x: Option<u16>, p: u64, c: Ghost<bool>, h: Ghost<int>) -> (r: Result<Option<V>>)
    requires wf(*old(tape)), p <= LIMIT(), hoptm(c@, old(tape).data(), h@, x),
    ensures wf(*final(tape)) && final(tape).data() == old(tape).data(),
        r is Ok ==> hat::<V>(eff16(c@, old(tape).data(), h@), old(tape).data(), p as int)
            && hatm(eff16(c@, old(tape).data(), h@), old(tape).data(), p as int, r->Ok_0) && final(tape).fault() == old(tape).fault(),
        r is Err ==> !hat::<V>(eff16(c@, old(tape).data(), h@), old(tape).data(), p as int) || final(tape).fault(),
{
    proof { reveal(hat); reveal(hatm); reveal(hoptm); reveal(eff16); }
    match x {
        Some(o) => if o > 0 { tape.jump(p + o as u64)?; Ok(Some(tape.take()?)) } else { Ok(None) },
        None => Ok(None),
    }
}
// What opt_accepts and opt_matches say, for structures with so many optional fields
// that their combinations must not be considered.
#[verifier::opaque]
pub open spec fn hopt<V: ValueSpec>(c: bool, d: Seq<u8>, p: int) -> bool { opt_accepts::<V>(c, d, p) }
#[verifier::opaque]
pub open spec fn hoptm<V: ValueSpec>(c: bool, d: Seq<u8>, p: int, v: Option<V>) -> bool { opt_matches::<V>(c, d, p, v) }
#[verifier::opaque]
pub open spec fn hat<V: ValueSpec>(o: int, d: Seq<u8>, p: int) -> bool { opt_accepts::<V>(o > 0, d, p + o) }
#[verifier::opaque]
pub open spec fn hatm<V: ValueSpec>(o: int, d: Seq<u8>, p: int, v: Option<V>) -> bool { opt_matches::<V>(o > 0, d, p + o, v) }
#[verifier::opaque]
pub open spec fn eff16(c: bool, d: Seq<u8>, p: int) -> int { if c { be16(d, p) as int } else { 0 } }

pub open spec fn LIMIT() -> int { 0x4000_0000_0000_0000 }

pub open spec fn wf(t: tape::Read) -> bool {
    t.data().len() <= LIMIT() && 0 <= t.pos() <= u64::MAX
}

/// What has to hold of parameters of readers.
pub trait ParamSpec: Sized { spec fn ok(self) -> bool; }
impl ParamSpec for u16 { open spec fn ok(self) -> bool { true } }
impl ParamSpec for usize { open spec fn ok(self) -> bool { true } }
/// A position from which offsets are measured.
impl ParamSpec for u64 { open spec fn ok(self) -> bool { self <= LIMIT() } }
impl<A: ParamSpec, B: ParamSpec> ParamSpec for (A, B) { open spec fn ok(self) -> bool { self.0.ok() && self.1.ok() } }
impl<A: ParamSpec, B: ParamSpec, C: ParamSpec> ParamSpec for (A, B, C) { open spec fn ok(self) -> bool { self.0.ok() && self.1.ok() && self.2.ok() } }
impl<A: ParamSpec, B: ParamSpec, C: ParamSpec, D: ParamSpec> ParamSpec for (A, B, C, D) { open spec fn ok(self) -> bool { self.0.ok() && self.1.ok() && self.2.ok() && self.3.ok() } }

pub trait ValueSpec: Sized {
    /// Whether the tape is left right behind the value.
    spec fn framed() -> bool;
    spec fn size() -> int;
    spec fn accepts(d: Seq<u8>, p: int) -> bool;
    spec fn matches(d: Seq<u8>, p: int, v: Self) -> bool;
}
pub trait WalueSpec: Sized {
    type Parameter: ParamSpec;
    spec fn wframed() -> bool;
    spec fn wsize(param: Self::Parameter) -> int;
    spec fn waccepts(d: Seq<u8>, p: int, param: Self::Parameter) -> bool;
    spec fn wmatches(d: Seq<u8>, p: int, param: Self::Parameter, v: Self) -> bool;
}
/// What occupies as many bytes in any place, so that many can lie one behind another.
pub trait Framed: ValueSpec {
    proof fn is_framed()
        ensures Self::framed(), Self::size() >= 0;
}
/// What the default of a type is.
pub trait DefaultSpec: Sized { spec fn is_default(self) -> bool; }
pub trait Default: DefaultSpec {
    fn default() -> (r: Self)
        ensures /*@kind:default*/ r.is_default();
}
impl DefaultSpec for u8 { open spec fn is_default(self) -> bool { self == 0 } }
impl DefaultSpec for u16 { open spec fn is_default(self) -> bool { self == 0 } }
impl DefaultSpec for u32 { open spec fn is_default(self) -> bool { self == 0 } }
impl DefaultSpec for i16 { open spec fn is_default(self) -> bool { self == 0 } }
impl DefaultSpec for bool { open spec fn is_default(self) -> bool { self == false } }
impl DefaultSpec for q32 { open spec fn is_default(self) -> bool { self.0 == 0 } }
impl<T> DefaultSpec for Vec<T> { open spec fn is_default(self) -> bool { self@.len() == 0 } }
impl<T> DefaultSpec for Option<T> { open spec fn is_default(self) -> bool { self is None } }
impl Default for u8 { fn default() -> Self { 0 } }
impl Default for u16 { fn default() -> Self { 0 } }
impl Default for u32 { fn default() -> Self { 0 } }
impl Default for i16 { fn default() -> Self { 0 } }
impl Default for bool { fn default() -> Self { false } }
impl Default for q32 { fn default() -> Self { q32(0) } }
impl<T> Default for Vec<T> { fn default() -> Self { Vec::new() } }
impl<T> Default for Option<T> { fn default() -> Self { None } }

/// The tag of a font table as a big-endian number.
pub trait TableSpec: Sized { spec fn spec_tag() -> int; }

/// What consists of four bytes: a tag, and its bytes.
pub trait Bytes4 {
    spec fn bytes4(&self) -> Seq<u8>;
    fn byte(&self, i: usize) -> (r: u8)
        requires i < 4,
        ensures r == self.bytes4()[i as int];
}
impl Bytes4 for [u8; 4] {
    open spec fn bytes4(&self) -> Seq<u8> { self@ }
    fn byte(&self, i: usize) -> (r: u8) { self[i] }
}
impl<T: Bytes4> Bytes4 for &T {
    open spec fn bytes4(&self) -> Seq<u8> { (**self).bytes4() }
    fn byte(&self, i: usize) -> (r: u8) { (**self).byte(i) }
}
pub fn has_bits(x: u16, mask: u16) -> (r: bool)
    ensures r == fbit(x, mask),
{
    proof { reveal(fbit); }
    x & mask > 0
}
pub fn same<T: Bytes4>(a: &T, b: [u8; 4]) -> (r: bool)
    ensures r == (a.bytes4()[0] == b@[0] && a.bytes4()[1] == b@[1] && a.bytes4()[2] == b@[2] && a.bytes4()[3] == b@[3])
{ a.byte(0) == b[0] && a.byte(1) == b[1] && a.byte(2) == b[2] && a.byte(3) == b[3] }
/// Four bytes as a big-endian number.
pub fn word4<T: Bytes4>(a: &T) -> (r: u32)
    ensures r == a.bytes4()[0] * 0x100_0000 + a.bytes4()[1] * 0x1_0000 + a.bytes4()[2] * 0x100 + a.bytes4()[3]
{ a.byte(0) as u32 * 0x100_0000 + a.byte(1) as u32 * 0x1_0000 + a.byte(2) as u32 * 0x100 + a.byte(3) as u32 }
/// What lies between the commas of a text, without what is empty.
pub uninterp spec fn parts_of(text: &str) -> Seq<&str>;
/// text.split(", ").filter(|x| !x.is_empty())
#[verifier::external_body]
pub fn parts(text: &'static str) -> (r: Vec<&'static str>)
    ensures r@ == parts_of(text)
{ unimplemented!() }
/// The slice of what has n elements between two indices.
pub fn __within(lo: usize, hi: usize, n: usize)
    requires /*@kind:panic*/ lo <= hi <= n,
{ }

pub mod value {
use vstd::prelude::*;
use super::*;
pub trait Read: ValueSpec {
    fn read(tape: &mut tape::Read) -> (r: Result<Self>)
        requires wf(*old(tape)),
        ensures
            /*@kind:frame*/ wf(*final(tape)) && final(tape).data() == old(tape).data(),
            /*@kind:accept*/ r is Ok ==> Self::accepts(old(tape).data(), old(tape).pos()),
            /*@kind:match*/ r is Ok ==> Self::matches(old(tape).data(), old(tape).pos(), r->Ok_0),
            /*@kind:fault*/ r is Ok ==> final(tape).fault() == old(tape).fault(),
            /*@kind:size*/ r is Ok && Self::framed() ==> final(tape).pos() == old(tape).pos() + Self::size(),
            /*@kind:reject*/ r is Err ==> !Self::accepts(old(tape).data(), old(tape).pos()) || final(tape).fault(),
            ;
}
}
pub mod walue {
use vstd::prelude::*;
use super::*;
pub trait Read: WalueSpec {
    fn read(tape: &mut tape::Read, param: Self::Parameter) -> (r: Result<Self>)
        requires wf(*old(tape)), param.ok(),
        ensures
            /*@kind:frame*/ wf(*final(tape)) && final(tape).data() == old(tape).data(),
            /*@kind:accept*/ r is Ok ==> Self::waccepts(old(tape).data(), old(tape).pos(), param),
            /*@kind:match*/ r is Ok ==> Self::wmatches(old(tape).data(), old(tape).pos(), param, r->Ok_0),
            /*@kind:fault*/ r is Ok ==> final(tape).fault() == old(tape).fault(),
            /*@kind:size*/ r is Ok && Self::wframed() ==> final(tape).pos() == old(tape).pos() + Self::wsize(param),
            /*@kind:reject*/ r is Err ==> !Self::waccepts(old(tape).data(), old(tape).pos(), param) || final(tape).fault(),
            ;
}
}

pub open spec fn post<V: ValueSpec>(a: tape::Read, b: tape::Read, r: Result<V>) -> bool {
    &&& wf(b) && b.data() == a.data()
    &&& r is Ok ==> V::accepts(a.data(), a.pos()) && V::matches(a.data(), a.pos(), r->Ok_0) && b.fault() == a.fault()
          && (V::framed() ==> b.pos() == a.pos() + V::size())
    &&& r is Err ==> !V::accepts(a.data(), a.pos()) || b.fault()
}
pub open spec fn wpost<V: WalueSpec>(a: tape::Read, b: tape::Read, p: V::Parameter, r: Result<V>) -> bool {
    &&& wf(b) && b.data() == a.data()
    &&& r is Ok ==> V::waccepts(a.data(), a.pos(), p) && V::wmatches(a.data(), a.pos(), p, r->Ok_0) && b.fault() == a.fault()
          && (V::wframed() ==> b.pos() == a.pos() + V::wsize(p))
    &&& r is Err ==> !V::waccepts(a.data(), a.pos(), p) || b.fault()
}

/// The trigger of all quantifiers over indices.
pub open spec fn ix(k: int) -> bool { true }

/// The position of the k-th of consecutive elements.
#[verifier::opaque]
pub open spec fn stride(p: int, k: int, s: int) -> int { p + k * s }
pub broadcast proof fn stride_step(p: int, k: int, s: int)
    ensures #![trigger stride(p, k, s), ix(k)] stride(p, k, s) + s == stride(p, k + 1, s),
{ reveal(stride); assert(k * s + s == (k + 1) * s) by (nonlinear_arith); }
pub broadcast proof fn stride_zero(p: int, s: int)
    ensures #[trigger] stride(p, 0, s) == p,
{ reveal(stride); }
pub broadcast proof fn stride_one(p: int, s: int)
    ensures #[trigger] stride(p, 1, s) == p + s,
{ reveal(stride); }
pub broadcast proof fn stride_from_zero(p: int, k: int, s: int)
    ensures #[trigger] stride(p, k, s) == p + stride(0, k, s),
{ reveal(stride); }
pub proof fn all_strides(s: int)
    ensures forall|p: int| #[trigger] stride(p, 0, s) == p,
        forall|p: int, k: int| #![trigger stride(p, k, s)] stride(p, k, s) + s == stride(p, k + 1, s) && stride(p, k, s) == p + stride(0, k, s),
{
    assert forall|p: int| #[trigger] stride(p, 0, s) == p by { stride_zero(p, s); }
    assert forall|p: int, k: int| #![trigger stride(p, k, s)] stride(p, k, s) + s == stride(p, k + 1, s) && stride(p, k, s) == p + stride(0, k, s) by { stride_step(p, k, s); stride_from_zero(p, k, s); }
}
pub proof fn stride_bounds(p: int, k: int, s: int)
    requires 0 <= k, 0 <= s,
    ensures p <= stride(p, k, s),
{ reveal(stride); assert(k * s >= 0) by (nonlinear_arith) requires 0 <= k, 0 <= s; }
pub proof fn mul_step(k: int, s: int)
    ensures (k + 1) * s == k * s + s,
        0 <= k <= 0x1_FFFF && 0 <= s <= 0x1_FFFF ==> 0 <= k * s <= 0x1_FFFF * 0x1_FFFF,
        0 * s == 0,
{
    assert((k + 1) * s == k * s + s) by (nonlinear_arith);
    if 0 <= k <= 0x1_FFFF && 0 <= s <= 0x1_FFFF { assert(0 <= k * s <= 0x1_FFFF * 0x1_FFFF) by (nonlinear_arith) requires 0 <= k <= 0x1_FFFF, 0 <= s <= 0x1_FFFF; }
}
pub broadcast proof fn mul_facts(a: int, b: int)
    ensures
        #![trigger a * b]
        a * b == b * a,
        0 <= a && 0 <= b ==> 0 <= a * b,
        0 <= a <= 0x1_FFFF && 0 <= b <= 0x1_FFFF ==> a * b <= 0x1_FFFF * 0x1_FFFF,
        a == 0 ==> a * b == 0, a == 1 ==> a * b == b, a == 2 ==> a * b == b + b,
        a == 4 ==> a * b == b + b + b + b, a == 8 ==> a * b == b + b + b + b + b + b + b + b,
{
    assert(a * b == b * a) by (nonlinear_arith);
    assert(0 <= a && 0 <= b ==> 0 <= a * b) by (nonlinear_arith);
    if 0 <= a <= 0x1_FFFF && 0 <= b <= 0x1_FFFF {
        assert(a * b <= 0x1_FFFF * 0x1_FFFF) by (nonlinear_arith) requires 0 <= a <= 0x1_FFFF, 0 <= b <= 0x1_FFFF;
    }
}
pub broadcast proof fn shl_facts(x: usize)
    ensures #![trigger 1usize << x]
        x == 0 ==> 1usize << x == 1, x == 1 ==> 1usize << x == 2, x == 2 ==> 1usize << x == 4, x == 3 ==> 1usize << x == 8,
        x == 4 ==> 1usize << x == 16,
{
    assert(x == 0 ==> 1usize << x == 1) by (bit_vector);
    assert(x == 1 ==> 1usize << x == 2) by (bit_vector);
    assert(x == 2 ==> 1usize << x == 4) by (bit_vector);
    assert(x == 3 ==> 1usize << x == 8) by (bit_vector);
    assert(x == 4 ==> 1usize << x == 16) by (bit_vector);
}
pub broadcast proof fn shr_facts(x: usize)
    ensures #![trigger x >> 4usize]
        x >> 4usize == x / 16,
{ assert(x >> 4usize == x / 16) by (bit_vector); }
/// Whether a bit (or any one of several) is set.
#[verifier::opaque]
pub open spec fn fbit(x: u16, mask: u16) -> bool { x & mask > 0 }
/// The size of what is there provided a condition.
#[verifier::opaque]
pub open spec fn csz(c: bool, n: int) -> int { if c { n } else { 0 } }
pub broadcast proof fn csz_facts(c: bool, n: int)
    ensures #![trigger csz(c, n)] c ==> csz(c, n) == n, !c ==> csz(c, n) == 0,
{ reveal(csz); }
/// The position behind what is there provided a condition.
#[verifier::opaque]
pub open spec fn cstep(p: int, c: bool, n: int) -> int { p + csz(c, n) }
pub broadcast proof fn chain_1(p: int, c0: bool, n0: int)
    ensures #[trigger] cstep(p, c0, n0) == p + csz(c0, n0),
{ reveal(cstep); }
pub broadcast proof fn chain_8(p: int, c0: bool, n0: int, c1: bool, n1: int, c2: bool, n2: int, c3: bool, n3: int, c4: bool, n4: int, c5: bool, n5: int, c6: bool, n6: int, c7: bool, n7: int)
    ensures #[trigger] cstep(cstep(cstep(cstep(cstep(cstep(cstep(cstep(p, c0, n0), c1, n1), c2, n2), c3, n3), c4, n4), c5, n5), c6, n6), c7, n7) == p + csz(c0, n0) + csz(c1, n1) + csz(c2, n2) + csz(c3, n3) + csz(c4, n4) + csz(c5, n5) + csz(c6, n6) + csz(c7, n7),
{ reveal(cstep); }
pub proof fn cstep_is(p: int, c: bool, n: int)
    ensures cstep(p, c, n) == if c { p + n } else { p },
{ reveal(cstep); reveal(csz); }
// Further facts about arithmetic, for functions that are not verified without them.
pub broadcast proof fn distributes(a: int, b: int, c: int)
    ensures #![trigger a * (b + c)] a * (b + c) == a * b + a * c,
{ assert(a * (b + c) == a * b + a * c) by (nonlinear_arith); }
pub broadcast proof fn div_facts(a: int, b: int)
    ensures #![trigger a / b]
        b > 0 ==> a == b * (a / b) + a % b && 0 <= a % b < b,
        b == 1 ==> a / b == a, b == 2 ==> a / b == a / 2, b == 4 ==> a / b == a / 4, b == 8 ==> a / b == a / 8, b == 16 ==> a / b == a / 16,
{
    if b > 0 { assert(a == b * (a / b) + a % b && 0 <= a % b < b) by (nonlinear_arith) requires b > 0; }
}
pub broadcast proof fn mod_facts(a: int, b: int)
    ensures #![trigger a % b]
        b > 0 ==> a == b * (a / b) + a % b && 0 <= a % b < b,
        b == 1 ==> a % b == 0, b == 2 ==> a % b == a % 2, b == 4 ==> a % b == a % 4, b == 8 ==> a % b == a % 8, b == 16 ==> a % b == a % 16,
{
    if b > 0 { assert(a == b * (a / b) + a % b && 0 <= a % b < b) by (nonlinear_arith) requires b > 0; }
}
pub broadcast proof fn shr_more(x: usize, y: usize)
    ensures #![trigger x >> y]
        y == 0 ==> x >> y == x, y == 1 ==> x >> y == x / 2, y == 2 ==> x >> y == x / 4, y == 3 ==> x >> y == x / 8, y == 4 ==> x >> y == x / 16,
        y == 5 ==> x >> y == x / 32, y == 8 ==> x >> y == x / 256,
{
    assert(y == 0 ==> x >> y == x) by (bit_vector);
    assert(y == 1 ==> x >> y == x / 2) by (bit_vector);
    assert(y == 2 ==> x >> y == x / 4) by (bit_vector);
    assert(y == 3 ==> x >> y == x / 8) by (bit_vector);
    assert(y == 4 ==> x >> y == x / 16) by (bit_vector);
    assert(y == 5 ==> x >> y == x / 32) by (bit_vector);
    assert(y == 8 ==> x >> y == x / 256) by (bit_vector);
}
pub broadcast proof fn shr_16(x: usize, y: u16)
    ensures #![trigger x >> y]
        y == 0 ==> x >> y == x, y == 1 ==> x >> y == x / 2, y == 2 ==> x >> y == x / 4, y == 3 ==> x >> y == x / 8, y == 4 ==> x >> y == x / 16,
{
    assert(y == 0 ==> x >> y == x) by (bit_vector);
    assert(y == 1 ==> x >> y == x / 2) by (bit_vector);
    assert(y == 2 ==> x >> y == x / 4) by (bit_vector);
    assert(y == 3 ==> x >> y == x / 8) by (bit_vector);
    assert(y == 4 ==> x >> y == x / 16) by (bit_vector);
}
pub broadcast proof fn shl_more(x: usize, y: usize)
    ensures #![trigger x << y]
        y == 0 ==> x << y == x, x <= 0xFFFF_FFFF ==> {
        &&& y == 1 ==> x << y == x * 2 &&& y == 2 ==> x << y == x * 4 &&& y == 3 ==> x << y == x * 8 &&& y == 4 ==> x << y == x * 16 },
{
    assert(y == 0 ==> x << y == x) by (bit_vector);
    assert(y == 1 && x <= 0xFFFF_FFFF ==> x << y == x * 2) by (bit_vector);
    assert(y == 2 && x <= 0xFFFF_FFFF ==> x << y == x * 4) by (bit_vector);
    assert(y == 3 && x <= 0xFFFF_FFFF ==> x << y == x * 8) by (bit_vector);
    assert(y == 4 && x <= 0xFFFF_FFFF ==> x << y == x * 16) by (bit_vector);
}
pub proof fn stride_u8(p: int)
    ensures forall|k: int| #[trigger] stride(p, k, <u8 as ValueSpec>::size()) == p + k,
{ reveal(stride); assert(<u8 as ValueSpec>::size() == 1); assert forall|k: int| #[trigger] stride(p, k, <u8 as ValueSpec>::size()) == p + k by { assert(k * 1 == k) by (nonlinear_arith); } }
pub broadcast proof fn bytes_seq(d: Seq<u8>, p: int, n: int)
    requires 0 <= n,
    ensures #[trigger] bytes_accepts(d, p, n) == seq_accepts::<u8>(d, p, n),
{
    stride_u8(p);
    if seq_accepts::<u8>(d, p, n) && n > 0 {
        assert(ix(0) && ix(n - 1));
        assert(<u8 as ValueSpec>::accepts(d, stride(p, 0, <u8 as ValueSpec>::size())));
        assert(<u8 as ValueSpec>::accepts(d, stride(p, n - 1, <u8 as ValueSpec>::size())));
    }
}
pub broadcast proof fn bytes_seq_m(d: Seq<u8>, p: int, n: int, v: Seq<u8>)
    ensures #[trigger] bytes_matches(d, p, n, v) == seq_matches::<u8>(d, p, n, v),
{
    stride_u8(p);
    if seq_matches::<u8>(d, p, n, v) {
        assert forall|i: int| 0 <= i < n implies v[i] == d[p + i] by { assert(ix(i)); assert(<u8 as ValueSpec>::matches(d, stride(p, i, <u8 as ValueSpec>::size()), v[i])); }
    }
}
pub broadcast proof fn masks(x: u32, m: u32)
    ensures #![trigger x & !m]
        m == 0 ==> x & !m == x, m == 3 ==> x & !m == x - x % 4, m == 0xFF ==> x & !m == x - x % 0x100,
        m == 0xFFFF ==> x & !m == x - x % 0x1_0000, m == 0xFF_FFFF ==> x & !m == x - x % 0x100_0000,
{
    assert(m == 0 ==> x & !m == x) by (bit_vector);
    assert(m == 3 ==> x & !m == x - x % 4) by (bit_vector);
    assert(m == 0xFF ==> x & !m == x - x % 0x100) by (bit_vector);
    assert(m == 0xFFFF ==> x & !m == x - x % 0x1_0000) by (bit_vector);
    assert(m == 0xFF_FFFF ==> x & !m == x - x % 0x100_0000) by (bit_vector);
}
pub broadcast proof fn ones(n: u32)
    ensures #![trigger 1u32 << n]
        n == 0 ==> 1u32 << n == 1, n == 8 ==> 1u32 << n == 0x100, n == 16 ==> 1u32 << n == 0x1_0000, n == 24 ==> 1u32 << n == 0x100_0000,
{
    assert(n == 0 ==> 1u32 << n == 1) by (bit_vector);
    assert(n == 8 ==> 1u32 << n == 0x100) by (bit_vector);
    assert(n == 16 ==> 1u32 << n == 0x1_0000) by (bit_vector);
    assert(n == 24 ==> 1u32 << n == 0x100_0000) by (bit_vector);
}
pub broadcast group bits { masks, ones }
pub broadcast proof fn shr_32(x: u32, y: u32)
    ensures #![trigger x >> y]
        y == 8 ==> x >> y == x / 0x100, y == 16 ==> x >> y == x / 0x1_0000, y == 24 ==> x >> y == x / 0x100_0000,
{
    assert(y == 8 ==> x >> y == x / 0x100) by (bit_vector);
    assert(y == 16 ==> x >> y == x / 0x1_0000) by (bit_vector);
    assert(y == 24 ==> x >> y == x / 0x100_0000) by (bit_vector);
}
pub broadcast proof fn low_32(x: u32, m: u32)
    ensures #![trigger x & m]
        m == 0xFFFF ==> x & m == x % 0x1_0000, m == 0xFF ==> x & m == x % 0x100, m == 0xFFFF_FFFF ==> x & m == x,
        m == 0xFFFF_0000u32 ==> x & m == x - x % 0x1_0000,
{
    assert(m == 0xFFFF ==> x & m == x % 0x1_0000) by (bit_vector);
    assert(m == 0xFF ==> x & m == x % 0x100) by (bit_vector);
    assert(m == 0xFFFF_FFFF ==> x & m == x) by (bit_vector);
    assert(m == 0xFFFF_0000u32 ==> x & m == x - x % 0x1_0000) by (bit_vector);
}
pub broadcast group more { bytes_seq, bytes_seq_m, distributes, div_facts, mod_facts, shr_more, shr_16, shl_more }

pub broadcast group facts { shr_32, low_32, csz_facts, stride_step, stride_zero, stride_one, stride_from_zero, mul_facts, shl_facts, shr_facts }

pub open spec fn be16(d: Seq<u8>, p: int) -> u16 { (d[p] as int * 256 + d[p + 1] as int) as u16 }
pub open spec fn be32(d: Seq<u8>, p: int) -> u32 { (be16(d, p) as int * 65536 + be16(d, p + 2) as int) as u32 }
pub open spec fn bei16(d: Seq<u8>, p: int) -> i16 {
    (if be16(d, p) < 0x8000 { be16(d, p) as int } else { be16(d, p) as int - 0x1_0000 }) as i16 }
pub open spec fn bei32(d: Seq<u8>, p: int) -> i32 {
    (if be32(d, p) < 0x8000_0000 { be32(d, p) as int } else { be32(d, p) as int - 0x1_0000_0000 }) as i32 }
pub open spec fn readable(d: Seq<u8>, p: int, n: int) -> bool { 0 <= p && p + n <= d.len() }
pub open spec fn bytes_accepts(d: Seq<u8>, p: int, n: int) -> bool { n == 0 || readable(d, p, n) }
pub open spec fn bytes_matches(d: Seq<u8>, p: int, n: int, v: Seq<u8>) -> bool {
    v.len() == n && forall|i: int| 0 <= i < n ==> v[i] == d[p + i] }

impl ValueSpec for u8 {
    open spec fn framed() -> bool { true }
    open spec fn size() -> int { 1 }
    open spec fn accepts(d: Seq<u8>, p: int) -> bool { readable(d, p, 1) }
    open spec fn matches(d: Seq<u8>, p: int, v: Self) -> bool { v == d[p] }
}
impl ValueSpec for u16 {
    open spec fn framed() -> bool { true }
    open spec fn size() -> int { 2 }
    open spec fn accepts(d: Seq<u8>, p: int) -> bool { readable(d, p, 2) }
    open spec fn matches(d: Seq<u8>, p: int, v: Self) -> bool { v == be16(d, p) }
}
impl ValueSpec for i16 {
    open spec fn framed() -> bool { true }
    open spec fn size() -> int { 2 }
    open spec fn accepts(d: Seq<u8>, p: int) -> bool { readable(d, p, 2) }
    open spec fn matches(d: Seq<u8>, p: int, v: Self) -> bool { v == bei16(d, p) }
}
impl ValueSpec for u32 {
    open spec fn framed() -> bool { true }
    open spec fn size() -> int { 4 }
    open spec fn accepts(d: Seq<u8>, p: int) -> bool { readable(d, p, 4) }
    open spec fn matches(d: Seq<u8>, p: int, v: Self) -> bool { v == be32(d, p) }
}
impl ValueSpec for i32 {
    open spec fn framed() -> bool { true }
    open spec fn size() -> int { 4 }
    open spec fn accepts(d: Seq<u8>, p: int) -> bool { readable(d, p, 4) }
    open spec fn matches(d: Seq<u8>, p: int, v: Self) -> bool { v == bei32(d, p) }
}
impl ValueSpec for [u8; 4] {
    open spec fn framed() -> bool { true }
    open spec fn size() -> int { 4 }
    open spec fn accepts(d: Seq<u8>, p: int) -> bool { readable(d, p, 4) }
    open spec fn matches(d: Seq<u8>, p: int, v: Self) -> bool { v@[0] == d[p] && v@[1] == d[p + 1] && v@[2] == d[p + 2] && v@[3] == d[p + 3] }
}
impl<A: ValueSpec, B: ValueSpec> ValueSpec for (A, B) {
    open spec fn framed() -> bool { A::framed() && B::framed() }
    open spec fn size() -> int { A::size() + B::size() }
    open spec fn accepts(d: Seq<u8>, p: int) -> bool { A::framed() && A::accepts(d, p) && B::accepts(d, p + A::size()) }
    open spec fn matches(d: Seq<u8>, p: int, v: Self) -> bool { A::matches(d, p, v.0) && B::matches(d, p + A::size(), v.1) }
}
impl value::Read for u8 { /*@dep typeface value::u8::<Read>::read*/ fn read(tape: &mut tape::Read) -> (r: Result<Self>) /*@body*/ }
impl value::Read for u16 { /*@dep typeface value::u16::<Read>::read*/ fn read(tape: &mut tape::Read) -> (r: Result<Self>) /*@body*/ }
impl value::Read for i16 { /*@dep typeface value::i16::<Read>::read*/ fn read(tape: &mut tape::Read) -> (r: Result<Self>) /*@body*/ }
impl value::Read for u32 { /*@dep typeface value::u32::<Read>::read*/ fn read(tape: &mut tape::Read) -> (r: Result<Self>) /*@body*/ }
impl value::Read for i32 { /*@dep typeface value::i32::<Read>::read*/ fn read(tape: &mut tape::Read) -> (r: Result<Self>) /*@body*/ }
impl value::Read for [u8; 4] { /*@dep typeface value::[u8;4]::<Read>::read*/ fn read(tape: &mut tape::Read) -> (r: Result<Self>) /*@body*/ }
impl<A: value::Read + Framed, B: value::Read + Framed> value::Read for (A, B) { /*@dep typeface value::(U,V)::<Read>::read*/ fn read(tape: &mut tape::Read) -> (r: Result<Self>) /*@body*/ }

impl Framed for u8 { proof fn is_framed() { } }
impl Framed for u16 { proof fn is_framed() { } }
impl Framed for i16 { proof fn is_framed() { } }
impl Framed for u32 { proof fn is_framed() { } }
impl Framed for i32 { proof fn is_framed() { } }
impl Framed for [u8; 4] { proof fn is_framed() { } }
impl<A: value::Read + Framed, B: value::Read + Framed> Framed for (A, B) { proof fn is_framed() { A::is_framed(); B::is_framed(); } }

/// Numbers from big-endian bytes, as in the standard library.
pub mod be {
use vstd::prelude::*;
use super::*;
pub open spec fn num2(b: Seq<u8>) -> int { b[0] * 256 + b[1] }
pub open spec fn num4(b: Seq<u8>) -> int { (b[0] * 256 + b[1]) * 65536 + (b[2] * 256 + b[3]) }
#[verifier::external_body]
pub fn u8(b: [u8; 1]) -> (r: u8) ensures r == b@[0] { u8::from_be_bytes(b) }
#[verifier::external_body]
pub fn u16(b: [u8; 2]) -> (r: u16) ensures r == num2(b@) { u16::from_be_bytes(b) }
#[verifier::external_body]
pub fn i16(b: [u8; 2]) -> (r: i16) ensures r == if num2(b@) < 0x8000 { num2(b@) } else { num2(b@) - 0x1_0000 } { i16::from_be_bytes(b) }
#[verifier::external_body]
pub fn u32(b: [u8; 4]) -> (r: u32) ensures r == num4(b@) { u32::from_be_bytes(b) }
#[verifier::external_body]
pub fn i32(b: [u8; 4]) -> (r: i32) ensures r == if num4(b@) < 0x8000_0000 { num4(b@) } else { num4(b@) - 0x1_0000_0000 } { i32::from_be_bytes(b) }
}

pub open spec fn seq_accepts<V: ValueSpec>(d: Seq<u8>, p: int, n: int) -> bool {
    forall|k: int| 0 <= k < n && #[trigger] ix(k) ==> V::accepts(d, stride(p, k, V::size())) }
pub open spec fn seq_matches<V: ValueSpec>(d: Seq<u8>, p: int, n: int, v: Seq<V>) -> bool {
    v.len() == n && forall|k: int| 0 <= k < n && #[trigger] ix(k) ==> V::matches(d, stride(p, k, V::size()), v[k]) }
pub open spec fn wseq_accepts<V: WalueSpec>(d: Seq<u8>, p: int, n: int, param: V::Parameter) -> bool {
    forall|k: int| 0 <= k < n && #[trigger] ix(k) ==> V::waccepts(d, stride(p, k, V::wsize(param)), param) }
pub open spec fn wseq_matches<V: WalueSpec>(d: Seq<u8>, p: int, n: int, param: V::Parameter, v: Seq<V>) -> bool {
    v.len() == n && forall|k: int| 0 <= k < n && #[trigger] ix(k) ==> V::wmatches(d, stride(p, k, V::wsize(param)), param, v[k]) }
pub open spec fn opt_accepts<V: ValueSpec>(c: bool, d: Seq<u8>, p: int) -> bool { c ==> V::accepts(d, p) }
pub open spec fn opt_matches<V: ValueSpec>(c: bool, d: Seq<u8>, p: int, v: Option<V>) -> bool {
    if c { v is Some && V::matches(d, p, v->Some_0) } else { v is None } }
pub open spec fn wopt_accepts<V: WalueSpec>(c: bool, d: Seq<u8>, p: int, param: V::Parameter) -> bool { c ==> V::waccepts(d, p, param) }
pub open spec fn wopt_matches<V: WalueSpec>(c: bool, d: Seq<u8>, p: int, param: V::Parameter, v: Option<V>) -> bool {
    if c { v is Some && V::wmatches(d, p, param, v->Some_0) } else { v is None } }

impl<V: ValueSpec> WalueSpec for Vec<V> {
    type Parameter = usize;
    open spec fn wframed() -> bool { V::framed() }
    open spec fn wsize(n: usize) -> int { stride(0, n as int, V::size()) }
    open spec fn waccepts(d: Seq<u8>, p: int, n: usize) -> bool { seq_accepts::<V>(d, p, n as int) }
    open spec fn wmatches(d: Seq<u8>, p: int, n: usize, v: Self) -> bool { seq_matches::<V>(d, p, n as int, v@) }
}
impl<V: value::Read + Framed> walue::Read for Vec<V> {
    /*@dep typeface walue::Vec::<Read>::read*/
    fn read(tape: &mut tape::Read, count: usize) -> (r: Result<Self>) /*@body*/
}

// Vocabulary of loop invariants (the type is inferred from the value).
pub open spec fn accm<V: ValueSpec>(d: Seq<u8>, p: int, v: V) -> bool { V::accepts(d, p) && V::matches(d, p, v) }
pub open spec fn waccm<V: WalueSpec>(d: Seq<u8>, p: int, param: V::Parameter, v: V) -> bool { V::waccepts(d, p, param) && V::wmatches(d, p, param, v) }
pub open spec fn some_of<V>(v: Option<V>) -> V { v->Some_0 }
pub open spec fn vlen<V>(v: Vec<V>) -> int { v@.len() as int }
pub open spec fn vat<V>(v: Vec<V>, i: int) -> V { v@[i] }
pub open spec fn pointee<V>(v: &V) -> V { *v }
pub open spec fn szof<V: ValueSpec>(v: Seq<V>) -> int { V::size() }
pub open spec fn szofo<V: ValueSpec>(v: Seq<Option<V>>) -> int { V::size() }
pub open spec fn osz<V: ValueSpec>(v: Option<V>) -> int { V::size() }
pub open spec fn wosz<V: WalueSpec>(v: Option<V>, param: V::Parameter) -> int { V::wsize(param) }
pub open spec fn optm<V: ValueSpec>(c: bool, d: Seq<u8>, p: int, v: Option<V>) -> bool {
    if c { v is Some && V::accepts(d, p) && V::matches(d, p, v->Some_0) } else { v is None } }
pub open spec fn woptm<V: WalueSpec>(c: bool, d: Seq<u8>, p: int, param: V::Parameter, v: Option<V>) -> bool {
    if c { v is Some && V::waccepts(d, p, param) && V::wmatches(d, p, param, v->Some_0) } else { v is None } }
pub open spec fn wszof<V: WalueSpec>(v: Seq<V>, param: V::Parameter) -> int { V::wsize(param) }

#[derive(Clone, Copy)]
pub struct q32(pub i32);
impl ValueSpec for q32 {
    open spec fn framed() -> bool { true }
    open spec fn size() -> int { 4 }
    open spec fn accepts(d: Seq<u8>, p: int) -> bool { readable(d, p, 4) }
    open spec fn matches(d: Seq<u8>, p: int, v: Self) -> bool { v.0 == bei32(d, p) }
}
impl value::Read for q32 { /*@dep typeface number::q32::<Read>::read*/ fn read(tape: &mut tape::Read) -> (r: Result<Self>) /*@body*/ }
impl Framed for q32 { proof fn is_framed() { } }
}
}
