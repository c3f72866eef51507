// Verus model of std::error::Error and Display as the crate's error types use them. Everything
// external_body or uninterp is trusted; the error types, their conversions and the functions
// below the line are extracted from the crate with its derives expanded.
#![allow(unused, non_upper_case_globals, non_snake_case, non_camel_case_types, dead_code)]
use vstd::prelude::*;
verus! {
pub mod xerr {
use vstd::prelude::*;
/// a value, as a link of a chain of errors
pub uninterp spec fn link<T>(x: T) -> int;
/// what Error::source of that value returns
pub uninterp spec fn cause_of(id: int) -> Option<int>;

/// &(dyn Error + 'static)
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Dyn {}
uninterp spec fn dyn_link(d: Dyn) -> int;
impl Dyn { pub closed spec fn link(self) -> int { dyn_link(self) } }
/// what `source` returned is the cause of the value with that link
pub open spec fn is_cause_of(r: Option<Dyn>, id: int) -> bool {
    match r { Some(c) => cause_of(id) == Some(c.link()), None => cause_of(id) is None }
}
pub open spec fn is_link(r: Option<Dyn>, id: int) -> bool { r is Some && (r->0).link() == id }

#[verifier::external_body]
pub fn as_dyn<T>(x: &T) -> (d: Dyn) ensures d.link() == link(*x), { unimplemented!() }
#[verifier::external_body]
pub fn source_of(d: Dyn) -> (r: Option<Dyn>) ensures is_cause_of(r, d.link()), { unimplemented!() }

/// fmt::Formatter: the links whose text has been written to it, and other text (-1)
#[verifier::external_body]
pub struct Formatter {}
uninterp spec fn written(f: Formatter) -> Seq<int>;
impl Formatter { pub closed spec fn out(self) -> Seq<int> { written(self) } }
pub type FmtResult = Result<(), ()>;
#[verifier::external_body]
pub fn display<T>(x: &T, f: &mut Formatter) -> (r: FmtResult) ensures (*final(f)).out() == (*old(f)).out().push(link(*x)), { unimplemented!() }
#[verifier::external_body]
pub fn write_some(f: &mut Formatter) -> (r: FmtResult) ensures (*final(f)).out() == (*old(f)).out().push(-1), { unimplemented!() }
}
