// Verus model of what the command-line tool uses: argument parsing, the input, the library's entry
// point, process exit and standard error. Everything external_body or uninterp is trusted; the
// contract of decode_module is the one the proofs of C01-C16 discharge for the library.
#![allow(unused, non_upper_case_globals, non_snake_case, non_camel_case_types, dead_code)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub mod spec {
use vstd::prelude::*;
pub broadcast proof fn nothing() ensures #[trigger] trivially(0) {}
pub open spec fn trivially(x: int) -> bool { true }
pub broadcast group g_all { nothing }

/// the arguments this process was started with
pub uninterp spec fn cmdline<T>(c: T) -> bool;
/// the library accepts the stream
pub uninterp spec fn accepts(stream: int) -> bool;
/// the value says why the input of this run is not an accepted module
pub uninterp spec fn is_rejection(id: int) -> bool;
/// the value has been shown on standard error
pub uninterp spec fn printed(id: int) -> bool;
/// what Error::source returns
pub uninterp spec fn cause_of(id: int) -> Option<int>;

pub open spec fn nth_cause(id: int, n: nat) -> Option<int> decreases n {
    if n == 0 { cause_of(id) } else { match nth_cause(id, (n - 1) as nat) { Some(c) => cause_of(c), None => None } }
}
pub open spec fn reported(id: int) -> bool {
    is_rejection(id) && printed(id) && forall|n: nat| (#[trigger] nth_cause(id, n)) is Some ==> printed(nth_cause(id, n)->0)
}
pub proof fn chain_ends(id: int, k: nat, n: nat)
    requires nth_cause(id, k) is None, n >= k,
    ensures nth_cause(id, n) is None,
    decreases n
{ if n > k { chain_ends(id, k, (n - 1) as nat); } }
/// everything up to the first missing cause has been shown
pub proof fn chain_done(id: int, k: nat)
    requires nth_cause(id, k) is None,
        forall|j: nat| j < k ==> (#[trigger] nth_cause(id, j)) is Some && printed(nth_cause(id, j)->0),
    ensures forall|n: nat| (#[trigger] nth_cause(id, n)) is Some ==> printed(nth_cause(id, n)->0)
{
    assert forall|n: nat| (#[trigger] nth_cause(id, n)) is Some implies printed(nth_cause(id, n)->0) by {
        if n >= k { chain_ends(id, k, n); }
    }
}
/// the run may end with this status
pub open spec fn exit_ok(code: int) -> bool {
    if code % 256 == 0 { exists|c: crate::cli::Cli| #[trigger] cmdline(c) && accepts(c.input.content()) } else { exists|id: int| #[trigger] is_rejection(id) && reported(id) }
}
}
pub mod xstd {
use vstd::prelude::*;
use crate::spec::*;
pub mod pre { pub use super::wadec; pub use super::Shown; pub use super::error::id_at; pub use super::wadec::Stream; }
pub fn bor(a: bool, b: bool) -> (r: bool) ensures r == (a || b), { a || b }
pub fn band(a: bool, b: bool) -> (r: bool) ensures r == (a && b), { a && b }
pub fn bxor(a: bool, b: bool) -> (r: bool) ensures r == (a != b), { a != b }
pub fn rt_assert(b: bool) requires b, { }
#[verifier::external_body]
pub fn rt_panic() -> ! requires false, { unimplemented!() }
/// what can be shown on a terminal
pub trait Shown { spec fn shown(&self) -> int; }
#[verifier::external_body]
pub fn eprint_display<T: Shown>(x: &T) ensures printed(x.shown()), { unimplemented!() }
#[verifier::external_body]
pub fn eprint_debug<T>(x: &T) { unimplemented!() }
#[verifier::external_body]
pub fn print_any<T>(x: &T) { unimplemented!() }
impl<T: Shown> Shown for &T { open spec fn shown(&self) -> int { (**self).shown() } }
uninterp spec fn shown_usize(x: usize) -> int;
impl Shown for usize { closed spec fn shown(&self) -> int { shown_usize(*self) } }
pub mod error {
    use vstd::prelude::*;
    use crate::spec::*;
    use super::Shown;
    pub trait Error: Shown {
        fn source(&self) -> (r: Option<ErrRef>)
            ensures match r { Some(c) => cause_of(self.shown()) == Some(c.shown()), None => cause_of(self.shown()) is None };
    }
    #[verifier::external_body]
    #[derive(Copy, Clone)]
    pub struct ErrRef {}
    uninterp spec fn ref_id(e: ErrRef) -> int;
    pub open spec fn id_at(v: Seq<ErrRef>, i: int) -> int { v[i].shown() }
    impl Shown for ErrRef { closed spec fn shown(&self) -> int { ref_id(*self) } }
    impl Error for ErrRef {
        #[verifier::external_body]
        fn source(&self) -> (r: Option<ErrRef>) { unimplemented!() }
    }
    impl<E: Error> Error for &E {
        fn source(&self) -> (r: Option<ErrRef>) { (**self).source() }
    }
}
pub mod process {
    use vstd::prelude::*;
    use crate::spec::*;
    #[verifier::external_body]
    pub fn exit(code: i32) -> ! requires exit_ok(code as int), { unimplemented!() }
}
pub mod io {
    use vstd::prelude::*;
    use crate::xstd::error::*;
    use crate::xstd::Shown;
    #[verifier::external_body]
    pub struct Error {}
    uninterp spec fn io_id(e: Error) -> int;
    impl Shown for Error { closed spec fn shown(&self) -> int { io_id(*self) } }
    impl crate::xstd::error::Error for Error {
        #[verifier::external_body]
        fn source(&self) -> (r: Option<ErrRef>) { unimplemented!() }
    }
}
pub mod clap {
    use vstd::prelude::*;
    use crate::spec::*;
    pub trait Parser: Sized { fn parse() -> (c: Self) ensures cmdline(c); }
}
pub mod patharg {
    use vstd::prelude::*;
    use crate::spec::*;
    #[verifier::external_body]
    pub struct InputArg {}
    #[verifier::external_body]
    pub struct InputArgReader {}
    pub uninterp spec fn arg_content(a: InputArg) -> int;
    pub uninterp spec fn reader_content(a: InputArgReader) -> int;
    impl InputArg {
        pub closed spec fn content(&self) -> int { arg_content(*self) }
        #[verifier::external_body]
        pub fn open(&self) -> (r: Result<InputArgReader, crate::xstd::io::Error>)
            ensures match r { Ok(i) => crate::xstd::wadec::Stream::content(&i) == self.content(), Err(e) => is_rejection(crate::xstd::Shown::shown(&e)) }
        { unimplemented!() }
    }
    impl crate::xstd::wadec::Stream for InputArgReader { closed spec fn content(&self) -> int { reader_content(*self) } }
}
pub mod wadec {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::xstd::error::*;
    use crate::xstd::Shown;
    pub trait Stream { spec fn content(&self) -> int; }
    #[verifier::external_body]
    pub struct Module {}
    #[verifier::external_body]
    pub struct DecodeModuleError {}
    uninterp spec fn dme_id(e: DecodeModuleError) -> int;
    impl Shown for DecodeModuleError { closed spec fn shown(&self) -> int { dme_id(*self) } }
    impl Error for DecodeModuleError {
        #[verifier::external_body]
        fn source(&self) -> (r: Option<ErrRef>) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn decode_module<R: Stream>(input: R) -> (r: Result<Module, DecodeModuleError>)
        ensures match r { Ok(_) => accepts(input.content()), Err(e) => !accepts(input.content()) && is_rejection(e.shown()) }
    { unimplemented!() }
}
}
