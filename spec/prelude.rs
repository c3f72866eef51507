// Verus model of the standard-library surface the decoder uses.
// Everything here that carries #[verifier::external_body], `uninterp` or `assume_specification`
// is part of the trusted base listed in DESIGN.md.
#![allow(unused, non_upper_case_globals, non_snake_case, non_camel_case_types, dead_code, ambiguous_glob_reexports)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub mod xstd {
use vstd::prelude::*;

pub mod pre {
    pub use super::string::String;
    pub use super::io::{Read, ReadExt};
    pub use super::ghost_choice;
}

/// A choice on a proposition the program cannot see. Only a proof may be split on one: the function that calls this
/// stands for its body in a contract with `cases`, and nothing that runs depends on it.
#[verifier::external_body]
pub fn ghost_choice(b: Ghost<bool>) -> (r: bool)
    ensures r == b@,
{ unimplemented!() }

// ------------------------------------------------------------------ allocation and panics
/// no allocation may be sized by more than this many elements before the input has been read
pub spec const ALLOC_CAP: int = 1024;

pub fn vec_with_capacity<T>(n: usize) -> (r: Vec<T>)
    requires n <= ALLOC_CAP,
    ensures r@.len() == 0,
{ Vec::with_capacity(n) }

/// room for as many elements as something that is already there has
pub fn vec_with_len_of<T>(n: usize) -> (r: Vec<T>)
    ensures r@.len() == 0,
{ Vec::with_capacity(n) }
pub fn vec_reserve_len_of<T>(v: &mut Vec<T>, n: usize)
    ensures (*final(v))@ == (*old(v))@,
{ v.reserve(n); }

#[verifier::external_body]
pub fn vec_from_elem<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    requires n <= ALLOC_CAP,
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x,
{ unimplemented!() }

pub fn vec_reserve<T>(v: &mut Vec<T>, n: usize)
    requires n <= ALLOC_CAP,
    ensures (*final(v))@ == (*old(v))@,
{ v.reserve(n); }
#[verifier::external_body]
pub fn vec_resize<T: Copy>(v: &mut Vec<T>, n: usize, x: T)
    requires n <= ALLOC_CAP,
    ensures (*final(v))@.len() == n, forall|i: int| #![trigger (*final(v))@[i]] 0 <= i < n ==> (*final(v))@[i] == (if i < (*old(v))@.len() { (*old(v))@[i] } else { x }),
{ unimplemented!() }

pub fn bor(a: bool, b: bool) -> (r: bool) ensures r == (a || b), { a || b }
pub fn band(a: bool, b: bool) -> (r: bool) ensures r == (a && b), { a && b }
pub fn bxor(a: bool, b: bool) -> (r: bool) ensures r == (a != b), { a != b }
pub fn rt_assert(b: bool)
    requires b,
{ }
#[verifier::external_body]
pub fn rt_panic() -> !
    requires false,
{ unimplemented!() }

#[verifier::external_body]
pub fn arr_eq<T, const N: usize>(a: &[T; N], b: &[T; N]) -> (r: bool)
    ensures r == (a@ == b@),
{ unimplemented!() }

#[verifier::external_body]
pub fn arr_map<T, U, F: Fn(T) -> U, const N: usize>(a: [T; N], f: F) -> (r: [U; N])
    requires forall|i: int| 0 <= i < N ==> call_requires(f, (#[trigger] a@[i],)),
    ensures forall|i: int| #![trigger a@[i]] #![trigger r@[i]] 0 <= i < N ==> call_ensures(f, (a@[i],), r@[i]),
{ unimplemented!() }

// ------------------------------------------------------------------ `impl<T> From<T> for T`
pub mod conv {
    use vstd::prelude::*;
    use vstd::std_specs::convert::FromSpec;
    #[verifier::external_body]
    pub broadcast proof fn b_from_refl<T>(x: T) ensures #[trigger] <T as FromSpec<T>>::from_spec(x) == x {}
    #[verifier::external_body]
    pub broadcast proof fn b_from_refl_obeys<T>() ensures #[trigger] <T as FromSpec<T>>::obeys_from_spec() {}
    pub broadcast group g_conv { b_from_refl, b_from_refl_obeys }
}

// ------------------------------------------------------------------ floats
pub uninterp spec fn f32_bytes(f: f32) -> Seq<u8>;
pub uninterp spec fn f64_bytes(f: f64) -> Seq<u8>;
pub assume_specification [ f32::from_le_bytes ] (b: [u8; 4]) -> (r: f32) ensures f32_bytes(r) == b@;
pub assume_specification [ f64::from_le_bytes ] (b: [u8; 8]) -> (r: f64) ensures f64_bytes(r) == b@;

// ------------------------------------------------------------------ strings
pub mod string {
    use vstd::prelude::*;
    pub struct FromUtf8Error { pub p: u8 }
    pub struct String { pub v: Vec<u8> }
    pub uninterp spec fn utf8_error(v: Vec<u8>) -> FromUtf8Error;
    pub open spec fn string_of(v: Vec<u8>) -> Result<String, FromUtf8Error> {
        if crate::spec::valid_utf8(v@) { Ok(String { v }) } else { Err(utf8_error(v)) }
    }
    impl String {
        pub open spec fn bytes(&self) -> Seq<u8> { self.v@ }
        #[verifier::external_body]
        pub fn from_utf8(v: Vec<u8>) -> (r: Result<String, FromUtf8Error>)
            ensures r == string_of(v)
        { unimplemented!() }
        pub fn len(&self) -> (r: usize) ensures r == self.v@.len() { self.v.len() }
        pub fn is_empty(&self) -> (r: bool) ensures r == (self.v@.len() == 0) { self.v.len() == 0 }
        pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.v@ { self.v.as_slice() }
        pub fn into_bytes(self) -> (r: Vec<u8>) ensures r == self.v { self.v }
    }
    impl TryFrom<Vec<u8>> for String {
        type Error = FromUtf8Error;
        fn try_from(v: Vec<u8>) -> (r: Result<String, FromUtf8Error>) { String::from_utf8(v) }
    }
    impl vstd::std_specs::convert::TryFromSpecImpl<Vec<u8>> for String {
        open spec fn obeys_try_from_spec() -> bool { true }
        open spec fn try_from_spec(v: Vec<u8>) -> Result<String, FromUtf8Error> { string_of(v) }
    }
}

// ------------------------------------------------------------------ phf
pub mod phf {
    use vstd::prelude::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct OrderedMap<K: 'static, V: 'static> { k: ::core::marker::PhantomData<(K, V)> }
    impl<K, V> OrderedMap<K, V> {
        pub uninterp spec fn lookup(&self, k: K) -> Option<V>;
        #[verifier::external_body]
        pub const fn stub() -> Self { OrderedMap { k: ::core::marker::PhantomData } }
        #[verifier::external_body]
        pub fn get(&self, k: &K) -> (r: Option<&V>)
            ensures match r { Some(v) => self.lookup(*k) == Some(*v), None => self.lookup(*k) is None }
        { unimplemented!() }
    }
}

// ------------------------------------------------------------------ std::io
pub mod io {
    use vstd::prelude::*;
    pub type Result<T> = ::core::result::Result<T, Error>;
    #[derive(Clone, Copy)]
    pub enum ErrorKind {
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted,
        NotConnected, AddrInUse, AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory, IsADirectory,
        DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull,
        NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock, TooManyLinks, ArgumentListTooLong,
        Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other,
    }
    impl PartialEq for ErrorKind { #[verifier::external_body] fn eq(&self, o: &ErrorKind) -> bool { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &ErrorKind) -> bool { *self == *o } }
    /// id tells errors of one kind apart (0: made of its kind alone)
    pub struct Error { pub k: ErrorKind, pub id: Ghost<int> }
    impl Error {
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k }
        #[verifier::external_body]
        pub fn new<E>(k: ErrorKind, e: E) -> (r: Error) ensures r.k == k { unimplemented!() }
        #[verifier::external_body]
        pub fn other<E>(e: E) -> (r: Error) ensures r.k is Other { unimplemented!() }
    }
    impl From<ErrorKind> for Error { fn from(k: ErrorKind) -> (r: Error) { Error { k, id: Ghost(0) } } }
    impl vstd::std_specs::convert::FromSpecImpl<ErrorKind> for Error {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(k: ErrorKind) -> Error { Error { k, id: Ghost(0) } }
    }

    /// the I/O error at the root of an error value
    pub trait Caused: Sized { spec fn io(self) -> Option<Error>; }
    impl Caused for Error { open spec fn io(self) -> Option<Error> { Some(self) } }
    /// how a reader ends: with this error, or, if there is none, with the end of the input
    pub open spec fn end<R: Read>(r: R) -> Option<Error> { if r.eof() { None } else { Some(r.fail()) } }

    /// `rem()` is what the reader will still deliver, `eof()` whether it then reports end of file (as opposed to
    /// failing with `fail()`), `adv(a, b)` that state b is reachable from a by reading only.
    pub trait Read {
        spec fn rem(&self) -> Seq<u8>;
        spec fn eof(&self) -> bool;
        spec fn fail(&self) -> Error;
        #[verifier::prophetic]
        spec fn adv(a: &Self, b: &Self) -> bool;
        proof fn adv_rem(a: &Self, b: &Self)
            requires Self::adv(a, b)
            ensures b.rem().len() <= a.rem().len(), b.rem() == a.rem().skip(a.rem().len() - b.rem().len()), b.eof() == a.eof(), b.fail() == a.fail();
        proof fn adv_refl(a: &Self)
            ensures Self::adv(a, a);
        proof fn adv_trans(a: &Self, b: &Self, c: &Self)
            requires Self::adv(a, b), Self::adv(b, c)
            ensures Self::adv(a, c);
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: ::core::result::Result<(), Error>)
            ensures
                (*final(buf))@.len() == old(buf)@.len(),
                match r {
                    Ok(_) => (*old(self)).rem().len() >= old(buf)@.len() && (*final(buf))@ == (*old(self)).rem().take(old(buf)@.len() as int)
                        && (*final(self)).rem() == (*old(self)).rem().skip(old(buf)@.len() as int)
                        && Self::adv(&*old(self), &*final(self)),
                    Err(e) => (*old(self)).rem().len() < old(buf)@.len() && (if (*old(self)).eof() { e.k is UnexpectedEof } else { e == (*old(self)).fail() }),
                };
        fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: ::core::result::Result<usize, Error>)
            ensures
                match r {
                    Ok(n) => (*final(buf))@ == (*old(buf))@ + (*old(self)).rem() && n == (*old(self)).rem().len()
                        && (*final(self)).rem().len() == 0 && (*old(self)).eof()
                        && Self::adv(&*old(self), &*final(self)),
                    Err(e) => !(*old(self)).eof() && e == (*old(self)).fail(),
                };
        /// one call of read: some bytes of what is left, none only for an empty buffer or at the end
        fn read(&mut self, buf: &mut [u8]) -> (r: ::core::result::Result<usize, Error>)
            ensures
                (*final(buf))@.len() == old(buf)@.len(),
                match r {
                    Ok(n) => n <= old(buf)@.len() && n <= (*old(self)).rem().len()
                        && (*final(buf))@ == (*old(self)).rem().take(n as int) + old(buf)@.skip(n as int)
                        && (*final(self)).rem() == (*old(self)).rem().skip(n as int)
                        && (n == 0 ==> old(buf)@.len() == 0 || ((*old(self)).rem().len() == 0 && (*old(self)).eof()))
                        && Self::adv(&*old(self), &*final(self)),
                    Err(e) => e.k is Interrupted || ((*old(self)).rem().len() == 0 && !(*old(self)).eof() && e == (*old(self)).fail()),
                };
    }
    /// Bytes::next: one byte, None at the end of file, or the reader's error (Interrupted is retried by std)
    #[verifier::external_body]
    pub fn next_byte<R: Read>(r: &mut R) -> (x: Option<::core::result::Result<u8, Error>>)
        ensures match x {
            None => (*old(r)).rem().len() == 0 && (*old(r)).eof() && R::adv(&*old(r), &*final(r)) && (*final(r)).rem().len() == 0,
            Some(Ok(b)) => (*old(r)).rem().len() > 0 && b == (*old(r)).rem()[0] && (*final(r)).rem() == (*old(r)).rem().skip(1) && R::adv(&*old(r), &*final(r)),
            Some(Err(e)) => (*old(r)).rem().len() == 0 && !(*old(r)).eof() && e == (*old(r)).fail(),
        }
    { unimplemented!() }

    pub broadcast proof fn b_rem<R: Read>(a: &R, b: &R)
        requires #[trigger] R::adv(a, b)
        ensures b.rem().len() <= a.rem().len(), b.rem() == a.rem().skip(a.rem().len() - b.rem().len()), b.eof() == a.eof(), b.fail() == a.fail()
    { R::adv_rem(a, b) }
    pub broadcast proof fn b_trans<R: Read>(a: &R, b: &R, c: &R)
        requires #[trigger] R::adv(a, b), #[trigger] R::adv(b, c)
        ensures R::adv(a, c)
    { R::adv_trans(a, b, c) }
    pub broadcast proof fn b_refl<R: Read>(a: &R)
        ensures #[trigger] R::adv(a, a)
    { R::adv_refl(a) }
    pub broadcast proof fn b_cons(x: u8, s: Seq<u8>)
        ensures #[trigger] (seq![x] + s).skip(1) == s, (seq![x] + s)[0] == x, (seq![x] + s).len() == s.len() + 1
    { assert((seq![x] + s).skip(1) =~= s); }
    pub broadcast proof fn b_cons2(s: Seq<u8>)
        requires s.len() > 0
        ensures #![trigger seq![s[0]], s.skip(1)] (seq![s[0]] + s.skip(1)) == s
    { assert((seq![s[0]] + s.skip(1)) =~= s); }
    pub broadcast proof fn b_skip0(s: Seq<u8>)
        ensures #[trigger] s.skip(0) == s
    { assert(s.skip(0) =~= s); }
    pub broadcast group g_adv { b_rem, b_trans, b_refl, b_cons, b_cons2, b_skip0, b_arr1 }

    impl<R: Read> Read for &mut R {
        open spec fn rem(&self) -> Seq<u8> { (**self).rem() }
        open spec fn eof(&self) -> bool { (**self).eof() }
        open spec fn fail(&self) -> Error { (**self).fail() }
        #[verifier::prophetic]
        open spec fn adv(a: &Self, b: &Self) -> bool { R::adv(&**a, &**b) && *final(*a) == *final(*b) }
        proof fn adv_rem(a: &Self, b: &Self) { R::adv_rem(&**a, &**b) }
        proof fn adv_refl(a: &Self) { R::adv_refl(&**a) }
        proof fn adv_trans(a: &Self, b: &Self, c: &Self) { R::adv_trans(&**a, &**b, &**c) }
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: ::core::result::Result<(), Error>) { (**self).read_exact(buf) }
        fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: ::core::result::Result<usize, Error>) { (**self).read_to_end(buf) }
        fn read(&mut self, buf: &mut [u8]) -> (r: ::core::result::Result<usize, Error>) { (**self).read(buf) }
    }

    /// what a reader over bytes in memory reads from
    pub trait Mem { spec fn mem(&self) -> Seq<u8>; }
    impl<const N: usize> Mem for [u8; N] { open spec fn mem(&self) -> Seq<u8> { self@ } }
    impl Mem for &[u8] { open spec fn mem(&self) -> Seq<u8> { (*self)@ } }
    impl<const N: usize> Mem for &[u8; N] { open spec fn mem(&self) -> Seq<u8> { (*self)@ } }
    impl Mem for Vec<u8> { open spec fn mem(&self) -> Seq<u8> { self@ } }
    pub open spec fn suffix(b: Seq<u8>, a: Seq<u8>) -> bool { b.len() <= a.len() && b == a.skip(a.len() - b.len()) }
    pub proof fn l_suffix(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
        requires suffix(b, a), suffix(c, b)
        ensures suffix(c, a)
    { assert(c =~= a.skip(a.len() - c.len())); }

    /// a slice reads from its front and never fails but at its end
    impl Read for &[u8] {
        open spec fn rem(&self) -> Seq<u8> { (*self)@ }
        open spec fn eof(&self) -> bool { true }
        open spec fn fail(&self) -> Error { arbitrary() }
        open spec fn adv(a: &Self, b: &Self) -> bool { suffix((*b)@, (*a)@) }
        proof fn adv_rem(a: &Self, b: &Self) {}
        proof fn adv_refl(a: &Self) { assert((*a)@.skip(0) =~= (*a)@); }
        proof fn adv_trans(a: &Self, b: &Self, c: &Self) { l_suffix((*a)@, (*b)@, (*c)@); }
        #[verifier::external_body]
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: ::core::result::Result<(), Error>) { unimplemented!() }
        #[verifier::external_body]
        fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: ::core::result::Result<usize, Error>) { unimplemented!() }
        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: ::core::result::Result<usize, Error>) { unimplemented!() }
    }

    /// io::Cursor over bytes in memory, read from its position on
    pub struct Cursor<T> { pub inner: T, pub rest: Ghost<Seq<u8>> }
    impl<T: Mem> Cursor<T> {
        pub fn new(a: T) -> (c: Cursor<T>) ensures c.rem() == a.mem() { Cursor { rest: Ghost(a.mem()), inner: a } }
    }
    impl<T: Mem> Read for Cursor<T> {
        open spec fn rem(&self) -> Seq<u8> { self.rest@ }
        open spec fn eof(&self) -> bool { true }
        open spec fn fail(&self) -> Error { arbitrary() }
        open spec fn adv(a: &Self, b: &Self) -> bool { suffix(b.rest@, a.rest@) }
        proof fn adv_rem(a: &Self, b: &Self) {}
        proof fn adv_refl(a: &Self) { assert(a.rest@.skip(0) =~= a.rest@); }
        proof fn adv_trans(a: &Self, b: &Self, c: &Self) { l_suffix(a.rest@, b.rest@, c.rest@); }
        #[verifier::external_body]
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: ::core::result::Result<(), Error>) { unimplemented!() }
        #[verifier::external_body]
        fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: ::core::result::Result<usize, Error>) { unimplemented!() }
        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: ::core::result::Result<usize, Error>) { unimplemented!() }
    }

    /// io::Chain: the second reader once the first has reported its end
    pub struct Chain<F, R> { pub first: F, pub second: R }
    impl<F: Read, R: Read> Read for Chain<F, R> {
        open spec fn rem(&self) -> Seq<u8> { if self.first.eof() { self.first.rem() + self.second.rem() } else { self.first.rem() } }
        open spec fn eof(&self) -> bool { self.first.eof() && self.second.eof() }
        open spec fn fail(&self) -> Error { if self.first.eof() { self.second.fail() } else { self.first.fail() } }
        #[verifier::prophetic]
        open spec fn adv(a: &Self, b: &Self) -> bool {
            F::adv(&a.first, &b.first) && R::adv(&a.second, &b.second)
            && ((!b.first.eof() || b.first.rem().len() > 0) ==> a.second.rem() == b.second.rem())
        }
        proof fn adv_rem(a: &Self, b: &Self) {
            F::adv_rem(&a.first, &b.first);
            R::adv_rem(&a.second, &b.second);
            assert(b.rem() =~= a.rem().skip(a.rem().len() - b.rem().len()));
        }
        proof fn adv_refl(a: &Self) { F::adv_refl(&a.first); R::adv_refl(&a.second) }
        proof fn adv_trans(a: &Self, b: &Self, c: &Self) {
            F::adv_rem(&a.first, &b.first);
            F::adv_rem(&b.first, &c.first);
            F::adv_trans(&a.first, &b.first, &c.first);
            R::adv_trans(&a.second, &b.second, &c.second);
        }
        #[verifier::external_body]
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: ::core::result::Result<(), Error>) { unimplemented!() }
        #[verifier::external_body]
        fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: ::core::result::Result<usize, Error>) { unimplemented!() }
        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: ::core::result::Result<usize, Error>) { unimplemented!() }
    }
    pub broadcast proof fn b_arr1(a: [u8; 1])
        ensures #[trigger] a@ == seq![a@[0]]
    { assert(a@ =~= seq![a@[0]]); }

    /// io::Take: at most `lim` further bytes of `inner`. After `lim` bytes it reports end of file.
    pub struct Take<R> { pub inner: R, pub lim: u64 }
    impl<R: Read> Take<R> {
        pub fn limit(&self) -> (r: u64) ensures r == self.lim { self.lim }
    }
    pub open spec fn tk(s: Seq<u8>, n: int) -> Seq<u8> { if s.len() < n { s } else { s.take(n) } }
    impl<R: Read> Read for Take<R> {
        open spec fn rem(&self) -> Seq<u8> { tk(self.inner.rem(), self.lim as int) }
        open spec fn eof(&self) -> bool { self.inner.eof() || self.inner.rem().len() >= self.lim }
        open spec fn fail(&self) -> Error { self.inner.fail() }
        #[verifier::prophetic]
        open spec fn adv(a: &Self, b: &Self) -> bool {
            R::adv(&a.inner, &b.inner) && b.lim <= a.lim && a.lim - b.lim == a.inner.rem().len() - b.inner.rem().len()
        }
        proof fn adv_rem(a: &Self, b: &Self) {
            R::adv_rem(&a.inner, &b.inner);
            assert(b.rem() =~= a.rem().skip(a.rem().len() - b.rem().len()));
        }
        proof fn adv_refl(a: &Self) { R::adv_refl(&a.inner) }
        proof fn adv_trans(a: &Self, b: &Self, c: &Self) {
            R::adv_trans(&a.inner, &b.inner, &c.inner);
        }
        #[verifier::external_body]
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: ::core::result::Result<(), Error>) { unimplemented!() }
        #[verifier::external_body]
        fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: ::core::result::Result<usize, Error>) { unimplemented!() }
        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: ::core::result::Result<usize, Error>) { unimplemented!() }
    }

    /// the provided methods of std::io::Read
    pub trait ReadExt: Read + Sized {
        fn take(self, n: u64) -> (r: Take<Self>) ensures r.inner == self, r.lim == n;
        fn by_ref(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self);
        fn bytes(self) -> (r: Bytes<Self>) ensures r.inner == self;
        fn chain<S: Read>(self, s: S) -> (r: Chain<Self, S>) ensures r.first == self, r.second == s;
    }
    pub struct Bytes<R> { pub inner: R }
    impl<R: Read> Bytes<R> {
        pub fn next(&mut self) -> (x: Option<::core::result::Result<u8, Error>>)
            ensures match x {
                None => (*old(self)).inner.rem().len() == 0 && (*old(self)).inner.eof() && R::adv(&(*old(self)).inner, &(*final(self)).inner) && (*final(self)).inner.rem().len() == 0,
                Some(Ok(b)) => (*old(self)).inner.rem().len() > 0 && b == (*old(self)).inner.rem()[0] && (*final(self)).inner.rem() == (*old(self)).inner.rem().skip(1) && R::adv(&(*old(self)).inner, &(*final(self)).inner),
                Some(Err(e)) => (*old(self)).inner.rem().len() == 0 && !(*old(self)).inner.eof() && e == (*old(self)).inner.fail(),
            }
        { next_byte(&mut self.inner) }
    }
    impl<R: Read + Sized> ReadExt for R {
        fn take(self, n: u64) -> (r: Take<Self>) { Take { inner: self, lim: n } }
        fn by_ref(&mut self) -> (r: &mut Self) { self }
        fn bytes(self) -> (r: Bytes<Self>) { Bytes { inner: self } }
        fn chain<S: Read>(self, s: S) -> (r: Chain<Self, S>) { Chain { first: self, second: s } }
    }
}
} // xstd
