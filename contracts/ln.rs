//! Specifications of what the launcher is given and what it runs: environment, arguments, commands.
#![allow(unused_imports, dead_code, unused_variables)]
use std::ffi::{OsStr, OsString};
use std::process::Command;
use vstd::prelude::*;
use crate::vspec::*;

verus! {
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExOsStr(OsStr);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExOsString(OsString);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExCommand(Command);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExVarError(std::env::VarError);

/// the text of an argument or a name
pub uninterp spec fn os<S: std::marker::PointeeSized>(s: &S) -> Seq<char>;
pub broadcast axiom fn os_str(s: &str) ensures #[trigger] os::<str>(s) == s@;
pub broadcast axiom fn os_string(s: &String) ensures #[trigger] os::<String>(s) == s@;
pub broadcast axiom fn os_ref<S: ?Sized>(s: &&S) ensures #[trigger] os::<&S>(s) == os::<S>(*s);
/// a text is its characters
pub broadcast axiom fn spelt_alike(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub broadcast group texts { os_str, os_string, os_ref }

// ---- the environment
/// a variable, if it is set to text
pub uninterp spec fn set_to(name: Seq<char>) -> Option<Seq<char>>;
pub assume_specification<K: AsRef<OsStr>>[ std::env::var::<K> ](k: K) -> (r: Result<String, std::env::VarError>)
    ensures match r { Ok(t) => set_to(os(&k)) == Some(t@), Err(_) => set_to(os(&k)) is None };

// ---- commands
pub uninterp spec fn program(c: &Command) -> Seq<char>;
pub uninterp spec fn arguments(c: &Command) -> Seq<Seq<char>>;
pub assume_specification<S: AsRef<OsStr>>[ Command::new::<S> ](s: S) -> (c: Command)
    ensures program(&c) == os(&s), arguments(&c).len() == 0;
pub open spec fn extends(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> bool {
    a.len() <= b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i] == b[i]
}
pub assume_specification<'x, S: AsRef<OsStr>>[ Command::arg::<S> ](c: &'x mut Command, s: S) -> (r: &'x mut Command)
    ensures program(r) == program(old(c)), arguments(r) == arguments(old(c)).push(os(&s)), extends(arguments(old(c)), arguments(r)),
        arguments(r)[arguments(old(c)).len() as int] == os(&s), *final(c) == *final(r);
#[verifier::external_trait_specification]
pub trait ExAsRef<T: std::marker::PointeeSized>: std::marker::PointeeSized {
    type ExternalTraitSpecificationFor: AsRef<T>;
    fn as_ref(&self) -> (r: &T)
        ensures os::<T>(r) == os::<Self>(self);
}
/// the texts of several arguments
pub open spec fn all_os<S>(s: Seq<S>) -> Seq<Seq<char>> { s.map_values(|x: S| os(&x)) }
pub trait CommandExt {
    /// Command::args
    fn given<I: IntoIterator>(&mut self, args: I) -> &mut Command where I::Item: AsRef<OsStr>;
}
impl CommandExt for Command {
    #[verifier::external_body]
    fn given<I: IntoIterator>(&mut self, args: I) -> (r: &mut Command) where I::Item: AsRef<OsStr>
        ensures program(r) == program(old(self)), arguments(r) == arguments(old(self)) + all_os(crate::vspec::listing(args)),
            extends(arguments(old(self)), arguments(r)), *final(self) == *final(r)
    { unimplemented!() }
}

// ---- results, texts
pub trait ResultExt<T, E>: Sized {
    spec fn as_result(self) -> Result<T, E>;
    /// Result::map
    fn mapped<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U, E>)
        requires self.as_result() matches Ok(t) ==> f.requires((t,))
        ensures match (self.as_result(), r) {
            (Ok(t), Ok(u)) => f.ensures((t,), u),
            (Err(e), Err(g)) => e == g,
            _ => false,
        };
}
impl<T, E> ResultExt<T, E> for Result<T, E> {
    open spec fn as_result(self) -> Result<T, E> { self }
    #[verifier::external_body]
    fn mapped<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U, E>) { unimplemented!() }
}
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](r: Result<T, E>, d: T) -> (t: T)
    where T: std::marker::Destruct, E: std::marker::Destruct
    ensures t == match r { Ok(x) => x, Err(_) => d };
#[verifier::external_body]
pub fn text0(l0: &str) -> (r: String)
    ensures r@ == l0@
{ unimplemented!() }
#[verifier::external_body]
pub fn text1<A: ?Sized>(l0: &str, a: &A, l1: &str) -> (r: String)
    ensures r@ == l0@ + os(a) + l1@
{ unimplemented!() }
#[verifier::external_body]
pub fn text2<A: ?Sized, B: ?Sized>(l0: &str, a: &A, l1: &str, b: &B, l2: &str) -> (r: String)
    ensures r@ == l0@ + os(a) + l1@ + os(b) + l2@
{ unimplemented!() }
#[verifier::external_body]
pub fn text3<A: ?Sized, B: ?Sized, C: ?Sized>(l0: &str, a: &A, l1: &str, b: &B, l2: &str, c: &C, l3: &str) -> (r: String)
    ensures r@ == l0@ + os(a) + l1@ + os(b) + l2@ + os(c) + l3@
{ unimplemented!() }

// ---- what was fixed when the launcher was built
pub uninterp spec fn jar_built_in() -> Option<Seq<char>>;
#[verifier::external_body]
pub fn built_in() -> (r: Option<&'static str>)
    ensures match r { Some(t) => jar_built_in() == Some(t@), None => jar_built_in() is None }
{ unimplemented!() }
pub uninterp spec fn own_version() -> Seq<char>;
#[verifier::external_body]
pub fn version() -> (r: &'static str)
    ensures r@ == own_version()
{ unimplemented!() }
#[verifier::external_body]
pub fn either() -> bool { unimplemented!() }
/// options of the launcher's own
pub uninterp spec fn own_options() -> Seq<Seq<char>>;
#[verifier::external_body]
pub fn jvm_options() -> (r: &'static [&'static str])
    ensures all_os(r@) == own_options()
{ unimplemented!() }

// ---- running
/// that program has been told to run, with those arguments
pub uninterp spec fn tried(program: Seq<char>, args: Seq<Seq<char>>) -> bool;
pub assume_specification[ <Command as std::os::unix::process::CommandExt>::exec ](c: &mut Command) -> (e: std::io::Error)
    requires !health_asked()
    ensures tried(program(old(c)), arguments(old(c)));
/// std::process::exit, as the last thing
pub fn leave(code: i32) {}
/// the command line, the launcher's own name first
pub uninterp spec fn given_to_launcher() -> Seq<OsString>;
#[verifier::external_body]
pub fn command_line() -> (r: Vec<OsString>)
    ensures r@ == given_to_launcher(), r@.len() > 0
{ unimplemented!() }
pub uninterp spec fn as_text(s: OsString) -> Option<Seq<char>>;
pub uninterp spec fn text_of_os(s: &OsStr) -> Option<Seq<char>>;
pub assume_specification[ OsStr::to_str ](s: &OsStr) -> (r: Option<&str>)
    ensures match r { Some(t) => text_of_os(s) == Some(t@), None => text_of_os(s) is None };
pub assume_specification[ <OsString as std::ops::Deref>::deref ](s: &OsString) -> (r: &OsStr)
    ensures os(r) == os(s), text_of_os(r) == as_text(*s);
/// the launcher's own health report is asked for
pub open spec fn health_asked() -> bool {
    given_to_launcher().len() > 1 && as_text(given_to_launcher()[1]) == Some("health"@)
}

// ---- asking a program
pub open spec fn version_asked() -> Seq<Seq<char>> { seq!["--version"@] }
/// whether that program succeeds when run with those arguments; nothing if it can't be run
pub uninterp spec fn answers(program: Seq<char>, args: Seq<Seq<char>>) -> Option<bool>;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExExitStatus(std::process::ExitStatus);
#[verifier::external_type_specification]
pub struct ExOutput(std::process::Output);
pub uninterp spec fn of_success(s: &std::process::ExitStatus) -> bool;
pub assume_specification[ std::process::ExitStatus::success ](s: &std::process::ExitStatus) -> (r: bool)
    ensures r == of_success(s);
pub assume_specification[ Command::output ](c: &mut Command) -> (r: std::io::Result<std::process::Output>)
    requires arguments(old(c)) =~= version_asked()
    ensures match r { Ok(o) => answers(program(old(c)), version_asked()) == Some(of_success(&o.status)), Err(_) => answers(program(old(c)), version_asked()) is None };
// (Unix: None of a process ended by a signal)
pub assume_specification[ std::process::ExitStatus::code ](s: &std::process::ExitStatus) -> (r: Option<i32>)
    ensures of_success(s) == (r == Some(0i32));
pub assume_specification[ Command::status ](c: &mut Command) -> (r: std::io::Result<std::process::ExitStatus>)
    requires arguments(old(c)) =~= version_asked()
    ensures match r { Ok(s) => answers(program(old(c)), version_asked()) == Some(of_success(&s)), Err(_) => answers(program(old(c)), version_asked()) is None };
/// the name of a file, as given
pub uninterp spec fn spelled(p: &std::path::Path) -> Seq<char>;
/// there is a file of that name
pub uninterp spec fn there(name: Seq<char>) -> bool;
pub assume_specification[ std::path::Path::try_exists ](p: &std::path::Path) -> (r: std::io::Result<bool>)
    ensures match r { Ok(b) => b == there(spelled(p)), Err(_) => !there(spelled(p)) };
pub assume_specification[ std::path::Path::exists ](p: &std::path::Path) -> (r: bool)
    ensures r == there(spelled(p));
// of these texts nothing is assumed
pub assume_specification<'a>[ String::from_utf8_lossy ](b: &'a [u8]) -> std::borrow::Cow<'a, str>;
pub assume_specification<P: std::str::pattern::Pattern>[ str::replace::<P> ](s: &str, from: P, to: &str) -> String;
}
