//! Specifications of what limabean-pod is asked to do, and of tables.
#![allow(unused_imports, dead_code, unused_variables)]
use std::path::{Path, PathBuf};
use tabulator::Cell;
use vstd::prelude::*;
use crate::vspec::*;

verus! {
// ---- the command line
/// the ledger to be served
pub uninterp spec fn ledger_asked() -> &'static Path;
/// a table is asked for
pub uninterp spec fn table_asked() -> bool;
pub uninterp spec fn as_path(p: PathBuf) -> &'static Path;
pub assume_specification[ Path::file_name ](p: &Path) -> Option<&std::ffi::OsStr>;
pub assume_specification[ Path::parent ](p: &Path) -> Option<&Path>;
pub assume_specification<'a, S: AsRef<std::ffi::OsStr> + ?Sized>[ Path::new::<S> ](s: &'a S) -> (r: &'a Path)
    ensures crate::ln::spelled(r) == crate::ln::os(s);

// ---- standard input
/// all of standard input, if that is text
pub uninterp spec fn all_input() -> Option<Seq<char>>;
/// Read::read_to_string of standard input
#[verifier::external_body]
pub fn all_read(buf: &mut String) -> (n: std::io::Result<usize>)
    ensures match n { Ok(_) => all_input() is Some && final(buf)@ == old(buf)@ + all_input().unwrap(), Err(_) => all_input() is None }
{ unimplemented!() }

// ---- tables
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExCell<'a, 'g>(Cell<'a, 'g>);
/// the table a JSON text describes
pub uninterp spec fn table_of<'a>(t: Seq<char>) -> Option<Cell<'a, 'a>>;
pub assume_specification<'a, 'g>[ Cell::<'a, 'g>::from_json ](t: &'a str) -> (r: serde_json::Result<Cell<'a, 'a>>)
    ensures match r { Ok(c) => table_of(t@) == Some(c), Err(_) => table_of::<'a>(t@) is None };
/// that has been printed, on a line of its own
pub uninterp spec fn shown<'a, 'g>(c: Cell<'a, 'g>) -> bool;
/// the one table which is in the input, and nothing else
pub open spec fn meant<'a>(c: Cell<'a, 'a>) -> bool {
    table_asked() && all_input() is Some && table_of(all_input().unwrap()) == Some(c)
}
/// println!
#[verifier::external_body]
pub fn show<'a>(c: &Cell<'a, 'a>)
    requires meant(*c)
    ensures shown(*c)
{ unimplemented!() }
/// there is no table in the input
pub open spec fn no_table<'a>() -> bool {
    all_input() is None || table_of::<'a>(all_input().unwrap()) is None
}
/// std::process::exit
#[verifier::external_body]
pub fn give_up(code: i32) -> !
    requires code != 0, table_asked() && no_table()
{ unimplemented!() }
}
