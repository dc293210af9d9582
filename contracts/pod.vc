@file bin/limabean-pod/errors.rs
@append
use vstd::prelude::*;
verus! {
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExError(Error);
#[verifier::external_body]
pub(crate) fn not_json(e: serde_json::Error, input: String) -> Error
{ unimplemented!() }
}
@fn From<std::io::Error>forError::from(value) : C25
ensures true
@attr #[verifier::external_body]

@file bin/limabean-pod/main.rs
@shows
@replace const LIMABEAN_POD_LOG: &str => #[verus_verify] const LIMABEAN_POD_LOG: &'static str
@struct Cli
@struct Command
@append
use vstd::prelude::*;
use crate::tb::*;
use crate::vspec::*;
verus! {
/// the command line, as read
#[verifier::external_body]
fn command_line() -> (r: Cli)
    ensures match r.command { Command::Serve { beanfile } => as_path(beanfile) == ledger_asked() && !table_asked(), Command::Tabulate => table_asked() }
{ unimplemented!() }
}
@fn main() : C25 C13 C14
ensures table_asked() && exists|c: Cell<'static, 'static>| meant(c) && #[trigger] shown(c)
@rewrite Cli::parse() => command_line()
@rewrite std::process::exit( => crate::tb::give_up(
@fn tabulate() : C25
r =>
requires table_asked()
ensures match r { Ok(_) => exists|c: Cell<'static, 'static>| meant(c) && #[trigger] shown(c), Err(_) => no_table() }
@rewrite crate::Error::JsonDecode( => crate::bin::limabean_pod::errors::not_json(
@rewrite io::stdin().read_to_string( => crate::tb::all_read(
