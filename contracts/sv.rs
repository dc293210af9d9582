//! Specifications of what the server reads and writes: lines of text, JSON, and the parser's sources.
#![allow(unused_imports, dead_code, unused_variables)]
use crate::vspec::*;
use crate::api::types::Report;
use beancount_parser_lima as parser;
use std::io;
use vstd::prelude::*;

verus! {
// ---- lines written
/// the lines written so far
pub uninterp spec fn written<W: ?Sized>(w: &W) -> Seq<Seq<char>>;
/// writeln!, to something that can be written to
#[verifier::external_body]
pub fn written_line<W: io::Write>(w: &mut W, text: &str) -> (r: io::Result<()>)
    requires !text@.contains('\n')
    ensures r is Ok, written(final(w)) == written(old(w)).push(text@)
{ unimplemented!() }

/// io::Error::new
#[verifier::external_body]
pub fn io_error(kind: io::ErrorKind, what: &str) -> io::Error
{ unimplemented!() }

// ---- lines read
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct ExBufReader<R: ?Sized>(io::BufReader<R>);
#[verifier::external_trait_specification]
pub trait ExRead { type ExternalTraitSpecificationFor: io::Read; }
/// the lines read so far, and those to come
pub uninterp spec fn taken<R>(r: &io::BufReader<R>) -> Seq<Seq<char>>;
pub uninterp spec fn to_come<R>(r: &io::BufReader<R>) -> Seq<Seq<char>>;
/// what comes cannot be read, or is not text
pub uninterp spec fn unreadable<R>(r: &io::BufReader<R>) -> bool;
pub assume_specification<R: io::Read>[ io::BufReader::<R>::new ](r: R) -> (b: io::BufReader<R>)
    ensures taken(&b).len() == 0;
/// BufRead::read_line
#[verifier::external_body]
pub fn line_read<R: io::Read>(r: &mut io::BufReader<R>, buf: &mut String) -> (n: io::Result<usize>)
    ensures
        match n {
            Ok(n) => if to_come(old(r)).len() == 0 {
                n == 0 && final(buf)@ == old(buf)@ && taken(final(r)) == taken(old(r)) && to_come(final(r)) == to_come(old(r))
            } else {
                n > 0 && final(buf)@ == old(buf)@ + to_come(old(r))[0] && taken(final(r)) == taken(old(r)).push(to_come(old(r))[0])
                    && to_come(final(r)) == to_come(old(r)).drop_first()
            },
            Err(_) => unreadable(final(r)) && taken(final(r)) == taken(old(r)),
        }
{ unimplemented!() }
/// without the white space around it
pub uninterp spec fn trimmed(t: Seq<char>) -> Seq<char>;
pub assume_specification[ str::trim ](t: &str) -> (r: &str)
    ensures r@ == trimmed(t@);
/// std::process::exit: only when nothing can be read any more, and every line read has been answered
#[verifier::external_body]
pub fn exit_when<R, W>(r: &io::BufReader<R>, w: &W, code: i32) -> !
    requires
        (code == 0 && to_come(r).len() == 0) || unreadable(r),
        written(w).len() == taken(r).len(),
{ unimplemented!() }

// ---- JSON
#[verifier::external_trait_specification]
pub trait ExSerialize { type ExternalTraitSpecificationFor: serde::Serialize; }
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExJsonError(serde_json::Error);
#[verifier::external_type_specification]
pub struct ExJsonCategory(serde_json::error::Category);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExJsonNumber(serde_json::Number);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(io::Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoErrorKind(io::ErrorKind);
/// how a value is put in JSON, if it can be
pub uninterp spec fn encoded<T: ?Sized>(v: &T) -> Option<Seq<char>>;
pub broadcast axiom fn encoded_through<'a, T: ?Sized>(v: &'a &'a T)
    ensures #[trigger] encoded::<&'a T>(v) == encoded::<T>(*v);
pub broadcast axiom fn encoded_on_one_line<T: ?Sized>(v: &T)
    ensures #[trigger] encoded::<T>(v) matches Some(t) ==> !t.contains('\n');
pub uninterp spec fn category(e: &serde_json::Error) -> serde_json::error::Category;
pub assume_specification<T: ?Sized + serde::Serialize>[ serde_json::to_string ](v: &T) -> (r: Result<String, serde_json::Error>)
    ensures
        r matches Ok(t) ==> encoded(v) == Some(t@),
        r is Err ==> encoded(v) is None,
        r matches Err(e) ==> !(category(&e) is Io); // written to memory
/// what a text in JSON says, if it is of that kind
pub uninterp spec fn decoded<T>(t: Seq<char>) -> Option<T>;
/// a text in JSON, as a value
pub uninterp spec fn in_json(t: Seq<char>) -> crate::se::Tree;
/// it is one
pub uninterp spec fn well_formed(t: Seq<char>) -> bool;
pub broadcast axiom fn decoded_value<T>(t: Seq<char>)
    ensures
        #[trigger] decoded::<T>(t) matches Some(v) ==> crate::se::reads::<T>(in_json(t), v),
        decoded::<T>(t) is None && well_formed(t) ==> !crate::se::kept::<T>(in_json(t));
/// what is put in JSON says what the encoder made of the value
pub broadcast axiom fn encoded_value<T: ?Sized>(v: &T)
    ensures #[trigger] encoded::<T>(v) matches Some(t) ==> in_json(t) == crate::se::tree::<T>(v);
pub assume_specification<'a, T: serde::Deserialize<'a>>[ serde_json::from_str ](s: &'a str) -> (r: Result<T, serde_json::Error>)
    ensures
        r matches Ok(v) ==> decoded::<T>(s@) == Some(v),
        r is Err ==> decoded::<T>(s@) is None;
pub assume_specification[ serde_json::Error::classify ](e: &serde_json::Error) -> (r: serde_json::error::Category)
    ensures r == category(e);
pub assume_specification[ serde_json::Error::io_error_kind ](e: &serde_json::Error) -> (r: Option<io::ErrorKind>)
    ensures (category(e) is Io) == (r is Some);
pub broadcast group json { encoded_through, encoded_on_one_line }

// ---- the parser's sources
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExSyntheticSources<'a>(parser::SyntheticSources<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExBeancountParser<'a>(parser::BeancountParser<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExErrorKindOfParser(parser::ErrorKind);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExWarningKindOfParser(parser::WarningKind);

/// the places which can be looked up
pub uninterp spec fn known<'a>(s: &parser::SyntheticSources<'a>, span: parser::Span) -> bool;
/// what is found there
pub uninterp spec fn found<'a>(s: &parser::SyntheticSources<'a>, span: parser::Span) -> Found;
pub ghost struct Found { pub file_name: Option<Seq<char>>, pub lines: (int, int), pub content: Seq<char> }
pub open spec fn is_found(f: Found, r: parser::SpannedSource<'_>) -> bool {
    &&& match r.file_name { Some(n) => f.file_name == Some(n@), None => f.file_name is None }
    &&& f.lines == (r.start_line as int, r.end_line as int)
    &&& f.content == r.content@
}
/// without the white space after it
pub uninterp spec fn stripped(t: Seq<char>) -> Seq<char>;
pub assume_specification<'a, 's>[ parser::SyntheticSources::<'a>::resolve_span ](s: &'s parser::SyntheticSources<'a>, span: &parser::Span) -> (r: parser::SpannedSource<'s>)
    ensures is_found(found(s, *span), r);
pub assume_specification<'a>[ parser::SyntheticSources::<'a>::create_synthetic_span ](s: &mut parser::SyntheticSources<'a>, name: &str, content: &str) -> (r: parser::Span)
    ensures
        keeps(old(s), final(s)),
        known(final(s), r),
        found(final(s), r).file_name == Some(name@),
        found(final(s), r).content == stripped(content@);
/// what could be looked up still can, and gives the same
pub open spec fn keeps<'a>(before: &parser::SyntheticSources<'a>, after: &parser::SyntheticSources<'a>) -> bool {
    forall|p: parser::Span| #[trigger] known(before, p) ==> known(after, p) && found(after, p) == found(before, p)
}

// ---- reports formatted
/// how a report looks
pub uninterp spec fn drawn<'a, 'r, K>(s: &parser::SyntheticSources<'a>, r: Report<'r>) -> Seq<u8>;
/// SyntheticSources::write_report, to memory
#[verifier::external_body]
pub fn report_drawn<'a, 'r, K>(s: &parser::SyntheticSources<'a>, buf: &mut Vec<u8>, r: &Report<'r>) -> (o: io::Result<()>)
    ensures o is Ok, final(buf)@ == old(buf)@ + drawn::<K>(s, *r)
{ unimplemented!() }
pub uninterp spec fn utf8(t: Seq<char>) -> Seq<u8>;
/// a text and a newline, to memory
#[verifier::external_body]
pub fn text_put<T: AsRef<str> + View<V = Seq<char>>>(buf: &mut Vec<u8>, t: &T) -> (o: io::Result<()>)
    ensures o is Ok, final(buf)@ == old(buf)@ + utf8(t@) + seq![10u8]
{ unimplemented!() }
/// a newline, to memory
#[verifier::external_body]
pub fn newline_put(buf: &mut Vec<u8>) -> (o: io::Result<()>)
    ensures o is Ok, final(buf)@ == old(buf)@ + seq![10u8]
{ unimplemented!() }
/// String::from_utf8_lossy
pub uninterp spec fn text_of_utf8(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub fn lossy_text<'x>(b: &'x Vec<u8>) -> (r: std::borrow::Cow<'x, str>)
    ensures r@ == text_of_utf8(b@)
{ unimplemented!() }
/// the reports in order, each followed by its annotation, with a line between them
pub open spec fn all_drawn<'a, 'r, K>(s: &parser::SyntheticSources<'a>, rs: Seq<Report<'r>>) -> Seq<u8>
    decreases rs.len()
{
    if rs.len() == 0 { Seq::empty() } else {
        all_drawn::<K>(s, rs.drop_last()) + (if rs.len() > 1 { seq![10u8] } else { seq![] }) + drawn::<K>(s, rs.last())
            + match rs.last().annotation { Some(t) => utf8(t@) + seq![10u8], None => Seq::empty() }
    }
}

// ---- reading and parsing the ledger
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExBeancountSources(parser::BeancountSources);
#[verifier::external_type_specification]
pub struct ExParseSuccess<'a>(parser::ParseSuccess<'a>);
#[verifier::external_type_specification]
pub struct ExParseError(parser::ParseError);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExStdin(io::Stdin);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExStdout(io::Stdout);
/// the ledger, or what is wrong with it
pub uninterp spec fn as_parsed<'a>(p: &parser::BeancountParser<'a>) -> Result<parser::ParseSuccess<'a>, parser::ParseError>;
pub assume_specification<'s, 'a>[ parser::BeancountParser::<'s>::parse ](p: &'a parser::BeancountParser<'s>) -> (r: Result<parser::ParseSuccess<'a>, parser::ParseError>)
    ensures r == as_parsed(p);
pub uninterp spec fn parser_of<'s>(s: &parser::BeancountSources) -> parser::BeancountParser<'s>;
pub assume_specification<'s>[ parser::BeancountParser::<'s>::new ](s: &'s parser::BeancountSources) -> (r: parser::BeancountParser<'s>)
    ensures r == parser_of(s);
pub assume_specification<'s>[ parser::SyntheticSources::<'s>::new ](s: &'s parser::BeancountSources) -> (r: parser::SyntheticSources<'s>);
pub uninterp spec fn as_read(path: &std::path::Path) -> Result<parser::BeancountSources, io::Error>;
pub assume_specification<'x>[ <parser::BeancountSources as TryFrom<&'x std::path::Path>>::try_from ](path: &std::path::Path) -> (r: Result<parser::BeancountSources, io::Error>)
    ensures r == as_read(path);
pub assume_specification[ io::stdin ]() -> io::Stdin;
/// nothing else is written there
pub assume_specification[ io::stdout ]() -> (r: io::Stdout)
    ensures written(&r).len() == 0;
}
