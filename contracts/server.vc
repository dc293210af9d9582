@file api/json_rpc.rs
@replace pub(crate) const => #[verus_verify] pub const
@replace JSONRPC_VERSION: &str => JSONRPC_VERSION: &'static str
@replace pub(crate) => pub
@struct Request
@struct RequestMethod
@struct Params
@struct OptionalParams
@struct ResultResponse
@struct ResultData
@struct RawDirectives
@struct BookedDirectives
@struct ErrorResponse
@struct ErrorData
@struct Id
@append
verus! {
impl<'a, T: Serialize> ErrorData<'a, T> {
    pub closed spec fn coded(&self) -> int { self.code as int }
    pub closed spec fn told(&self) -> Seq<char> { self.message@ }
    pub closed spec fn with(&self) -> Option<T> { self.data }
}
}
@fn ResultResponse::new(id, result) : C13
r => ensures r.jsonrpc@ == "2.0"@, r.id == id, r.result == result
@fn ErrorResponse::new(id, code, message, data) : C13 C14
r => ensures r.jsonrpc@ == "2.0"@, r.id == id, r.error.coded() == code, r.error.told() == message@, r.error.with() == data

@file api/server.rs
@rename clone dup
@struct Server
@struct HealthyServer
@struct Parsed
@append
use vstd::prelude::*;
use crate::vspec::*;
use crate::sv::*;
verus! {
broadcast use {crate::vspec::strings, crate::vspec::lemma_take_all, crate::sv::json, crate::vspec::states_it};
/// an error is made of numbers and texts, which can always be put in JSON
pub(crate) axiom fn errors_encodable<'a, 'b, T: Serialize>()
    ensures forall|e: ErrorResponse<'a, 'b, T>| #[trigger] encoded(&e) is Some;

/// one line is written after all the others
spec fn one_more(before: Seq<Seq<char>>, after: Seq<Seq<char>>) -> bool {
    after.len() > 0 && after == before.push(after.last())
}
/// an error, with its code and message and what comes with it
spec fn refused<'a, T: Serialize>(line: Seq<char>, id: Option<Id<'a>>, code: int, message: Seq<char>, data: Option<T>) -> bool {
    exists|e: ErrorResponse<'a, '_, T>| #[trigger] encoded(&e) == Some(line) && e.jsonrpc@ == "2.0"@ && e.id == id
        && e.error.coded() == code && e.error.told() == message && e.error.with() == data
}
spec fn responded<'i, 'a, 'b>(line: Seq<char>, v: ResultResponse<'i, 'a, 'b>) -> bool {
    match encoded(&v) {
        Some(t) => line == t,
        None => exists|m: Seq<char>| #[trigger] refused::<Report>(line, v.id, -32603, m, None),
    }
}
}
@fn write_error(id, code, message, data, w) : C13 C14
r => ensures r is Ok, one_more(written(old(w)), written(final(w))), refused(written(final(w)).last(), id, code as int, message@, data)
@start
errors_encodable::<T>();
@fn write_other_error(id, code, message, w) : C13 C14
r => ensures r is Ok, one_more(written(old(w)), written(final(w))), refused::<Report>(written(final(w)).last(), id, code as int, message@, None)
@fn write_error_reports(id, reports, w) : C13 C14
r => ensures r is Ok, one_more(written(old(w)), written(final(w))), refused(written(final(w)).last(), id, 2, "Error reports"@, Some(reports))
@fn write_indexed_error_reports(id, reports, w) : C13 C14
r => ensures r is Ok, one_more(written(old(w)), written(final(w))), refused(written(final(w)).last(), id, 3, "Error reports"@, Some(reports))
@fn write_response(response, w) : C13
r => ensures r is Ok, one_more(written(old(w)), written(final(w))), responded(written(final(w)).last(), *response)
@rewrite io::Error::new( => crate::sv::io_error(
@append
use crate::api::types::parser_type_conversions::*;
use crate::api::booking::{all_there, method_by_default};
use crate::api::types::Plugin;
verus! {
spec fn answered<'i, 'a, 'b>(line: Seq<char>, id: Option<Id<'i>>, with: spec_fn(ResultData<'a, 'b>) -> bool) -> bool {
    exists|v: ResultResponse<'i, 'a, 'b>| #[trigger] responded(line, v) && v.jsonrpc@ == "2.0"@ && v.id == id && with(v.result)
}
/// the errors of the parser, each as a report
spec fn ill<'a>(line: Seq<char>, id: Option<Id<'a>>, errors: Seq<parser::Error>) -> bool {
    exists|rs: Vec<Report<'a>>| #[trigger] refused(line, id, 2, "Error reports"@, Some(rs)) && rs@.len() == errors.len()
        && forall|i: int| 0 <= i < rs@.len() ==> error_kept(errors[i], #[trigger] rs@[i]) && rs@[i].annotation is None
}
spec fn directives_kept<'a>(v: Seq<parser::Spanned<parser::Directive<'a>>>, r: Seq<Directive<'a>>) -> bool {
    r.len() == v.len() && forall|i: int| 0 <= i < r.len() ==> directive_kept(v[i], #[trigger] r[i])
}
spec fn plugins_kept<'a>(v: Seq<parser::Plugin<'a>>, r: Seq<Plugin<'a>>) -> bool {
    r.len() == v.len() && forall|i: int| 0 <= i < r.len() ==> plugin_kept(v[i], #[trigger] r[i])
}
}
@options
@fn HealthyServer::status(self, id, w) : C13 C14
r => ensures r is Ok, one_more(written(old(w)), written(final(w))), status_told(written(final(w)).last(), id)
@fn HealthyServer::parser_plugins(self, id, w) : C13 C14 C15
r => ensures r is Ok, one_more(written(old(w)), written(final(w))), plugins_told(written(final(w)).last(), id, self.parsed)
@closure 0 : &parser::Plugin<'a> -> r: Plugin<'a>
ensures plugin_kept(*arg0, r)
@fn HealthyServer::parser_directives(self, id, w) : C13 C14 C15 C16
r => ensures r is Ok, one_more(written(old(w)), written(final(w))), directives_told(written(final(w)).last(), id, self.parsed)
@fn HealthyServer::parser_options(self, id, w) : C13 C14 C15
r => ensures r is Ok, one_more(written(old(w)), written(final(w))), options_told(written(final(w)).last(), id, self.parsed)
@fn HealthyServer::parser_format_report(self, id, reports, w) : C18 C13 C14
r => ensures r is Ok, one_more(written(old(w)), written(final(w))),
   reports_told::<K>(written(final(w)).last(), id, old(self.sources), reports@),
@rewrite buf.write_all(b"\n") => crate::sv::newline_put(&mut buf)
@rewrite self.sources.write_report::<_, K, Report>(&mut buf, report) => crate::sv::report_drawn::<K>(self.sources, &mut buf, report)
@rewrite buf.write_fmt(core::format_args!("{}\n", annotation)) => crate::sv::text_put(&mut buf, annotation)
@rewrite String::from_utf8_lossy(&buf) => crate::sv::lossy_text(&buf)
@loop 0
it => invariant
    buf@ == all_drawn::<K>(&*self.sources, reports@.take(it.index@)),
    sep == (it.index@ > 0),
@tail 0
assert(reports@.take(it.index@ + 1).drop_last() =~= reports@.take(it.index@));
assert(buf@ =~= all_drawn::<K>(&*self.sources, reports@.take(it.index@ + 1)));
@fn HealthyServer::parser_resolve_spans(self, id, spans, w) : C18 C13 C14
r => ensures r is Ok, one_more(written(old(w)), written(final(w))),
   found_told(written(final(w)).last(), id, old(self.sources), spans@),
@closure 0 : &Span -> r: SpannedSource
ensures one_found(&*self.sources, *arg0, r)
@fn HealthyServer::parser_create_synthetic_spans(self, id, synthetic_spans, w) : C18 C13 C14
r => ensures r is Ok, one_more(written(old(w)), written(final(w))), keeps(old(self).sources, final(self).sources),
   final(self).parsed == old(self).parsed,
   named_told(written(final(w)).last(), id, final(self).sources, synthetic_spans@),
@loop 0
it => invariant
    keeps(old(self).sources, self.sources),
    self.parsed == old(self).parsed,
    all_named(self.sources, synthetic_spans@.take(it.index@), spans@),
@append
verus! {
spec fn one_found<'a, 's>(s: &parser::SyntheticSources<'a>, span: Span, r: SpannedSource<'s>) -> bool {
    exists|p: parser::Span, q: parser::SpannedSource<'s>| span_kept(p, span) && #[trigger] is_found(found(s, p), q)
        && r.file_name == q.file_name && r.start_line == q.start_line && r.end_line == q.end_line && r.content == q.content
}
spec fn all_found<'a, 's>(s: &parser::SyntheticSources<'a>, spans: Seq<Span>, rs: Seq<SpannedSource<'s>>) -> bool {
    rs.len() == spans.len() && forall|i: int| 0 <= i < rs.len() ==> one_found(s, spans[i], #[trigger] rs[i])
}
spec fn one_named<'a, 'b>(s: &parser::SyntheticSources<'a>, given: SyntheticSpan<'b>, r: Span) -> bool {
    exists|p: parser::Span| span_kept(p, r) && #[trigger] known(s, p) && found(s, p).file_name == Some(given.name@) && found(s, p).content == stripped(given.content@)
}
spec fn all_named<'a, 'b>(s: &parser::SyntheticSources<'a>, given: Seq<SyntheticSpan<'b>>, rs: Seq<Span>) -> bool {
    rs.len() == given.len() && forall|i: int| 0 <= i < rs.len() ==> one_named(s, given[i], #[trigger] rs[i])
}
}
@fn HealthyServer::book(self, id, param_directives, w) : C13 C14 C17 C12 C10 C11 C16
r => ensures r is Ok, one_more(written(old(w)), written(final(w))), booked_told(written(final(w)).last(), id, self.parsed, param_directives)
@before match booking::book(
assert(convert_to_spans ==> directives_kept(parsed_directives@, directives_to_book@));
@append
verus! {
/// the directives, booked with those options, or the errors of booking them
spec fn booked_or_reported<'i, 'a, 'b>(line: Seq<char>, id: Option<Id<'i>>, ds: Seq<Directive<'b>>, o: parser::Options<'a>, own: bool) -> bool {
    exists|out: Result<booking::BookingSuccess<'b>, BookingFailure>| #[trigger] booking::outcome(ds, o, out) && match out {
        Ok(s) => answered(line, id, |x: ResultData| x matches ResultData::BookedDirectives(b) && b.directives == s.directives),
        Err(f) => if own { all_reported(line, id, ds, f.errors@) } else { refused(line, id, 3, "Error reports"@, Some(f.errors)) },
    }
}
spec fn all_reported<'i, 'b>(line: Seq<char>, id: Option<Id<'i>>, ds: Seq<Directive<'b>>, es: Seq<IndexedReport>) -> bool {
    exists|rs: Vec<Report<'i>>| #[trigger] refused(line, id, 2, "Error reports"@, Some(rs)) && rs@.len() == es.len()
        && forall|i: int| 0 <= i < rs@.len() ==> reported(#[trigger] rs@[i], ds, es[i])
}
}
@append
verus! {
// ---- the answer to each method
type Ledger<'a> = Result<Parsed<'a>, Vec<parser::Error>>;
spec fn status_told<'i>(line: Seq<char>, id: Option<Id<'i>>) -> bool {
    answered(line, id, |x: ResultData| x == ResultData::Ok)
}
spec fn plugins_told<'i, 'a>(line: Seq<char>, id: Option<Id<'i>>, parsed: Ledger<'a>) -> bool {
    match parsed {
        Ok(p) => answered(line, id, |x: ResultData| x matches ResultData::Plugins(ps) && plugins_kept(p.plugins@, ps@)),
        Err(es) => ill(line, id, es@),
    }
}
spec fn directives_told<'i, 'a>(line: Seq<char>, id: Option<Id<'i>>, parsed: Ledger<'a>) -> bool {
    match parsed {
        Ok(p) => answered(line, id, |x: ResultData| x matches ResultData::RawDirectives(ds) && directives_kept(p.directives@, ds.directives@) && ds.warnings is None),
        Err(es) => ill(line, id, es@),
    }
}
spec fn options_told<'i, 'a>(line: Seq<char>, id: Option<Id<'i>>, parsed: Ledger<'a>) -> bool {
    match parsed {
        Ok(p) => answered(line, id, |x: ResultData| x matches ResultData::Options(o) && options_kept(p.options, *o)),
        Err(es) => ill(line, id, es@),
    }
}
spec fn reports_told<'i, 'a, 'r, K>(line: Seq<char>, id: Option<Id<'i>>, s: &parser::SyntheticSources<'a>, reports: Seq<Report<'r>>) -> bool {
    answered(line, id, |x: ResultData| x matches ResultData::Report(t) && t@ == text_of_utf8(all_drawn::<K>(s, reports)))
}
spec fn found_told<'i, 'a>(line: Seq<char>, id: Option<Id<'i>>, s: &parser::SyntheticSources<'a>, spans: Seq<Span>) -> bool {
    answered(line, id, |x: ResultData| x matches ResultData::ResolvedSpans(rs) && all_found(s, spans, rs@))
}
spec fn named_told<'i, 'a, 'b>(line: Seq<char>, id: Option<Id<'i>>, s: &parser::SyntheticSources<'a>, given: Seq<SyntheticSpan<'b>>) -> bool {
    answered(line, id, |x: ResultData| x matches ResultData::Spans(rs) && all_named(s, given, rs@))
}
spec fn booked_told<'i, 'a, 'b>(line: Seq<char>, id: Option<Id<'i>>, parsed: Ledger<'a>, params: Option<&Vec<Directive<'b>>>) -> bool {
    match parsed {
        Ok(p) => match params {
            None => exists|ds: Seq<Directive>| #[trigger] directives_kept(p.directives@, ds) && booked_or_reported(line, id, ds, p.options, true),
            Some(ds) => booked_or_reported(line, id, ds@, p.options, false),
        },
        Err(es) => ill(line, id, es@),
    }
}
/// the answer to a line
spec fn replied<'a>(before: &Server<'a>, after: &Server<'a>, request: Seq<char>, line: Seq<char>) -> bool {
    match decoded::<Request>(request) {
        None => exists|m: Seq<char>| #[trigger] refused::<Report>(line, None, -32700, m, None),
        Some(q) => if q.jsonrpc@ != "2.0"@ {
            exists|m: Seq<char>| #[trigger] refused::<Report>(line, q.id, -32600, m, None)
        } else {
            match (before.0, after.0) {
                (Err(reason), _) => refused::<Report>(line, q.id, 1, reason@, None),
                (Ok(h), Ok(k)) => match q.method {
                    RequestMethod::Status => status_told(line, q.id),
                    RequestMethod::ParserPlugins => plugins_told(line, q.id, h.parsed),
                    RequestMethod::ParserDirectives => directives_told(line, q.id, h.parsed),
                    RequestMethod::ParserOptions => options_told(line, q.id, h.parsed),
                    RequestMethod::ParserFormatErrors(p) => reports_told::<parser::ErrorKind>(line, q.id, h.sources, p.params@),
                    RequestMethod::ParserFormatWarnings(p) => reports_told::<parser::WarningKind>(line, q.id, h.sources, p.params@),
                    RequestMethod::ParserResolveSpans(p) => found_told(line, q.id, h.sources, p.params@),
                    RequestMethod::ParserCreateSyntheticSpans(p) => named_told(line, q.id, k.sources, p.params@),
                    RequestMethod::Book(p) => booked_told(line, q.id, h.parsed, match p.params { Some(v) => Some(&v), None => None }),
                },
                _ => false,
            }
        },
    }
}
/// the ledger stays what it was, and the sources known stay known
spec fn goes_on<'a>(before: &Server<'a>, after: &Server<'a>) -> bool {
    match (before.0, after.0) {
        (Ok(h), Ok(k)) => h.parsed == k.parsed && keeps(h.sources, k.sources),
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}
}
@fn Server::dispatch(self, request, w) : C13 C14 C18 C11
ensures
    one_more(written(old(w)), written(final(w))),
    goes_on(old(self), final(self)),
    replied(old(self), final(self), request@, written(final(w)).last()),
@fn Server::serve(self, r, w) : C13 C14 C11
requires written(old(w)).len() == 0, of_ledger(old(self), crate::tb::ledger_asked())
ensures false
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite reader.read_line(&mut buf) => crate::sv::line_read(&mut reader, &mut buf)
@rewrite std::process::exit( => crate::sv::exit_when(&reader, w, 
@loop 0
invariant
    written(w).len() == taken(&reader).len(),
    goes_on(old(self), self),
    forall|i: int| 0 <= i < written(w).len() ==> replied_in_turn(old(self), trimmed(taken(&reader)[i]), #[trigger] written(w)[i]),
@append
verus! {
/// answered by the server as it was when it got there
spec fn replied_in_turn<'a>(first: &Server<'a>, request: Seq<char>, line: Seq<char>) -> bool {
    exists|before: &Server<'a>, after: &Server<'a>| #[trigger] replied(before, after, request, line) && goes_on(first, before) && goes_on(before, after)
}
}
@append
verus! {
/// what the parser made of it is what is kept
spec fn taken_in<'a>(p: Result<parser::ParseSuccess<'a>, parser::ParseError>, l: Ledger<'a>) -> bool {
    match (p, l) {
        (Ok(s), Ok(p)) => p.directives == s.directives && p.options == s.options && p.plugins == s.plugins && p.warnings == s.warnings,
        (Err(e), Err(es)) => es == e.errors,
        _ => false,
    }
}
/// a server for that file
spec fn of_ledger<'a>(s: &Server<'a>, path: &std::path::Path) -> bool {
    match (as_read(path), s.0) {
        (Ok(sources), Ok(h)) => taken_in(as_parsed(&parser_of(&sources)), h.parsed),
        (Err(e), Err(reason)) => states(reason@, &e),
        _ => false,
    }
}
}
@append
verus! {
// ---- every reply is an answer of the protocol, with the identity of what was asked
proof fn refusal_answers<'r, 'i, T: Serialize>(request: Seq<char>, q: Request<'r>, line: Seq<char>, id: Option<Id<'i>>, code: int, message: Seq<char>, data: Option<T>)
    requires decoded::<Request<'r>>(request) == Some(q), in_json(request) is Map, id == q.id, refused(line, id, code, message, data),
    ensures answers(in_json(request), in_json(line)),
{
    let e = choose|e: ErrorResponse<'i, '_, T>| #[trigger] encoded(&e) == Some(line) && e.jsonrpc@ == "2.0"@ && e.id == id
        && e.error.coded() == code && e.error.told() == message && e.error.with() == data;
    error_answers(request, q, e, line);
}
proof fn result_of_it_answers<'r, 'i, 'a, 'b>(request: Seq<char>, q: Request<'r>, line: Seq<char>, v: ResultResponse<'i, 'a, 'b>)
    requires decoded::<Request<'r>>(request) == Some(q), in_json(request) is Map, v.id == q.id, v.jsonrpc@ == "2.0"@, responded(line, v),
    ensures answers(in_json(request), in_json(line)),
{
    match encoded(&v) {
        Some(t) => result_answers(request, q, v, line),
        None => {
            let m = choose|m: Seq<char>| #[trigger] refused::<Report>(line, v.id, -32603, m, None);
            refusal_answers::<Report>(request, q, line, v.id, -32603, m, None);
        }
    }
}
proof fn answer_answers<'r, 'i, 'a, 'b>(request: Seq<char>, q: Request<'r>, line: Seq<char>, id: Option<Id<'i>>, with: spec_fn(ResultData<'a, 'b>) -> bool)
    requires decoded::<Request<'r>>(request) == Some(q), in_json(request) is Map, id == q.id, answered(line, id, with),
    ensures answers(in_json(request), in_json(line)),
{
    let v = choose|v: ResultResponse<'i, 'a, 'b>| #[trigger] responded(line, v) && v.jsonrpc@ == "2.0"@ && v.id == id && with(v.result);
    result_of_it_answers(request, q, line, v);
}
proof fn reply_answers<'r, 'a>(before: &Server<'a>, after: &Server<'a>, request: Seq<char>, q: Request<'r>, line: Seq<char>)
    requires decoded::<Request<'r>>(request) == Some(q), in_json(request) is Map, replied(before, after, request, line),
    ensures answers(in_json(request), in_json(line)),
{
    if q.jsonrpc@ != "2.0"@ {
        let m = choose|m: Seq<char>| #[trigger] refused::<Report>(line, q.id, -32600, m, None);
        refusal_answers::<Report>(request, q, line, q.id, -32600, m, None);
    } else {
        match (before.0, after.0) {
            (Err(reason), _) => refusal_answers::<Report>(request, q, line, q.id, 1, reason@, None),
            (Ok(h), Ok(k)) => match q.method {
                RequestMethod::Status => answer_answers(request, q, line, q.id, |x: ResultData| x == ResultData::Ok),
                RequestMethod::ParserPlugins => match h.parsed {
                    Ok(p) => answer_answers(request, q, line, q.id, |x: ResultData| x matches ResultData::Plugins(ps) && plugins_kept(p.plugins@, ps@)),
                    Err(es) => ill_answers(request, q, line, q.id, es@),
                },
                RequestMethod::ParserDirectives => match h.parsed {
                    Ok(p) => answer_answers(request, q, line, q.id, |x: ResultData| x matches ResultData::RawDirectives(ds) && directives_kept(p.directives@, ds.directives@) && ds.warnings is None),
                    Err(es) => ill_answers(request, q, line, q.id, es@),
                },
                RequestMethod::ParserOptions => match h.parsed {
                    Ok(p) => answer_answers(request, q, line, q.id, |x: ResultData| x matches ResultData::Options(o) && options_kept(p.options, *o)),
                    Err(es) => ill_answers(request, q, line, q.id, es@),
                },
                RequestMethod::ParserFormatErrors(p) => answer_answers(request, q, line, q.id, |x: ResultData| x matches ResultData::Report(t) && t@ == text_of_utf8(all_drawn::<parser::ErrorKind>(h.sources, p.params@))),
                RequestMethod::ParserFormatWarnings(p) => answer_answers(request, q, line, q.id, |x: ResultData| x matches ResultData::Report(t) && t@ == text_of_utf8(all_drawn::<parser::WarningKind>(h.sources, p.params@))),
                RequestMethod::ParserResolveSpans(p) => answer_answers(request, q, line, q.id, |x: ResultData| x matches ResultData::ResolvedSpans(rs) && all_found(h.sources, p.params@, rs@)),
                RequestMethod::ParserCreateSyntheticSpans(p) => answer_answers(request, q, line, q.id, |x: ResultData| x matches ResultData::Spans(rs) && all_named(k.sources, p.params@, rs@)),
                RequestMethod::Book(p) => match h.parsed {
                    Err(es) => ill_answers(request, q, line, q.id, es@),
                    Ok(l) => match p.params {
                        None => {
                            let ds = choose|ds: Seq<Directive>| #[trigger] directives_kept(l.directives@, ds) && booked_or_reported(line, q.id, ds, l.options, true);
                            booking_answers(request, q, line, q.id, ds, l.options, true);
                        }
                        Some(ds) => booking_answers(request, q, line, q.id, ds@, l.options, false),
                    },
                },
            },
            _ => {}
        }
    }
}
proof fn ill_answers<'r, 'i>(request: Seq<char>, q: Request<'r>, line: Seq<char>, id: Option<Id<'i>>, errors: Seq<parser::Error>)
    requires decoded::<Request<'r>>(request) == Some(q), in_json(request) is Map, id == q.id, ill(line, id, errors),
    ensures answers(in_json(request), in_json(line)),
{
    let rs = choose|rs: Vec<Report<'i>>| #[trigger] refused(line, id, 2, "Error reports"@, Some(rs)) && rs@.len() == errors.len()
        && forall|i: int| 0 <= i < rs@.len() ==> error_kept(errors[i], #[trigger] rs@[i]) && rs@[i].annotation is None;
    refusal_answers(request, q, line, id, 2, "Error reports"@, Some(rs));
}
proof fn booking_answers<'r, 'i, 'a, 'b>(request: Seq<char>, q: Request<'r>, line: Seq<char>, id: Option<Id<'i>>, ds: Seq<Directive<'b>>, o: parser::Options<'a>, own: bool)
    requires decoded::<Request<'r>>(request) == Some(q), in_json(request) is Map, id == q.id, booked_or_reported(line, id, ds, o, own),
    ensures answers(in_json(request), in_json(line)),
{
    let out = choose|out: Result<booking::BookingSuccess<'b>, BookingFailure>| #[trigger] booking::outcome(ds, o, out) && match out {
        Ok(s) => answered(line, id, |x: ResultData| x matches ResultData::BookedDirectives(b) && b.directives == s.directives),
        Err(f) => if own { all_reported(line, id, ds, f.errors@) } else { refused(line, id, 3, "Error reports"@, Some(f.errors)) },
    };
    match out {
        Ok(s) => answer_answers(request, q, line, id, |x: ResultData| x matches ResultData::BookedDirectives(b) && b.directives == s.directives),
        Err(f) => if own {
            let rs = choose|rs: Vec<Report<'i>>| #[trigger] refused(line, id, 2, "Error reports"@, Some(rs)) && rs@.len() == f.errors@.len()
                && forall|i: int| 0 <= i < rs@.len() ==> reported(#[trigger] rs@[i], ds, f.errors@[i]);
            refusal_answers(request, q, line, id, 2, "Error reports"@, Some(rs));
        } else {
            refusal_answers(request, q, line, id, 3, "Error reports"@, Some(f.errors));
        },
    }
}
}
@lemma refusal_answers : C13 C14
@lemma result_of_it_answers : C13 C14
@lemma answer_answers : C13 C14
@lemma ill_answers : C13 C14
@lemma booking_answers : C13 C14
@lemma reply_answers : C13 C14
@fn HealthyServer::new(sources, parser) : C14 C15
r => ensures taken_in(as_parsed(parser), r.parsed)
@fn serve(path) : C13 C14
requires path == crate::tb::ledger_asked()
ensures false
