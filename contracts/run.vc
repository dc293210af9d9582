@file bin/limabean/run.rs
@texts
@rename map mapped
@rename args given
@replace const LIMABEAN_CLJ_LOCAL_ROOT: &str => #[verus_verify] const LIMABEAN_CLJ_LOCAL_ROOT: &'static str
@replace const LIMABEAN_CLJ_DEPS: &str => #[verus_verify] const LIMABEAN_CLJ_DEPS: &'static str
@replace const LIMABEAN_UBERJAR: &str => #[verus_verify] const LIMABEAN_UBERJAR: &'static str
@struct Runtime
@append
use vstd::prelude::*;
use crate::ln::*;
use crate::vspec::*;
verus! {
broadcast use {crate::ln::texts, crate::vspec::listing_vec, crate::vspec::listing_iter};
/// the extra dependencies asked for
pub(crate) open spec fn extra() -> Seq<char> {
    match set_to("LIMABEAN_CLJ_DEPS"@) { Some(t) => " "@ + t, None => Seq::empty() }
}
pub(crate) open spec fn of_limabean(coord: Seq<char>) -> Seq<char> {
    "{:deps {io.github.tesujimath/limabean "@ + coord + "}}"@
}
/// as documented: a local source root, else an uberjar of the environment, else the one built in, else the version released
pub(crate) open spec fn picked(r: Runtime) -> bool {
    match (set_to("LIMABEAN_CLJ_LOCAL_ROOT"@), set_to("LIMABEAN_UBERJAR"@), jar_built_in()) {
        (Some(root), _, _) => r matches Runtime::Clojure(t) && t@ =~= of_limabean("{:local/root \""@ + root + "\"}"@ + extra()),
        (None, Some(jar), _) => r matches Runtime::Java(t) && t@ == jar,
        (None, None, Some(jar)) => r matches Runtime::Java(t) && t@ == jar,
        (None, None, None) => r matches Runtime::Clojure(t) && t@ =~= of_limabean("{:mvn/version \""@ + own_version() + "\"}"@ + extra()),
    }
}
/// one of the first n arguments straight after another
pub(crate) open spec fn has_pair(all: Seq<Seq<char>>, n: int, a: Seq<char>, b: Seq<char>) -> bool {
    exists|i: int| 0 <= i < n - 1 && #[trigger] all[i] == a && all[i + 1] == b
}
/// what the launcher adds comes before all the user's arguments
pub(crate) open spec fn carries<S>(c: &Command, r: Runtime, args: Seq<S>) -> bool {
    let all = arguments(c);
    let n = all.len() - args.len();
    n >= 0 && all.skip(n) =~= all_os(args) && match r {
        Runtime::Java(jar) => program(c) == "java"@ && has_pair(all, n, "-jar"@, jar@),
        Runtime::Clojure(deps) => program(c) == "clojure"@ && has_pair(all, n, "-Sdeps"@, deps@) && has_pair(all, n, "-m"@, "limabean.main"@),
    }
}
}
@fn warn_uberjar_extra_deps_ignored() : C19
ensures true
@fn Runtime::java(uberjar) : C19
r => ensures r == Runtime::Java(uberjar)
@fn Runtime::clojure(limabean_coord) : C19
r => ensures r matches Runtime::Clojure(t) && t@ =~= of_limabean(limabean_coord@)
@start
reveal_strlit("{:deps {io.github.tesujimath/limabean "); reveal_strlit("}}");
@fn Runtime::from_env() : C19
r => ensures picked(r)
@rewrite LIMABEAN_UBERJAR_BUILDTIME => crate::ln::built_in()
@rewrite VERSION => crate::ln::version()
@start
reveal_strlit(""); reveal_strlit(" "); reveal_strlit("\"}"); reveal_strlit("{:local/root \""); reveal_strlit("{:mvn/version \"");
@closure 0 : String -> r: String
ensures r@ =~= " "@ + arg0@
@fn Runtime::command(self, args) : C19
c => ensures carries(&c, *self, args@)
@rewrite JVM_OPTIONS => crate::ln::jvm_options()
@closure 1 : &S -> r: &OsStr
ensures os(r) == os(arg0)
@fn run_or_fail(cmd) : C19 C26
requires !health_asked()
ensures tried(program(&cmd), arguments(&cmd))
@rewrite std::process::exit( => crate::ln::leave(
@fn run(runtime, args) : C19 C26
requires !health_asked()
ensures launched(*runtime, args@)
@opaque args.iter().any( => crate::ln::either()
@append
verus! {
pub(crate) open spec fn launched<S>(r: Runtime, args: Seq<S>) -> bool {
    exists|c: &Command| tried(program(c), arguments(c)) && #[trigger] carries(c, r, args)
}
}

@file bin/limabean/health.rs
@texts
@rename map mapped
@struct Health
@append
use vstd::prelude::*;
use crate::ln::*;
use crate::vspec::*;
use super::run::picked;
verus! {
broadcast use {crate::ln::texts, crate::vspec::listing_vec, crate::vspec::listing_iter};
/// what the runtime needs is there
pub(crate) open spec fn healthy(r: Runtime) -> bool {
    match r {
        Runtime::Java(jar) => answers("java"@, version_asked()) == Some(true) && there(jar@),
        Runtime::Clojure(_) => answers("clojure"@, version_asked()) == Some(true),
    }
}
/// std::process::exit
#[verifier::external_body]
pub(crate) fn give_up(code: i32) -> !
    requires code != 0, health_asked(), exists|r: Runtime| #[trigger] picked(r) && !healthy(r)
{ unimplemented!() }
}
@fn check(runtime, verbose) : C26
requires picked(*runtime), health_asked()
ensures healthy(*runtime)
@fn check_clojure(verbose) : C26
requires exists|r: Runtime| #[trigger] picked(r) && r is Clojure, health_asked()
ensures answers("clojure"@, version_asked()) == Some(true)
@rewrite std::process::exit( => give_up(
@fn clojure_health() : C26
h => requires health_asked()
ensures h is Good <==> answers("clojure"@, version_asked()) == Some(true)
@fn check_java(uberjar, verbose) : C26
requires exists|r: Runtime| #[trigger] picked(r) && (r matches Runtime::Java(t) && t@ == uberjar@), health_asked()
ensures answers("java"@, version_asked()) == Some(true), there(uberjar@)
@rewrite std::process::exit( => give_up(
@fn java_health() : C26
h => requires health_asked()
ensures h is Good <==> answers("java"@, version_asked()) == Some(true)

@file bin/limabean/main.rs
@append
use vstd::prelude::*;
use crate::ln::*;
use crate::vspec::*;
verus! {
broadcast use {crate::ln::texts, crate::vspec::listing_vec, crate::vspec::listing_iter};
}
@fn main() : C19 C26
ensures
    !health_asked() ==> exists|r: Runtime| #[trigger] run::picked(r) && run::launched(r, given_to_launcher().skip(1)),
    health_asked() ==> exists|r: Runtime| #[trigger] run::picked(r) && health::healthy(r)
@start
broadcast use crate::ln::spelt_alike;
@rewrite std::env::args_os().collect::<Vec<_>>() => crate::ln::command_line()
@closure 0 : &std::ffi::OsString -> r: Option<&str>
ensures match r { Some(t) => as_text(*arg0) == Some(t@), None => as_text(*arg0) is None }
