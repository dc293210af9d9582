import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":mech,"where":"; ".join(files)}]}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
ACC="rust/src/api/booking/accumulator.rs"; BK="rust/src/api/booking.rs"; TY="rust/src/api/types.rs"; SRV="rust/src/api/server.rs"; RPC="rust/src/api/json_rpc.rs"
RAW="rust/src/api/types/raw.rs"; BD="rust/src/api/types/booked.rs"; PC="rust/src/api/types/parser_type_conversions.rs"; SER="rust/src/api/types/serializers.rs"; BT="rust/src/api/booking/types.rs"; BTC="rust/src/api/types/booking_type_conversions.rs"; RUN="rust/src/bin/limabean/run.rs"; POD="rust/src/bin/limabean-pod/main.rs"
T2="The two existing tests book two three-directive ledgers that differ only in one amount; they look at whether one error comes back. "
p("C01","Accounts can only be used between their open and their close",
"When a ledger is booked, every posting, balance assertion and pad (for either of its accounts) whose account is not open at that point in directive order (never opened, or closed earlier) is rejected with an error attributed to the first such posting or to that directive, and one on an account that has been closed also refers to the closing directive. Opening an account that is open or was closed, and closing an account that is not open, are likewise rejected with an error attributed to that directive. A directive whose accounts are all open at that point is never rejected for account lifecycle. (What happens to an account after an attempt to open it again has been rejected is not part of this.)",
["histories","inputs"],"for every sequence of directives (open, close, transaction, balance, pad in any order and number) over any account names",
T2+"No test closes an account, uses an unopened one, or reopens one; the guarantee quantifies over all histories.",[ACC],
"per-ledger tables of open accounts, closed accounts and account state, consulted and updated directive by directive",
[{"name":"open/closed account tables","meaning":"which accounts are open or closed now, and the directive that made them so"}])
p("C02","An account's declared currencies are enforced on every use",
"If an account was opened with a list of currencies, a posting of a transaction to it (also one whose currency was inferred) or a balance assertion on it in any other currency is rejected, with an error attributed to the first such posting or to that directive and referring to the account's open directive. A currency in the list, or any currency when the account was opened without a list, is never rejected as incompatible.",
["inputs","histories"],"for every open directive, currency list, posting and balance assertion",
T2+"No test declares currencies.",[ACC],"allowed-currency set kept per account since its open; consulted for every booked posting and every balance assertion",
[{"name":"allowed currencies","meaning":"set declared by open; empty means unrestricted"}])
p("C03","A balance assertion passes exactly when within tolerance",
"A balance assertion on an open account with no pad pending is reported as failing if and only if the absolute difference between the asserted amount and the accumulated amount in that currency exceeds the tolerance. The tolerance is the one written on the directive if any, otherwise twice the ledger's inferred-tolerance multiplier (default 0.5) times one unit in the last decimal place of the asserted amount, and zero for an amount with no decimal places. The reported error states the difference as asserted minus accumulated.",
["inputs","histories"],"for every amount, decimal scale, explicit tolerance, multiplier option and prior history of postings",
T2+"One passing amount and one failing amount at one scale, with the default multiplier; nothing at the boundary, with explicit tolerance, with scale zero, or with the option set.",[ACC],
"effective tolerance, then margin = asserted - accumulated compared in absolute value against it",[{"name":"positions per account","meaning":"units accumulated from postings, pads and localisation adjustments"}])
p("C04","A balance assertion covers the account and exactly its sub-accounts",
"The accumulated amount a balance assertion is checked against is the sum, in the asserted currency only, over the named account and every account whose name extends it by further colon-separated components. Accounts which merely share a textual prefix, parent accounts, sibling accounts and other currencies never contribute.",
["inputs","histories"],"for every set of account names, currencies and posted amounts",
T2+"Both tests have a single pair of unrelated accounts, so roll-up and name boundaries are never exercised.",[ACC],
"name-prefix test on component boundary used to select the accounts whose units in the asserted currency are summed",None)
p("C05","A pad inserts exactly the transaction that makes the next balance hold",
"When a balance assertion follows a pad for the same account (from a source which is not that account nor below it) and the accumulated amount is out of tolerance, the assertion succeeds, and the transaction placed immediately after that pad (with the pad's date and the padding flag) holds exactly two postings: the difference to the padded account and its negation to the source account, in the asserted currency. Both accounts' accumulated amounts change by exactly those postings, so the same assertion repeated straight afterwards holds. A pad serves at most one balance assertion.",
["histories","inputs"],"for every history of pads, balances and transactions on any accounts, with other directives interleaved",
T2+"No test contains a pad.",[ACC],
"pending pad remembered per account with the position of its placeholder transaction, which the next balance fills in",[{"name":"pending pad","meaning":"position and directive of the pad awaiting a balance on that account"}])
p("C06","Every pad that adjusts nothing is reported",
"Booking fails with an error attributed to each pad directive that did not adjust a balance: because the next balance assertion on its account already held, because another pad for the same account came before any balance assertion (the error refers to that second pad, which is then not in effect either), or because no balance assertion followed. A pad which did adjust a balance assertion is never reported as unused.",
["histories"],"for every sequence of pads and balance assertions over any accounts",T2+"No test contains a pad.",[ACC],
"pending pad is taken by the next balance or pad; leftovers are reported at the end",[{"name":"pending pad","meaning":"as C05"}])
p("C07","A rejected directive leaves all account balances as they were",
"A transaction rejected for any reason (any posting on an account that is not open or in a disallowed currency, ambiguous or unbalanced amounts, unmatched lot reduction) changes no account's balance, lots, currencies, pending pad or open/closed status: every later directive is judged exactly as if the rejected transaction were absent. The same holds for a rejected close, for opening an account that is already open, and for a balance assertion rejected for its account or currency.",
["histories"],"for every ledger and every rejected directive at any position in it, compared with the ledger without it",
T2+"No test has a rejected directive followed by another directive.",[ACC],"validation of every posting precedes the update of any account; early returns precede mutation",None)
p("C08","A failed balance assertion does not cascade",
"After a balance assertion fails, the ledger continues as though the asserted amount were right: the total over the account and its sub-accounts in that currency becomes exactly the asserted amount, no other currency or other account changes, and so later assertions are reported only for discrepancies that arise afterwards. An assertion that passes changes no balance.",
["histories","inputs"],"for every history with any number of passing and failing assertions",T2+"Only one assertion per test, nothing after it.",[ACC],
"the account is adjusted by the margin on failure",[{"name":"positions per account","meaning":"as C03"}])
p("C09","Booked output corresponds one-to-one, in order, to the input directives",
"When booking succeeds the output contains for every input directive exactly one directive of the same kind, in the input order, carrying that directive's index, date, tags, links, metadata and kind-specific fields unchanged, and for each pad one additional transaction immediately after it with the pad's index, date, tags, links and metadata. Nothing else appears and nothing is dropped, reordered or merged.",
["inputs","histories"],"for every successful ledger, whatever the mixture of the twelve directive kinds",T2+"The directives produced are not looked at.",[ACC,BD],
"directives are pushed in order with their index; non-booked kinds are cloned unchanged",None)
p("C10","Booking succeeds exactly when no directive was rejected, and reports all errors",
"Booking yields booked directives if and only if there was no error whatsoever; otherwise it yields no directives but the list of all errors, one for each rejected or failing directive and unused pad, in the order in which processing the directives gives rise to them (an unused pad at the next balance or pad of its account; pads left at the end come last, in any order). Every error names the index of the directive (and posting, where one posting is at fault) which caused it, and an index always lies within the ledger.",
["histories","inputs"],"for every ledger with any number and combination of faults",T2+"At most one error and its index is not looked at.",[ACC,TY],
"errors are accumulated; success only when the list is empty",None)
p("C11","Booking and the server never crash on any well-formed ledger",
"For every ledger the parser accepts, and every well-formed list of directives sent as parameters (amounts within the decimal range), booking terminates with either a result or a list of errors: it never panics or ends the server, whatever the order of the directives, and the server stays able to answer further requests.",
["inputs","histories"],"for every directive list, including pads whose source account was never opened or was closed, booking methods of every kind, and directives in any order",
"Two ledgers are booked. A panic depends on a history that leads to an assumption being violated (a missing account, a directive index out of range, a placeholder that is not where it was left).",[ACC,BK,SRV,PC],
"unwrap, indexing and panic sites in booking and in error resolution",None)
p("C12","The booking method applied is the account's, else the ledger's, else strict",
"Reductions of lots in an account are booked with the method given on that account's open directive, otherwise with the ledger's booking-method option, otherwise strictly. A method which is not supported is never applied: an account or option naming one is booked strictly instead, and booking still goes ahead.",
["inputs","configurations"],"for every combination of option, open directive booking method and lot history",T2+"No cost, lot, option or booking method appears in any test.",[ACC,BK,BT],
"default from options, overridden at open, looked up per account when booking",[{"name":"booking method per account","meaning":"method fixed when account was opened"}])
p("C13","Each request line gets exactly one response line, with its id",
"For every line of input (valid Unicode text) the server writes exactly one line: a JSON-RPC 2.0 object with exactly one of result and error, carrying the id of the request (null when the request has none or could not be parsed), in the order of the requests, and only ends at the end of input. A line that is not a well-formed request, names an unknown method or lacks required parameters is answered with error -32700, and an otherwise well-formed request whose protocol version is not 2.0 with error -32600, whatever its method.",
["histories","inputs"],"for every sequence of lines of input, every method and every state of the ledger (good, unparseable, unreadable)",
"No test starts the server.",[SRV,RPC],"read line, dispatch, write one response; every path through every method writes once",None)
p("C14","A bad ledger is reported by every request that needs it",
"If the ledger file cannot be read, every well-formed request is answered with error code 1 and the reason. If it cannot be parsed, requests for directives, options, plugins and booking are each answered with error code 2 and one report per parser error (message, reason and location), while status and formatting requests still succeed; no response ever presents a partly parsed ledger as a result. Booking errors are answered with error code 2 when the ledger's own directives were booked and with code 3 and directive indexes when directives were passed as parameters.",
["inputs","configurations"],"for every ledger file, readable or not, parseable or not, and every method",
"No test starts the server or uses a faulty ledger.",[SRV,RPC,PC],"server state is decided once at start; each method branches on it",None)
p("C15","Parsed directives, options and plugins are conveyed faithfully",
"The directives, options and plugins reported for a ledger are exactly those written in it, in the parser's order: every field of every directive kind, every posting's account, amount, currency, cost, price and flag, tags, links and metadata of every value kind, keeps its value, and absent fields stay absent. Nothing is swapped, defaulted, rounded or dropped.",
["inputs"],"for every ledger text: all twelve directive kinds with every combination of optional fields, all metadata value kinds and all options",
T2+"The tests build only opens, one transaction and one balance, and look only at the error count.",[PC,RAW,SER],
"field-by-field conversion from parser types to wire types",None)
p("C16","Directives survive the wire: sending them back changes nothing",
"Booking the list of directives that the server reported for a ledger, sent back as parameters in JSON, gives the same booked directives or the same errors at the same directives as booking the ledger directly. In particular dates, exact decimal digits, all metadata value kinds, strings with any characters, locations and optional fields survive encoding and decoding.",
["inputs"],"for every ledger that parses",
"No test encodes or decodes anything.",[SER,RAW,TY,SRV],"serialisers and deserialisers for directives, metadata values and spans are mutually inverse",None)
p("C17","Booking errors point at the source of the faulty directive or posting",
"When the ledger's own directives are booked, each error is reported at the source location of the directive at fault, or of the posting at fault with its transaction as context, is titled by the kind of that element, and each related directive (an earlier open, a close, another pad) is reported with its kind and its own source location. The reason and any annotation are passed on unchanged.",
["inputs","histories"],"for every ledger that fails to book and every error it gives rise to",
"No test looks at a span, context or related element.",[PC,TY],"index of directive and posting resolved against the directive list",None)
p("C18","Source locations and synthetic sources resolve to the right text",
"Each location requested is answered by file, line range and content of that location (trailing white space aside), one answer per location and in order. Each named fragment registered as a synthetic source is answered by a new location, in order, which resolves to that name and exactly that content, and remains valid whatever is registered later; reports are formatted in order, each followed by its annotation if any.",
["histories","inputs"],"for every sequence of registrations and look-ups with any names and contents",
"No test uses spans.",[SRV,PC],"each list element is mapped one-to-one, in order, through the parser's source store",None)
p("C19","The launcher passes on the user's arguments and picks the right runtime",
"The launcher, unless asked for its own health report, runs the program with the user's arguments, complete, in order and unaltered, as the last arguments after its own. The runtime is chosen by the environment (values that are text) in the documented precedence: a local source root, else an uberjar given in the environment, else one fixed at build time, else the released version equal to the launcher's own; extra dependencies are added only when not running from an uberjar.",
["configurations","inputs"],"for every argument list and every combination of the environment variables",
"No test runs the launcher.",[RUN,"rust/src/bin/limabean/main.rs"],"environment decides the runtime; command line built as fixed prefix plus arguments",None)
p("C20","Booked postings carry exactly what the user wrote plus what was inferred",
"Each posting of a booked transaction refers to the posting it came from and keeps that posting's account, flag, tags, links and metadata, in posting order; units, currency and (for a posting not at cost) price written by the user are kept exactly, and amounts left out are inferred so that the transaction balances. A posting at cost appears as one posting per lot it creates or reduces, each carrying that lot's date, per-unit and total cost, currency, label and merge marker, with the units of the lots adding up to the units of the posting.",
["inputs","histories"],"for every transaction with any number of postings, any missing amounts, and any lots held",
T2+"Booked postings are not looked at.",[ACC,BT,BTC,BD],"each booked posting is built from its raw posting and its interpolated counterpart, paired by position",None)
p("C21","Transactions balance, or not, on exactly what is written and held",
"Whether a transaction is booked or rejected, which amounts are filled in and which lots are reduced is what the booking library (limabean-booking) decides when given exactly: the transaction's date; the account, units, currency, cost and price written in each posting; the tolerance options of the ledger; the lots held by each account at that point; and the booking method in force for it. When the library refuses it (as out of balance, ambiguous, or for lack of a lot), it is rejected with the library's reason, attributed to the transaction, and no account's lots change; when it accepts, and no posting is rejected for its account or currency, each account posted to holds afterwards exactly the lots the library worked out, and no other account's lots change.",
["inputs","histories"],"for every transaction with any amounts, costs and prices written or left out, every history of lots and every tolerance option",
T2+"The one transaction balances, has no cost and no price, and no option is set.",[ACC,BT,BK],"postings, lots, methods and tolerances are handed to limabean-booking through accessor traits; its result replaces the lots of the accounts posted to",
[{"name":"lots per account","meaning":"as the library left them after the last transaction booked, pads and assertions apart"}])
p("C22","Inventory, roll-up and journal figures equal what was booked",
"Every figure shown by the REPL for an account or filter (positions, roll-up, running totals in a journal) equals the sum of the booked postings selected, per currency and per cost.",
["inputs"],"for every ledger and filter","The Clojure tests cover a few ledgers with expected output.",["clj/src/limabean/core/inventory.clj","clj/src/limabean/core/rollup.clj","clj/src/limabean/core/journal.clj"],
"Clojure reducers and transducers over booked directives",None)
p("C23","Filters select exactly the directives and postings they describe",
"Each filter (by account, sub-account, date range, currency, payee, combination) keeps exactly the directives or postings that satisfy its description.",
["inputs"],"for every ledger and filter combination","Sampled by a few Clojure tests.",["clj/src/limabean/core/filters.clj","clj/src/limabean/core/xf.clj"],"Clojure predicates and transducers",None)
p("C24","Plugins run in the declared order on all directives, before booking",
"Raw plugins declared in the ledger are applied to the unbooked directives in the order of declaration, and booked plugins likewise after booking; a failing plugin is reported and never silently skipped.",
["inputs","configurations"],"for every ledger and every set of plugins","A few Clojure tests with fixed plugins.",["clj/src/limabean/adapter/loader.clj","clj/src/limabean/adapter/plugins.clj"],"Clojure loader",None)
p("C25","Tables are rendered faithfully",
"When the whole of standard input is the JSON of one cell, `limabean-pod tabulate` prints exactly the rendering of that cell, once and ending the line, and succeeds: every text handed over appears with its content unchanged, aligned as requested. Any other input (not text, not JSON, not a cell, or more than one) is rejected with an error on standard error and a non-zero exit, and nothing is printed.",
["inputs"],"for every cell tree in JSON, and everything else","No test tabulates.",[POD],"the reading and the rendering of cells are delegated to the tabulator crate; what is read, printed and how it ends is decided here",None)
p("C26","The health report is right about the runtime, and runs nothing else",
"`limabean health` examines the runtime which it would use to run the program (chosen by the environment just as for running it) without running the program. It ends successfully exactly when the command of that runtime (java or clojure) can be started, and succeeds, asked for its version, and, for an uberjar, that file is there. Otherwise it says on standard error what is wrong and ends with a failure code.",
["configurations"],"for every combination of the environment variables, of the state of java and clojure, and of the uberjar",
"No test runs the launcher.",["rust/src/bin/limabean/health.rs",RUN,"rust/src/bin/limabean/main.rs"],"each runtime's command is asked for its version; the uberjar is looked up",None)
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
open('properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
