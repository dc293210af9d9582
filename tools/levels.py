TECH_PROOF="contracts on the real functions, discharged by Verus; failing obligations replayed by search on the real binaries"
TECH_BOUNDED="bounded check of contracts' executable reading on the real binaries (stand-in; contracts partly discharged by Verus)"
BOUNDED_NOTE="Bounded: contracts evaluated on generated inputs run through the real binaries; not proved for all inputs."
_core=("Every obligation of the booking core (rust/src/api/booking/accumulator.rs) and the lemma stating the property over whole ledgers is discharged by Verus "
       "for all ledgers. Assumed: contracts of the dependencies limabean-booking and rust_decimal (exact arithmetic, overflow excluded), maps; "
       "serde_json's text stands for what serde is told (names and values; the derived encoders and decoders are under contract, contracts/wire.vc), which is searched on the real server.")
LEVELS={i:("proof",_core) for i in ("C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C12","C20","C21")}
LEVELS["C15"]=("proof","Every conversion from the parser's types (parser_type_conversions.rs) is under contract, field by field, and discharged for all values. "
  "So are the derived encoders of all its types (contracts/wire.vc). Assumed: the parser's accessors. Not proved: serde_json's text (bounded search).")
LEVELS["C17"]=("proof","The functions which turn booking errors into reports are under contract and discharged for all ledgers and errors; "
  "the derived encoder of reports too; not proved: serde_json's text (bounded search).")
_server=("The server's dispatch loop and every request handler (rust/src/api/server.rs, json_rpc.rs) are under contract: what is written to the output is a ghost "
  "sequence of lines, and the postconditions are discharged by Verus for all inputs. The derived encoders of what it answers and the derived decoders of requests, methods and parameters are under contract as well (lemmas request_of, request_taken). Assumed: serde_json's text stands for the "
  "value (`encoded`, `decoded`, `in_json`), serde's buffering of flattened and tagged values, the parser's accessors, and an output which can be written to: searched on the real server.")
for i in ("C13","C14","C18"): LEVELS[i]=("proof",_server)
LEVELS["C11"]=("proof","Verus shows for every function of the booking core, the conversions and the server that no panic site, arithmetic overflow, index or unwrap is reachable, "
  "and that the server's loop ends only at the end of input. Assumed: the dependencies (booking crate, parser, decimals within range) do not panic; "
  "that assumption is searched with generated ledgers and parameters on the real server (bounded).")
LEVELS["C19"]=("proof","The launcher's functions (rust/src/bin/limabean/run.rs, main.rs) are under contract and discharged for every environment and command line: "
  "which runtime is picked, the text of the dependencies, and that the command run carries the user's arguments, all, in order, last. Assumed: std's Command, environment "
  "and string formatting; the version and the built-in uberjar are constants about which nothing is assumed. "
  "Search: the real launcher with a recording stand-in for java and clojure.")
LEVELS["C16"]=("proof","Every encoder and decoder of what the ledger is made of is under contract and discharged by Verus: those which serde derives for every raw type (contracts/wire.vc) and "
  "the hand-written ones (serializers.rs: locations, values of metadata of every kind). Lemmas directives_back and directives_taken: what is decoded from an encoded ledger is the same directives, "
  "and it is never refused, unless a name has characters which are escaped (known finding). Assumed: serde's impls for std types and its buffering of flattened and tagged values, serde_json's text; "
  "that equal directives are booked alike is searched: ledgers reported by the real server, sent back and booked both ways.")
LEVELS["C25"]=("proof","limabean-pod's main and tabulate (rust/src/bin/limabean-pod/main.rs) are under contract and discharged for every input: what is printed is the cell which all of the input "
  "describes, nothing else may be printed, and the program gives up, with a failing code, only when there is none. Assumed: the tabulator crate reads and renders cells, clap reads the command line; "
  "not proved: that the cell is printed only once. Search: generated cells and spoilt ones through the real binary, compared with the rendering and with the texts handed over.")
LEVELS["C26"]=("proof","All of the launcher's health report (rust/src/bin/limabean/health.rs) and its main are under contract and discharged for every environment and command line: it returns "
  "only if what the runtime needs is there, gives up, with a failing code, only if it is not, runs nothing but for its version, and never starts the program (`exec` requires that no report is asked). "
  "Assumed: std's Command, Path and ExitStatus, and that asking twice gives the same answer; not proved: what is said on standard error. "
  "Search: the real launcher with java and clojure missing, not to be started, or ending with any code, and uberjars there or not.")
