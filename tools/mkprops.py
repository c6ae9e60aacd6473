"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ACC = "rust/src/api/booking/accumulator.rs"
BK = "rust/src/api/booking.rs"
SRV = "rust/src/api/server.rs"
RPC = "rust/src/api/json_rpc.rs"
RAW = "rust/src/api/types/raw.rs"
BKD = "rust/src/api/types/booked.rs"
PTC = "rust/src/api/types/parser_type_conversions.rs"
BTC = "rust/src/api/types/booking_type_conversions.rs"
SER = "rust/src/api/types/serializers.rs"
POD = "rust/src/bin/limabean-pod/main.rs"
RUN = "rust/src/bin/limabean/run.rs"
HEALTH = "rust/src/bin/limabean/health.rs"
MAIN = "rust/src/bin/limabean/main.rs"

TESTS = "The two existing tests book one balance assertion within and one beyond the inferred tolerance; "
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, technique=None, note=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, technique=technique, note=note, level=level))


MODEL = ("runtime monitoring of the real server: seeded random ledgers driven through limabean-pod, every answer judged by an online "
         "reference model of booking in exact arithmetic and by independent monitors over the trace of answers")
BOOKNOTE = ("black-box over JSON-RPC, both by file and by submitted directives; inputs the model cannot decide exactly (rounding at the "
            "28th digit, order-dependent inference) are counted inconclusive")

prop("C01", "Booked transactions balance",
     "Every transaction in a booked result balances: for each currency the weights of its postings (units, units at price, or units at cost) sum to zero within the tolerance the ledger's options and the numbers written imply. "
     "A transaction whose postings cannot be made to balance is reported, with the residual, and no result is given.",
     ["inputs", "configurations"], "all ledgers and submitted directives, priced and costed, with every combination of tolerance options",
     TESTS + "no transaction with a price, cost or tolerance option is ever weighed.",
     [ACC, BK], [("booking of a transaction and tolerance", ACC), ("tolerance from options", BK)],
     state=[("residual", "sum of posting weights per currency", ACC)], observe=["response to a book request"], technique=MODEL, note=BOOKNOTE)
prop("C02", "Interpolation keeps what was written and determines what was not",
     "Booking leaves every amount, currency, cost and price that was written exactly as written and fills each one left out with the single value that balances the transaction (a price beside a cost is ignored in favour of it, and is not among what is booked). "
     "When what was left out cannot be determined the transaction is reported instead, naming the posting, and nothing is guessed.",
     ["inputs"], "all transactions with any subset of numbers, currencies, costs and prices left out",
     TESTS + "every posting in them is complete.",
     [ACC, BTC, BKD], [("interpolation and conversion of the booked posting", ACC), ("price and cost conversion", BTC)],
     observe=["response to a book request"], technique=MODEL, note=BOOKNOTE)
prop("C03", "Lots are reduced by the booking method of their account",
     "A sale reduces exactly the lots its cost specification matches, chosen by the account's booking method (strict, strict with size, FIFO, LIFO, HIFO, or none), where the method is that of the account's open directive or else the ledger's default. "
     "Each posting that results carries the date, cost, currency and label of the lot it came from, and the sum of what is taken from lots is what was sold.",
     ["inputs", "histories", "configurations"], "all histories of purchases and sales under every booking method and matching specification",
     TESTS + "no lot is ever opened or reduced.",
     [ACC, BK, BKD, BTC], [("inventory update and booking method lookup", ACC), ("default booking method", BK), ("cost of the booked posting", BKD)],
     state=[("positions", "lots held by each account", ACC)], observe=["response to a book request"], technique=MODEL, note=BOOKNOTE)
prop("C04", "No account sells lots it does not hold",
     "A reduction is booked only if the account holds, at that point in date order, lots matching its specification in sufficient quantity; otherwise it is reported as unmatched, ambiguous or insufficient. "
     "Holdings always equal the sum of all booked changes to the account, whatever order they were written in, and a refused transaction changes none of them.",
     ["inputs", "histories"], "all histories of purchases, oversales, short sales, and refused transactions",
     TESTS + "no history with a sale is ever booked.",
     [ACC], [("inventory update on success only", ACC)], state=[("positions", "lots held by each account", ACC)],
     observe=["response to a book request"], technique=MODEL, note=BOOKNOTE)
prop("C05", "Accounts are used only while open",
     "A posting, balance assertion or pad naming an account that has not been opened by then, or has been closed, is reported, as are a second opening, a reopening, and a closing of what is not open. "
     "Each such report points at the directive or posting at fault and, where there was one, at the earlier opening or closing; and a refused directive has no effect on the account's state.",
     ["inputs", "histories"], "all histories of opens, closes, and uses of accounts",
     TESTS + "their single account is opened once and never closed.",
     [ACC], [("validation of accounts", ACC), ("open and close", ACC)],
     state=[("open and closed accounts", "which directive opened or closed each account", ACC)], observe=["response to a book request"], technique=MODEL, note=BOOKNOTE)
prop("C06", "Accounts hold only the currencies they were opened with",
     "Where an account was opened with a list of currencies, no booked posting, including those made by padding, puts any other currency into it. "
     "Each attempt, and a balance assertion in another currency, is reported at the posting or directive with the opening as related; an account opened without such a list takes any currency.",
     ["inputs"], "all ledgers whose accounts have currency constraints, and all postings, balances and pads upon them",
     TESTS + "no account in them has a currency constraint.",
     [ACC], [("currency validation", ACC)], state=[("allowed currencies", "set given when the account was opened", ACC)],
     observe=["response to a book request"], technique=MODEL, note=BOOKNOTE)
prop("C07", "Balance assertions are decided exactly",
     "A balance assertion passes if and only if the account together with all its subaccounts, and no account that merely shares a prefix of its name, holds at the start of that day the stated amount of the stated currency, within the explicit tolerance if one is stated and otherwise the one inferred from the options and the number written. "
     "One that does not pass is reported with what was accumulated and the difference.",
     ["inputs", "histories", "configurations"], "all account trees, amounts, tolerances and orders of directives",
     TESTS + "one account, one currency, two amounts.",
     [ACC, BK], [("balance", ACC), ("subaccount roll-up", ACC)], observe=["response to a book request"], technique=MODEL, note=BOOKNOTE)
prop("C08", "A pad makes the next balance true, and only that",
     "A pad inserts, directly after itself and at its date, the one transaction that makes the next balance assertion of its account true, drawing exactly the difference from its source account. "
     "A pad that is not needed because the assertion already holds or there is none, a second pad before the assertion, and a pad from a source that cannot serve are reported.",
     ["inputs", "histories"], "all interleavings of pads, balances and transactions over trees of accounts",
     TESTS + "no pad is ever booked.",
     [ACC], [("pad and balance", ACC), ("insertion of padding transactions", ACC)], state=[("pending pad", "pad awaiting a balance", ACC)],
     observe=["response to a book request"], technique=MODEL, note=BOOKNOTE)
prop("C09", "Booking loses and invents nothing",
     "The booked result contains every directive once, in date order (opens first and balances next within a day, otherwise as written), each with its own date, flag, payee, narration, tags, links, metadata and kind-specific fields unchanged and with its own provenance. "
     "Each written posting is represented in order, by itself or by the lots it reduced; apart from the padding transactions nothing is added.",
     ["inputs"], "all directives of every kind, in any order, with any annotations",
     TESTS + "they look only at whether booking succeeded.",
     [ACC, BKD, PTC, BTC, RAW], [("sorting and conversion", BK), ("booked posting and directive", BKD)], observe=["response to a book request"],
     technique=MODEL, note=BOOKNOTE)
prop("C10", "What is parsed is what was written",
     "The directives reported for a beanfile are those written in it: every field of every kind of directive has the value written, fields not written are absent, and every span reported covers exactly the text of the thing it belongs to. "
     "Dates, accounts, currencies, numbers, arithmetic, strings with escapes, booleans, tags and links in metadata and custom values keep their types.",
     ["inputs"], "all well-formed beanfiles: every kind of directive, optional field, layout and comment style",
     TESTS + "no parsed value is ever looked at.",
     [PTC, RAW, SER], [("conversion of parsed values", PTC), ("shape of the answer", RAW), ("serialization", SER)],
     observe=["response to a parser.directives request"],
     technique="runtime monitoring: generated ledgers rendered in random layouts, the server's answer compared field by field and span by span with the generator's own record of what it wrote",
     note="black-box over JSON-RPC")
prop("C11", "Options and plugins are reported as set and honoured in booking",
     "Every option reported has the value set in the beanfile, or its default when not set, and every plugin is reported with its configuration in the order written; an unknown or malformed option is a parse error at its place. "
     "Booking obeys the options set: booking method, tolerances, and names of the account types.",
     ["configurations", "inputs"], "all combinations of options and plugins",
     TESTS + "they set no option.",
     [PTC, RAW, BK, SRV], [("conversion of options and plugins", PTC), ("options used in booking", BK)], observe=["responses to parser.options, parser.plugins and book requests"],
     technique="runtime monitoring: random option sets, reported values compared with those written, and booking judged by the reference model under those options",
     note="black-box over JSON-RPC")
prop("C12", "Submitting the parsed directives books the same as the file",
     "Booking the directives the server itself reported, submitted back verbatim or in any equivalent JSON, gives the same outcome as booking the file: the same directives and amounts, or the same complaints about the same directives. "
     "This holds also for directives changed or made afresh by a caller with no spans of their own; tags, links, metadata and currencies given as none at all are the same as not given.",
     ["inputs", "histories"], "all ledgers, all equivalent JSON renderings (key order, white space, escapes, null for absent), spans kept or dropped",
     TESTS + "no directive is ever submitted.",
     [RAW, SER, SRV, PTC, ACC], [("deserialization of directives", RAW), ("number and cost serializers", SER), ("book request", SRV)],
     observe=["responses to book requests with and without parameters"],
     technique="runtime monitoring: metamorphic round trip, the answer for the file against the answer for its directives submitted in rewritten JSON, and for made directives against the reference model",
     note="names with JSON escapes are a recorded finding")
prop("C13", "Every mistake is reported, at its place, and nothing else",
     "When directives break the rules the answer is the complete list of independent complaints, one for each, in date order, each naming its kind, its reason and the span of the directive or posting at fault, with related earlier directives where they matter (pads never used come last). "
     "A correct ledger yields no complaint, and a ledger with complaints yields no result.",
     ["inputs", "histories"], "all ledgers with any number of mistakes of every kind",
     TESTS + "they see only that some error arose.",
     [ACC, PTC, SRV], [("collection of complaints", ACC), ("conversion to reports", PTC), ("error response", SRV)], observe=["response to a book request"],
     technique=MODEL, note=BOOKNOTE)
prop("C14", "The same question always gets the same answer",
     "The answer to a request depends only on the beanfile as it was when the server started and on the request: not on the process, its environment or locale, the requests before it, or later changes to the files. "
     "Asking never changes what is known: booking submitted directives, creating synthetic spans or failing requests leave later answers as they were.",
     ["histories", "inputs", "configurations"], "all sequences of requests, processes, environments, and rewriting of files meanwhile",
     TESTS + "no request is ever repeated.",
     [SRV, ACC, BK], [("state fixed at start", SRV), ("ordered collections", ACC)], observe=["responses over several processes and repeated requests"],
     technique="runtime monitoring: differential histories, the same questions asked repeatedly amid other requests by several processes in different environments, answers compared byte for byte",
     note="the order of currencies in one message is a recorded finding")
prop("C15", "One answer for each request, in order, carrying its id",
     "Each line received is answered by exactly one line, in order and before the next is needed, a JSON-RPC 2.0 response echoing the request's id exactly and holding either a result or an error; requests that are malformed, of the wrong version or for an unknown method are answered with the standard error codes. "
     "At end of input the server exits cleanly, whatever the line endings, lengths, or sizes of pieces in which the input came.",
     ["histories", "schedules", "inputs"], "all sequences of valid and invalid requests, all fragmentations of input, ids of every kind",
     TESTS + "the server is never run.",
     [SRV, RPC], [("request loop", SRV), ("request and response types", RPC)], observe=["standard output and exit status of the server"],
     technique="runtime monitoring: online protocol checker over interactive, batched and fragmented conversations with the real process",
     note="schedules of input arrival are sampled")
prop("C16", "No input brings the server down",
     "Whatever the beanfile and the requests contain, the server neither panics nor exits nor hangs: it answers every request with a result or an error.",
     ["inputs"], "all beanfiles and request lines: mutated, truncated, binary, huge, deeply nested",
     TESTS + "no malformed input is ever given.",
     [SRV, RPC, PTC, ACC, POD], [("error responses", SRV)], observe=["exit status, standard error, number of answers"],
     technique="runtime monitoring under fuzzing: crash and hang monitors over mutated beanfiles, mutated requests and extremes of size and depth, in a build with overflow checks",
     note="panics in arithmetic beyond 28 digits are recorded findings; safe Rust only, so memory sanitizers have nothing to add")
prop("C17", "Spans resolve to the text they cover",
     "Resolving spans gives, in order, for each the file, the first and last line numbers, and the text it covers (less white space at its end) in the files as read at start; a span that covers no text resolves to none. "
     "Synthetic spans created for given names and text resolve to exactly that for as long as the server runs, whatever else is created meanwhile.",
     ["inputs", "histories"], "all spans reported, arbitrary triples, and all histories of synthetic creation",
     TESTS + "no span is ever resolved.",
     [SRV, PTC, RAW], [("resolve spans and create synthetic spans", SRV), ("span conversion", PTC)], observe=["responses to parser.resolve-spans and parser.create-synthetic-spans"],
     technique="runtime monitoring: every span of everything parsed and arbitrary ones resolved, judged against the files' own bytes and a model of synthetic sources",
     note="text ending in a character of several bytes is a recorded finding")
prop("C18", "Formatted reports show every complaint against its source",
     "Formatting errors or warnings gives for each report its kind and message, its reason, the file and line of its place with the source text quoted, and each context and related place and annotation it carries; each in the order given. "
     "Formatting depends only on the reports given, whether they came from the server or were composed by a caller.",
     ["inputs"], "all reports, from booking and composed, with any number of contexts, related places and annotations",
     TESTS + "nothing is ever formatted.",
     [SRV, PTC, RAW], [("format errors and warnings", SRV), ("report conversion", PTC)], observe=["responses to parser.format-errors and parser.format-warnings"],
     technique="runtime monitoring: reports from booking and composed ones formatted by the real server, the drawing parsed back and checked for each part",
     note="the drawing's layout is left free, but a report in a list is drawn as it is alone, a blank line apart from the next")
prop("C19", "Logging never disturbs the conversation",
     "The answers are the same with logging off or on at any level; the log, when its level admits it, records every request received and response sent, and goes only to the file asked for, adding to what is there. "
     "Nothing is written anywhere but the answers and the log asked for, save that a log or level which cannot be had is complained of.",
     ["configurations", "histories"], "all conversations, log levels and log destinations",
     TESTS + "logging is never on.",
     [POD, SRV], [("log set-up", POD), ("log of requests and responses", SRV)], observe=["standard output, and the log file"],
     technique="runtime monitoring: the same conversation with and without a log at each level, answers compared and the log parsed",
     note="black-box")
prop("C20", "Tables are drawn completely and aligned",
     "Any table of cells submitted for drawing, with cells left-, right-, centre- or number-aligned, stacked or in rows, nested to any depth and empty, is drawn with every cell's text exactly once, in place, columns aligned by their own rule and numbers on their decimal point. "
     "Input that is no table is refused with a message and a failing exit status.",
     ["inputs"], "all cell trees of any size and nesting, with text in any script",
     TESTS + "no table is ever drawn.",
     [POD, "rust/src/bin/limabean-pod/errors.rs"], [("tabulate command", POD)], observe=["standard output and exit status of tabulate"],
     technique="runtime monitoring: generated cell trees drawn by the real command, judged against an independent reference drawing",
     note="black-box")
prop("C21", "The launcher runs exactly what the environment asks for",
     "The launcher starts, once, clojure on a configured source tree, or else java on the configured jar, that of the environment rather than one it was told of when it was built, or else clojure with the release of its own version, together with any extra dependencies configured; it passes the user's arguments, environment, directory and standard streams through unchanged and ends as what it started ends. "
     "When the program to start is missing it says so and fails, and extra dependencies that cannot be used are warned of.",
     ["configurations", "inputs"], "all environments (jar configured or not, tools present or not, verbose or not) and argument lists",
     TESTS + "the launcher is never run.",
     [RUN, MAIN], [("run", RUN)], observe=["arguments and environment received by stand-ins, exit status"],
     technique="runtime monitoring: the launcher run with recording stand-ins for java and clojure, the recorded calls judged against a model",
     note="stand-ins only; no Clojure runtime exists here")
prop("C22", "Included files act as one ledger, each in its own place",
     "A ledger spread over included files, by name or pattern, at any depth, gives the same directives and booking as its parts taken together, every span naming the file its text is in. "
     "Tags and metadata pushed and popped apply to exactly the directives in their scope, also across files; an include that is missing or repeated is treated as the language says.",
     ["inputs", "configurations"], "all trees of included files and all placements of pushes and pops",
     TESTS + "a single file with no include.",
     [SRV, PTC, RAW], [("loading of sources", SRV), ("tags and metadata of a directive", PTC)], observe=["responses to parser.directives, book, resolve-spans"],
     technique="runtime monitoring: ledgers scattered over generated file trees, answers judged against the generator's record and the reference model",
     note="black-box")
prop("C23", "A ledger that cannot be read is reported, never half answered",
     "When a beanfile or an included one does not parse, every request that depends on it is answered with the same complete list of errors, each at its place and with all it lies within, and never with partial data, while other requests are answered as usual. "
     "When the beanfile cannot be read at all, every request is answered with an error naming it.",
     ["inputs", "fault_sequences"], "all ways of being unreadable or unparsable, at any place of the file tree, and all requests thereafter",
     TESTS + "no unparsable file is ever given.",
     [SRV, PTC], [("parse errors kept and answered", SRV)], observe=["responses, standard error and exit status"],
     technique="runtime monitoring with injected faults: missing, unreadable, non-text and malformed files planted in file trees, all answers checked against each other and the planted faults",
     note="black-box")
prop("C24", "A failed balance assertion explains itself exactly",
     "The report of a failed balance assertion shows what was asserted, what was accumulated and the difference, and the postings of that currency to the account and its subaccounts since its previous assertion, in order, each with its date, subaccount where several are involved, amount, running total and description. "
     "The figures shown start from the previous assertion and add up.",
     ["inputs", "histories"], "all histories ending in a failed balance assertion",
     TESTS + "they see only that the assertion failed.",
     [ACC, PTC], [("balance report", ACC), ("diagnostics window", ACC)], observe=["error response to a book request: reason, context and annotation"],
     technique=MODEL, note=BOOKNOTE)
prop("C25", "A refused directive has no effect on the others",
     "Removing from a ledger the directives complained of leaves the rest of the ledger booked, or complained of, exactly as it was with them. ",
     ["inputs", "histories"], "all ledgers with mistakes, and each set of refused directives removed",
     TESTS + "no second ledger is ever compared.",
     [ACC], [("state changed on success only", ACC)], observe=["responses to book requests"],
     technique="runtime monitoring: metamorphic comparison of the complaints about a ledger with those about the ledger less what was refused",
     note="complaints which by nature concern the lack of another directive (unused pads, failed balances) are judged by the model instead")
prop("C26", "Layout and order of writing do not matter",
     "Two beanfiles holding the same directives, differing only in white space, comments, line endings, number formatting or the order of directives of different dates, give the same directives and the same booking but for the spans.",
     ["inputs"], "all pairs of layouts of the same directives",
     TESTS + "no second layout is ever compared.",
     [SRV, PTC, BK, ACC], [("parsing and sorting", SRV)], observe=["responses to parser.directives and book requests"],
     technique="runtime monitoring: metamorphic comparison of the same directives in two random layouts",
     note="black-box")
prop("C27", "Amounts are exact decimals from end to end",
     "Every number written with up to 28 digits comes through parsing, options, booking, submission and serialization with exactly its value and its written scale, and sums of them are exact: there is no binary rounding anywhere.",
     ["inputs"], "all decimal numbers of up to 28 digits, arithmetic upon them, and amounts, costs, prices, tolerances and metadata made of them",
     TESTS + "their numbers have two decimals.",
     [RAW, SER, PTC, BKD, ACC], [("decimal serialization", SER)], observe=["responses to parser.directives and book requests, as written on the wire"],
     technique=MODEL, note=BOOKNOTE)
prop("C28", "The health check tells the truth",
     "The health check succeeds, showing versions, exactly when what the launcher would use is there and works: the program it would start, and the jar if it would run one. Otherwise it fails naming what is missing or went wrong, and it starts nothing but version queries of that program.",
     ["configurations"], "all environments: tools present, missing, failing or of any version; jar configured or not, present or not",
     TESTS + "the health check is never run.",
     [HEALTH, MAIN], [("checks of java and clojure", HEALTH)], observe=["standard output, exit status, calls recorded by stand-ins"],
     technique="runtime monitoring: the command run with recording stand-ins for java and clojure, the report judged against what was there",
     note="stand-ins only")

CLJ = "clj/src/limabean/"
LIMA, USER, LOADER, PLUG = "clj/src/limabean.clj", CLJ + "user.clj", CLJ + "adapter/loader.clj", CLJ + "adapter/plugins.clj"
INV, JRN, ROLL, FILT, REG = (CLJ + "core/%s.clj" % x for x in ("inventory", "journal", "rollup", "filters", "registry"))
FMT, XF, CELL, TYPE = (CLJ + "core/%s.clj" % x for x in ("format", "xf", "cell", "type"))
SYN, ERR, EXC, POD_, JSON_, SPEC = (CLJ + x for x in ("adapter/synthetic_spans.clj", "adapter/error.clj", "adapter/exception.clj", "adapter/pod.clj", "adapter/json.clj", "spec.clj"))
MAINC, APP, UCLJ, DBG = (CLJ + x for x in ("main.clj", "app.clj", "adapter/user_clj.clj", "adapter/debug.clj"))
CTESTS = "The Clojure tests cover a few date filters and golden outputs of small fixed ledgers; "
CT = ("runtime monitoring: the Clojure sources run by a purpose-built interpreter on the JVM against the real limabean-pod, on seeded random ledgers; "
      "every value, line of output and exit status is judged by ")
CN = ("there is no Clojure runtime here, so the sources in clj/src are executed by the interpreter in /verif/ljc; a construct it does not know ends the check "
      "without a verdict, never with one")

prop("C29", "An inventory is the exact sum of what was posted",
     "The inventory of the directives loaded, or of those postings the filters given select, shows for each account and currency the exact sum of the units posted. "
     "Under a booking method that merges lots, postings at the same cost (date, currency, number and label, however the number is written) are one position and a lot sold completely is gone; under none each posting at cost stands alone. "
     "Positions are in order of currency and then of lot, nothing that is zero is shown, and an account left with nothing is left out.",
     ["inputs", "histories"], "all booked ledgers, booking methods and filters",
     CTESTS + "none of them compares an inventory with the sum of its postings.",
     [INV, LIMA, XF, REG], [("accumulation of positions", INV), ("booking method of an account", REG)], state=[("positions", "what each account holds by lot", INV)],
     observe=["value of (inventory ...)"], technique=CT + "a model which sums postings exactly", note=CN)
prop("C30", "A journal lists every posting with its running balance",
     "The journal has one entry for each posting of the directives loaded that the filters select, in the order of the directives and of the postings within each, carrying date, account, payee, narration, flag, units and currency; "
     "the balance of each entry is the exact sum by currency of all units up to and including it, costs left out, currencies whose sum is zero left out.",
     ["inputs", "histories"], "all booked ledgers and filters",
     CTESTS + "no journal is ever totalled.",
     [JRN, LIMA, XF, INV], [("running balance", JRN), ("postings of directives", XF)], state=[("balance", "sum of units so far", JRN)],
     observe=["value of (journal ...)"], technique=CT + "a model which runs the sum", note=CN)
prop("C31", "A rollup totals accounts with all below them",
     "The rollup of an inventory in a currency gives each account its own units, and each account or parent of one the exact total of itself and everything below it, shown where it differs from its own units; accounts with none of the currency are left out. "
     "Without a currency the rollup is in the one which the most accounts hold; the rollup of an empty inventory is empty.",
     ["inputs"], "all inventories, currencies, and depths and likenesses of account names",
     CTESTS + "no rollup is ever added up.",
     [ROLL, LIMA, INV], [("totals of ancestors", ROLL), ("choice of currency", LIMA)], observe=["value of (rollup ...)"], technique=CT + "a model of the tree of accounts", note=CN)
prop("C32", "Filters select exactly what they say",
     "A filter by date, account, subaccount, currency, payee or narration selects exactly those directives or postings which have the field and whose field satisfies it: boundaries of dates in or out as the name of the filter says, a missing day or month being the first; a subaccount is the account itself or one whose name continues after a colon. "
     "Combinations select what every, some, or none of their filters select. A date that does not exist is refused with a message that says so.",
     ["inputs"], "all directives and postings, filter arguments, and combinations of filters",
     "The tests check five dates and two accounts each.",
     [FILT, XF], [("predicates", FILT)], observe=["directives and postings selected, messages of bad dates"], technique=CT + "a model of each predicate", note=CN)
prop("C33", "Balances and the income statement divide the accounts",
     "Balances are the inventory of the accounts under the roots for assets and liabilities, and the income statement that of those under income and expenses, as the options name those roots, filtered further by whatever filters are given; no account is in the wrong one or left out, whatever the roots are called.",
     ["inputs", "configurations"], "all booked ledgers, names of root accounts, and filters",
     CTESTS + "the roots are never renamed.",
     [LIMA, USER, FILT, INV], [("roots from options", LIMA)], observe=["values of (balances ...) and (income-statement ...)"], technique=CT + "a model of the inventory of those accounts", note=CN)
prop("C34", "Directives are printed as a beanfile that means the same",
     "Every directive, as parsed, as booked or as plugins made it, with its amounts, costs, prices, flags, tags, links, metadata and postings, prints as beanfile text; when that text is itself parsed the directives are those that were printed, with every string, number (value and scale) and date intact. "
     "(Two forms are the program's own: of a cost with a number per unit and a total only the former is printed, and the tolerance of a balance is printed after its currency.)",
     ["inputs"], "all directives of every kind as parsed and as booked, and strings of every kind",
     CTESTS + "nothing printed is ever read again.",
     [FMT, CLJ + "adapter/print.clj", TYPE], [("format of each kind of directive", FMT)], observe=["what (print directives) writes, and what the pod parses of it"],
     technique=CT + "parsing what was printed with the real pod and comparing the directives", note=CN)
prop("C35", "Plugins change directives exactly as they say, and their failures are contained",
     "Raw plugins are applied before booking and booked plugins after it, in the order of the beanfile, each given what the one before produced; what results is booked, and the final directives are exactly what the plugins made. "
     "Each directive inserted or changed, and no other, carries as provenance the names of the plugins that touched it in order (with a mark for after booking), and a span of its own which resolves to its printed form; directives that a plugin leaves alone are untouched, however many there are. "
     "A plugin that throws or makes something invalid, or errors plugins put on directives, are reported, and no directives result.",
     ["inputs", "histories", "configurations"], "all ledgers, and sequences of plugins which insert, drop, repeat, replace, change or refuse any of the directives",
     CTESTS + "single plugins on fixed ledgers are compared with golden text.",
     [PLUG, LOADER, SYN, "clj/src/limabean/plugin.clj"], [("composition and provenance", PLUG), ("running and booking", LOADER), ("synthetic spans", SYN)],
     state=[("provenance", "names of the plugins which touched a directive", PLUG)], observe=["the values of *beans* and *directives*, and what loading writes"],
     technique=CT + "a model of a list of operations applied in turn, and the real pod's booking of the same directives", note=CN)
prop("C36", "Loading loses and changes nothing",
     "What a beanfile loads as is what the pod parsed and booked: every directive with every field, its amounts as exact decimals of the scale written, dates as dates, tags and links as sets, metadata under whatever key, the span of each directive and posting, and the options. "
     "The registry holds the booking method of each account that states one, the default from the options, and the currencies by frequency of posting. What is said of the number of directives is true.",
     ["inputs", "configurations"], "all ledgers that book, with options and metadata of every kind",
     CTESTS + "no loaded value is compared with the file.",
     [LOADER, POD_, JSON_, TYPE, REG], [("loading", LOADER), ("decoding", JSON_), ("registry", REG)], observe=["values of *directives*, *options*, *registry* and *beans*"],
     technique=CT + "the answers of the pod to the same questions, and a model of the registry", note=CN)
prop("C37", "What is refused is reported, each with its source",
     "When a beanfile does not parse, does not book, or names plugins which cannot be found or configured, there are no directives and every complaint is reported: its message and reason, and the source it concerns, whether the directive or posting is as written, was modified by a plugin (saying by which) or inserted by one, together with the transaction around a posting, whatever it relates to, and any annotation. Nothing else is reported. A service (limabean-pod) which ends before it has answered is complained of, and never taken for one with nothing to say.",
     ["inputs", "configurations"], "all beanfiles with errors of any kind, with and without plugins that touch what is wrong",
     CTESTS + "each golden file has one mistake, in what no plugin touched.",
     [LOADER, ERR, EXC, PLUG, SYN], [("resolution of reports", LOADER), ("printing of errors", ERR)], observe=["what loading writes, and (:error *beans*)"],
     technique=CT + "the complaints of the pod and a model of where each belongs", note=CN)
prop("C38", "The program does what its command line says",
     "limabean loads the beanfile of --beanfile, else of LIMABEAN_BEANFILE; evaluates the expression of --eval and exits, with the status the expression chooses, 0 if it returned, and 1 with its message on standard error if it threw or cannot be read; without --eval it is a prompt which evaluates what it is given until the end of input, whatever fails meanwhile. "
     "Help and version are given when asked for; unknown options, superfluous arguments, a beanfile not given or not there are refused with a message and status 1 and nothing is loaded. Only results go to standard output, and no process is left behind.",
     ["inputs", "configurations"], "all combinations of options, arguments, environment, expressions and beanfiles",
     CTESTS + "the program is run with --beanfile and --eval only.",
     [MAINC, APP, RUN, CLJ + "adapter/logging.clj"], [("arguments", MAINC), ("evaluation and prompt", APP), ("launching", RUN)],
     observe=["standard output and error, exit status, processes left"], technique=CT + "a model of the command line; the real launcher starts the interpreter in place of java's jar", note=CN)
prop("C39", "Show shows every value, aligned and complete",
     "show draws any value, be it an inventory, rollup, journal, balances, or maps, lists, sets and scalars nested in any way, as one table holding every number, date and text in it exactly once and in order, numbers aligned by their decimal point, map and set entries sorted, and draws the same value the same way.",
     ["inputs"], "all query results and arbitrary nested values",
     CTESTS + "four fixed tables are compared.",
     [CELL, CLJ + "adapter/show.clj", CLJ + "adapter/tabulate.clj", INV, JRN, ROLL], [("cells of values", CELL), ("drawing", CLJ + "adapter/tabulate.clj")],
     observe=["what (show x) writes"], technique=CT + "a reference of cells and tables", note=CN)
prop("C40", "A session is about the beanfile last loaded",
     "Loading a beanfile replaces everything a session knows: directives, options, registry and errors are those of the file last loaded, good or bad, as its content is at that moment, and exactly as a fresh session would have them. Exactly one pod serves a session and the one before it is ended.",
     ["histories", "fault_sequences"], "all sequences of loads of good, bad, missing, unreadable and rewritten files",
     CTESTS + "each loads one file once.",
     [USER, POD_, LOADER], [("reloading", USER), ("pod processes", POD_)], state=[("*beans*", "what is known of the beanfile loaded", USER)],
     observe=["values after each load, processes alive"], technique=CT + "comparison with a fresh session, and a monitor of the processes alive", note=CN)
prop("C41", "The auto_accounts plugin opens exactly what is missing",
     "With the plugin beancount.plugins.auto_accounts every account which a transaction uses and which is not open by then is opened, once, on that date and just before it; accounts which are open are left alone, no directive is lost, changed or moved, and the ledger is booked, or refused, as it would be with those opens written in it.",
     ["inputs"], "all ledgers with any of their open directives left out",
     CTESTS + "one ledger with two accounts.",
     ["clj/src/beancount/plugins/auto_accounts.clj", PLUG], [("opening of accounts", "clj/src/beancount/plugins/auto_accounts.clj")],
     observe=["directives before and after booking"], technique=CT + "a model of first uses, and the real pod's booking of the ledger with the opens written in", note=CN)
prop("C42", "A plugin that changes nothing changes nothing",
     "A ledger with plugins that pass on every directive unchanged gives exactly the directives, with the same spans, fields and numbers, the same booking, the same registry, and the same complaints as the ledger without them; every valid directive satisfies the specification against which the results of plugins are checked.",
     ["inputs", "configurations"], "all ledgers, good and bad, with any number of such plugins, before and after booking",
     CTESTS + "identity is run on one ledger.",
     [SPEC, PLUG, LOADER, SYN, TYPE, JSON_], [("specification of directives", SPEC), ("resubmission for booking", LOADER)],
     observe=["values of *beans* and reports, with and without the plugins"], technique=CT + "comparison of the ledger with and without the plugins", note=CN)
prop("C43", "The user's own definitions are loaded",
     "The files of LIMABEAN_USER_CLJ are loaded in order once the beanfile is, may use what it loaded and what the ones before defined, and are there for the expression evaluated; one which is missing, cannot be read or throws is reported by name with its message, and keeps neither the others nor the session from working.",
     ["configurations", "fault_sequences"], "all lists of files, good, failing and absent in any position",
     "No test sets LIMABEAN_USER_CLJ.",
     [UCLJ, APP, EXC], [("loading of user files", UCLJ)], observe=["standard output and error, exit status"], technique=CT + "a model of what each file prints", note=CN)
prop("C44", "The debug directory receives each stage as it was",
     "With LIMABEAN_DEBUG_DIR set to a directory, each stage that loading reached (raw, after raw plugins, booked, after booked plugins) is written there as one file named for the beanfile and stage, holding the directives of that stage exactly as they print; a directory that is not there is warned of and created by nobody, without it nothing is written, and loading comes out the same in every case.",
     ["inputs", "configurations"], "all ledgers with and without plugins of either kind, and names of beanfiles",
     "No test sets LIMABEAN_DEBUG_DIR.",
     [DBG, LOADER, FMT], [("dumping", DBG), ("stages", LOADER)], observe=["files written"], technique=CT + "the stages as the session itself prints them", note=CN)

NA = []


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"].strip(),
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
        for id, title, statement, over, text, why, files, mech, reason in NA:
            f.write(json.dumps({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                                "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                                                                   "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q lb check.py",
         "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick",
                     "thorough_cmd": f"python3 check.py {p['id']} --tier thorough", "technique": p["technique"],
                     "level": p["level"], "level_note": p["note"]} for p in P],
         "not_applicable": [{"property": n[0], "reason": n[8]} for n in NA]}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
