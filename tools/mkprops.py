#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
ACC="rust/src/api/booking/accumulator.rs"; SRV="rust/src/api/server.rs"; RAW="rust/src/api/types/raw.rs"
CONV="rust/src/api/types/parser_type_conversions.rs"; BKD="rust/src/api/types/booked.rs"; SER="rust/src/api/types/serializers.rs"
BT="rust/src/api/booking/types.rs"; BK="rust/src/api/booking.rs"; RPC="rust/src/api/json_rpc.rs"; TY="rust/src/api/types.rs"
RUN="rust/src/bin/limabean/run.rs"; HEA="rust/src/bin/limabean/health.rs"; POD="rust/src/bin/limabean-pod/main.rs"; LM="rust/src/bin/limabean/main.rs"
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
T="The two reliable tests only book one two-line ledger within and beyond the inferred balance tolerance; "
p("C01","Every accepted transaction balances; every unbalanced one is rejected",
 "Each transaction in a successful booking result has postings whose weights (cost if held at cost, else price, else units) sum to zero in every weight currency, within the tolerance inferred from the numbers written or the tolerance options. A transaction whose complete weights leave a larger residual is reported as an error, and one within tolerance never is.",
 ["inputs","configurations"],"all ledgers, posting shapes, number scales, currencies and tolerance options",
 T+"no test looks at weights, costs, prices or tolerance options over arbitrary numbers.",
 [ACC,BT,BK],[("Accumulator::book",ACC),("PostingSpec/CostSpec/PriceSpec views handed to the booking engine",BT),("tolerance from options",BK)])
p("C02","Booked transactions are the written ones with only the gaps filled in",
 "In a successful booking, every written transaction appears exactly once, with its date, flag, payee, narration, tags, links and metadata and its postings in written order, each booked posting naming the posting it came from and carrying that posting's account, flag, tags, links and metadata. Every amount, currency, cost and price that was written is unchanged, and each one left out is the value that balances the transaction in the right currency.",
 ["inputs"],"all transactions, with any subset of amounts, currencies, costs and prices left out that can be inferred",
 T+"no test compares booked postings with written ones.",
 [ACC,BKD,BT],[("Accumulator::transaction / book: mapping interpolated postings to booked postings",ACC),("booked::Posting",BKD)])
p("C03","Reductions consume existing lots, exactly as many units as written",
 "A posting that reduces a position held at cost is matched only against lots currently held in that account which fit every part of the cost written (date, currency, per-unit, label), and is booked as one posting per lot consumed, carrying that lot's own cost and together adding up to the units written (to within the tolerance, where all of what matches is consumed). Lots are created, carried and consumed so that at any time the units held per lot equal the sum of booked units, and a reduction with no matching lot or more units than held is an error.",
 ["inputs","histories"],"all histories of acquisitions and reductions over accounts, commodities, costs, dates and labels",
 T+"no test in the reliable set holds anything at cost; correctness depends on the whole history of lots.",
 [ACC,BT,BKD],[("Accumulator::book: splitting a reduction per lot, storing the updated inventory",ACC),("CostSpec view",BT)],
 [("accounts[..].positions","lots held per account after the directives so far")])
p("C04","The booking method in force is the account's own, else the option, else strict",
 "Lots are selected by the booking method given when the account was opened, failing that by the booking_method option, failing that strictly; a method that is not supported falls back to strict. Strict rejects ambiguous reductions unless everything matching is sold, strict-with-size additionally takes the oldest lot of exactly the written size, FIFO, LIFO and HIFO consume oldest first, newest first and dearest first, and NONE never matches lots.",
 ["inputs","histories","configurations"],"all combinations of the option, per-account methods and lot histories",
 T+"no test sets a booking method.",
 [ACC,BK,BT,CONV],[("Accumulator::open: method of the account",ACC),("default booking option",BK),("raw::Booking to limabean_booking::Booking",BT),("parser::Booking to raw::Booking",CONV)])
p("C05","Postings, pads, balances and closes need the account to be open",
 "A transaction, balance assertion or pad that names an account which is not open at that point in the ordered ledger (never opened, opened later, or already closed) is reported as an error, distinguishing closed accounts from unopened ones and pointing at the offending posting or directive and at the close. Opening an account twice, reopening a closed one, closing one that is not open or closing twice are errors, and none of these is reported when the account is properly open.",
 ["inputs","histories"],"all histories of open, close and use of accounts, with arbitrary dates and hierarchies",
 T+"no test closes or reopens an account or uses one outside its life.",
 [ACC],[("validate_account, open, close, pad, balance",ACC)],[("open_accounts/closed_accounts","which directive opened or closed each account")])
p("C06","An account accepts only the currencies it was opened with",
 "When an account was opened with a list of currencies, a transaction's posting (written or inferred) or balance assertion on it in any other currency is an error pointing at the posting or balance and at the opening, and one in a listed currency never is. An account opened with no list accepts every currency, and a list on one account says nothing about its parents or subaccounts.",
 ["inputs","histories"],"all open currency lists and postings, including postings whose currency is inferred",
 T+"no test opens an account with currencies.",
 [ACC,CONV],[("AccountBuilder::validate_currency",ACC),("open currencies conversion",CONV)])
p("C07","Balance assertions pass exactly when within tolerance",
 "A balance assertion is accepted when, and only when, the difference between the asserted amount and the units of that currency held at that point in the account and all its subaccounts is at most the tolerance. The tolerance is the one written on the assertion, else that of its last written decimal digit times twice the inferred tolerance multiplier option (default one half), else zero for an integral amount.",
 ["inputs","histories","configurations"],"all ledgers, account hierarchies, currencies, scales, explicit tolerances and multiplier options",
 T+"they pin only two sample differences for one scale in one account.",
 [ACC],[("Accumulator::balance / calculate_balance_margin / total_rollup_units_for_currency / is_nonstrict_subaccount",ACC)])
p("C08","A failed balance is reported once and later ones judge from its amount",
 "After a failed balance assertion the account is taken to hold the asserted amount, so that each later assertion on that account (or a parent) is accepted or rejected by what was posted since, and one mistake is reported by exactly one assertion. A failed assertion changes no other account and no other currency.",
 ["inputs","histories"],"all sequences of postings and balance assertions with errors at any point",
 T+"both have a single balance assertion.",
 [ACC],[("adjust_account_to_match_balance in Accumulator::balance",ACC)])
p("C09","A pad fills exactly the gap of the next balance assertion",
 "When a balance assertion differs from the account's holdings by more than its tolerance and a pad on that account is waiting, the booked result has, right after the pad, one transaction at the pad's date flagged as padding, posting exactly the difference to the padded account and its negation to the source account in the asserted currency, and no error is reported. Both accounts' holdings then include it, and the pad is used up by that assertion.",
 ["inputs","histories"],"all placements of pads and balances over accounts, subaccounts, currencies and dates",
 T+"no test uses a pad.",
 [ACC],[("Accumulator::pad, balance, calculate_balance_pad_postings",ACC)],[("account.pad","the pad waiting for a balance assertion")])
p("C10","Every pad that is not needed is an error at that pad",
 "A pad is reported as an error, located at the pad itself, if the next balance assertion on its account needs no adjustment, if no balance assertion follows it, or if a second pad on the same account comes before one (neither is then in effect any more); a pad that was used to fill a gap is never reported.",
 ["inputs","histories"],"all sequences of pads and balance assertions",
 T+"no test uses a pad.",
 [ACC],[("unused_pad handling in balance, pad and validate",ACC)])
p("C11","Every faulty directive is reported, at its own location, and only those",
 "If any directive fails, booking returns an error response with exactly one report per fault, for all faulty directives and not just the first, and no booked directives. Reports for the server's own ledger give the source span of the faulty directive or posting (with the enclosing directive as context and related directives by span); reports for directives passed as parameters give the same faults by directive and posting index.",
 ["inputs"],"all ledgers with any number and mix of faulty directives",
 T+"no test has more than one faulty directive, or looks at locations.",
 [ACC,SRV,CONV,TY],[("Accumulator::collect / validate",ACC),("create_reports_from_booking_errors / resolve_indexed_element",CONV),("HealthyServer::book",SRV)])
p("C12","A rejected directive leaves no trace on the rest of the booking",
 "Directives after a rejected one are judged as if the rejected one were absent (except that a failed balance assertion sets the account to the asserted amount): removing the rejected directives from the ledger leaves exactly the other faults, and no rejected transaction changes any holding, lot, open account or pad.",
 ["inputs","histories"],"all ledgers with rejected directives anywhere in the history",
 T+"no test continues after a rejected directive.",
 [ACC],[("Accumulator::book updates the inventory only after validation; open/close/pad",ACC)])
p("C13","The directives returned are those written in the file, complete and exact",
 "The parsed directives response contains exactly the directives of the ledger, each with its date, type, accounts, currencies, flags, strings, tags, links, metadata values of every kind, posting costs, prices, booking method and tolerance as written, numbers with their exact value and scale, and fields that were not written absent.",
 ["inputs"],"all syntactically valid directives of all twelve kinds with every optional part present or absent",
 T+"no test looks at the directives returned.",
 [CONV,RAW,SER,SRV],[("From conversions of parser types",CONV),("Serialize for MetaValue, Span",SER),("HealthyServer::parser_directives",SRV)])
p("C14","Directives are processed by date, opens first, then balances, then the rest",
 "The parsed and booked directives come in date order whatever order the file has them in, and on one date accounts open first, then balance assertions are checked, then everything else follows in file order. The outcome of booking therefore does not depend on where a directive stands in the file, except among those that share a date and rank.",
 ["inputs"],"all permutations of the directives of a ledger",
 T+"the directives in the tests are already in date order.",
 [SRV,ACC],[("HealthyServer::new / parser_directives / book keep the parser's order",SRV),("Accumulator::collect processes in that order and appends in that order",ACC)])
p("C15","Booking the returned directives gives what booking the file gives",
 "Passing the directives from the parsed directives response back as parameters of a booking request gives the same booked directives or the same faults as booking the ledger itself, whatever order object keys come in, with or without source spans, with absent fields omitted or null (the date of a cost only omitted), and with numbers in any JSON notation of the same value and scale. What is booked is what was passed: an edited, reordered, filtered or extended list is booked as given, without reference to the directives in the file.",
 ["inputs","programs"],"all ledgers and all JSON spellings of their directives, and edits of the list",
 T+"no test passes directives as parameters.",
 [RPC,RAW,SER,TY,SRV],[("Deserialize for raw directives and MetaValue",RAW),("MetaValue, Span, Decimal and date (de)serialisation",SER),("HealthyServer::book with parameters",SRV)])
p("C16","Options and plugins are reported exactly as the ledger sets them",
 "The options response gives every option the ledger sets (but long_string_maxlines, which only steers the parser) with its value (account type names with their defaults, multiple values collected, tolerance defaults by currency and fallback), and omits options not set; the plugins response lists the plugins in order with their configuration or null.",
 ["inputs","configurations"],"all combinations of options and plugins",
 T+"no test asks for options or plugins.",
 [CONV,RAW,TY,SRV],[("From<&parser::Options> for Options",CONV),("Plugin",TY),("parser_options / parser_plugins",SRV)])
p("C17","Every request line gets exactly one conforming JSON-RPC response, in order",
 "For every line sent, the pod writes exactly one line of JSON, in the order of the requests, with jsonrpc 2.0, the request's id (null where the line cannot be understood as a request) and either a result or an error with an integer code and a message; malformed lines, unknown methods, wrong parameters and wrong protocol versions get an error response and do not disturb the requests around them. If the ledger cannot be read every method answers with the I/O error, if it does not parse the methods needing it answer with error reports and the others still work, and at end of input the pod exits with status zero.",
 ["inputs","histories"],"all sequences of valid and invalid request lines, for readable, unparseable and unreadable ledgers",
 T+"no test speaks to the server.",
 [SRV,RPC,POD],[("Server::serve / dispatch",SRV),("Request, Id, ResultResponse, ErrorResponse",RPC)])
p("C18","A response depends only on the ledger and the request, not on earlier ones",
 "Whatever requests came before, in whatever order and however often, including failed ones, bookings of other directives and creation of synthetic spans, a request for plugins, directives, options, booking or span resolution gets the same response as when it is the only request to a fresh pod.",
 ["histories"],"all request sequences against one ledger",
 T+"no test sends even one request.",
 [SRV],[("HealthyServer: parsed is immutable; book starts a new Accumulator",SRV)])
p("C19","Spans lead back to the text they came from",
 "Resolving the span of any directive or posting in a response, or of any part of one, gives the file that contains it, its first and last line numbers and exactly its source text (without trailing white space), for every file of the ledger. Spans are resolved independently and answered in the order asked.",
 ["inputs"],"all ledgers, layouts, character widths and include structures",
 T+"no test resolves a span.",
 [CONV,SER,SRV,RAW],[("Span conversions",CONV),("Span (de)serialisation",SER),("parser_resolve_spans",SRV)])
p("C20","Synthetic spans resolve to the name and content they were created with",
 "Each synthetic span created, singly or many at a time, resolves to the name and content given, and stays valid however many others are created before or after, without affecting the spans of the ledger's own files. Spans are returned in the order of the request, and a report located at one shows its name and text.",
 ["inputs","histories"],"all sequences of creating synthetic spans with any names and contents, and resolving",
 T+"no test creates a synthetic span.",
 [SRV,TY,CONV],[("parser_create_synthetic_spans / parser_resolve_spans",SRV),("SyntheticSpan",TY)])
p("C21","Formatted reports contain each report's message, reason, place and notes",
 "Formatting a list of errors or warnings gives one text that contains, for every report and in the order given, its message, its reason, the file and line of its span with the source text there, the labels of its contexts and related places, and its annotation verbatim, with errors and warnings marked as what they are. Reports returned by the pod can be passed back for formatting as they are.",
 ["inputs"],"all lists of reports over all spans of the ledger and synthetic spans",
 T+"no test formats a report.",
 [SRV,CONV,TY],[("parser_format_report",SRV),("impl parser::Report for Report",CONV)])
p("C22","No ledger text or request makes the pod crash or fall silent",
 "Whatever bytes the ledger files contain and whatever text lines are sent, the pod neither crashes nor stops answering: each request gets a response and the pod exits with status zero at end of input. Ledgers that are not valid are answered with error reports whose spans lie within the ledger's files.",
 ["inputs"],"arbitrary and mutated ledger text, request lines and parameters",
 T+"no test feeds invalid input.",
 [SRV,ACC,SER,CONV],[("Server::serve / dispatch and every unwrap behind it",SRV),("panic paths in Accumulator",ACC)])
p("C23","The launcher picks the runtime by its documented precedence and passes args on",
 "The launcher runs the Clojure command with the local root if that is configured, else Java with the configured or built-in uberjar, else the Clojure command with the released version, adding configured extra dependencies for the Clojure command only (and warning that they are ignored for an uberjar). All other arguments, in order, and the environment reach the program unchanged, and its exit status becomes the launcher's.",
 ["configurations","inputs"],"all combinations of the environment settings, argument lists and exit statuses",
 "No test runs the launcher.",
 [RUN,LM],[("run / Runtime selection",RUN)])
p("C24","Launcher flags and health report truthfully on the selected runtime",
 "The health command checks the runtime the launcher would select and exits with status zero exactly when that runtime's command can be run successfully and the configured uberjar, if selected, exists, naming the version found and the uberjar then, and what is wrong otherwise; it never starts the program. The version flag prints the launcher's version and the verbose flag the command being run, both also passed on to the program, and failing to start the runtime exits with a non-zero status and a message.",
 ["configurations"],"all combinations of settings, flags and working, failing or missing runtimes",
 "No test runs the launcher.",
 [HEA,RUN,LM],[("health",HEA),("run: version, verbose, exec failure",RUN)])
p("C25","Tabulating renders every cell of the JSON given, aligned, or fails cleanly",
 "For every valid cell structure the tabulate command prints the text of every cell, rows one per line with columns aligned as requested and anchored numbers lined up on the decimal point, and exits zero; input that is not a valid cell structure gives a message on standard error, nothing on standard output and exit status one.",
 ["inputs"],"all nested cell structures, alignments, gutters and texts, and invalid input",
 "No test runs tabulate.",
 [POD,"rust/src/bin/limabean-pod/errors.rs"],[("tabulate command",POD)])
p("C26","A failed balance's diagnosis lists exactly the postings that led to it",
 "The report of a failed balance assertion states the amount accumulated and the error in the asserted currency, and annotates the postings in that currency to the account and its subaccounts since the previous assertion of that account and currency, in order, with date, subaccount where more than one account is involved, units, running total and payee or narration. The running total starts from the previously asserted amount, or zero, and the last one is the amount accumulated.",
 ["inputs","histories"],"all ledgers with failing balance assertions, over hierarchies and several currencies",
 T+"they check only whether a report exists.",
 [ACC],[("Accumulator::balance_report",ACC)],[("balance_window","the booked directives since the last assertion")])
p("C27","Splitting a ledger into included files changes nothing but locations",
 "A ledger split over any number of files by include directives, nested or not, gives the same directives, plugins, booking result and faults as the same text in one file, and each reported span resolves to the file that holds the text.",
 ["inputs","configurations"],"all ways to cut a ledger into files at directive boundaries",
 T+"the tests have a single source each.",
 [SRV,CONV],[("serve reads all sources; spans carry the source",SRV),("Span conversions keep the source id",CONV)])
p("C28","Booking does not depend on names or on the run",
 "Booking the same ledger again, in the same or a new process, gives byte for byte equal directives, amounts and fault lists (up to the order within sets), and consistently renaming accounts and currencies gives the same result with the names replaced.",
 ["inputs","schedules"],"all ledgers, renamings that keep the account hierarchy, and hash seeds of repeated runs",
 T+"no test runs anything twice, and hash order differs in every process.",
 [ACC,SRV],[("Accumulator::validate and all HashMap iteration",ACC)])
p("C29","Directives that need no booking pass through booking unchanged",
 "In a successful booking every open, close, commodity, price, note, document, event, query, custom, balance and pad directive appears in place with its index in the input, date, tags, links, metadata and all its own fields as parsed, and the booked list has nothing else but the transactions and pad fillings.",
 ["inputs"],"all directives of all kinds",
 T+"no test looks at booked directives other than by count of errors.",
 [ACC,BKD],[("Accumulator::directive / collect",ACC),("booked::Directive",BKD)])
p("C30","Logging never disturbs the protocol or the results",
 "Whatever the log setting in the environment, and whether or not the log file can be written, the responses on standard output are the same byte for byte as with logging off, or the pod refuses to start with a message and a non-zero status; log output goes only to the log file.",
 ["configurations","inputs"],"all logging settings and levels, with any ledger and requests",
 "No test sets the logging environment.",
 [POD,SRV],[("tracing setup in main",POD),("tracing calls in serve and write_response",SRV)])
p("C31","Every error the parser finds is reported in full, by every method that fails",
 "When the parsing library refuses a ledger, each of parser.directives, parser.options, parser.plugins and book (without parameters) answers with all of its errors and no others, each with its message, reason, span, all contexts from innermost to outermost and all related places, for a single file in the library's order. Formatting these reports gives the library's own rendering, and resolving their spans the library's own file, lines and text.",
 ["inputs"],"all texts that the parser refuses, whatever is wrong with them, in one or several files",
 "One golden test looks at one parse error; none at several errors, contexts or related places.",
 [CONV,SRV,RAW],[("create_reports_from_parser_errors / from_error_or_warning",CONV),("error branches of parser_directives, parser_options, parser_plugins and book",SRV)])
p("C32","Everything the parser finds in a text is passed on as it is",
 "For any text the parsing library accepts, however unusual, parser.directives gives its directives in its order, each with date, kind, every field, tags, links, metadata and spans of directive and postings, parser.options its options and parser.plugins its plugins in order with their configuration; resolving the spans gives the library's own file, lines and text.",
 ["inputs"],"all texts that the parser accepts, including the parser's and the repository's own test ledgers rearranged, reworded and respaced, in one or several files",
 "No reliable test compares what the parser found with what is answered.",
 [CONV,SRV,RAW,SER],[("conversions from the parser's types",CONV),("serialisation",SER),("parser_directives, parser_options, parser_plugins",SRV)])
p("C33","Any accepted text is booked as its directives demand, from file or passed in",
 "For any text the parsing library accepts, including incomplete inputs, unusual postings, costs and prices, book answers with exactly the booked directives or exactly the faults that booking the library's directives one after another under the library's options gives, and the same (with faults by index) when those directives are passed in.",
 ["inputs","configurations"],"all texts that the parser accepts, including the parser's and the repository's own test ledgers rearranged and reworded",
 T+"golden ledgers sample a few of the shapes a ledger can have.",
 [ACC,BK,BT,SRV],[("Accumulator",ACC),("book",BK),("views handed to the booking engine",BT),("book with and without parameters",SRV)])
CK="No test that runs here executes any Clojure; the golden tests sample some tens of ledgers and queries."
C="clj/src/limabean/core/"; A="clj/src/limabean/adapter/"
p("J01","Inventories, balances and income statements sum the booked postings exactly",
 "For any filters, the inventory holds for each account exactly the sum of the units of its booked postings that pass all filters, kept apart by currency and by cost (date, currency, per-unit, label) except in accounts booked without matching, with positions that cancel left out. Balances are the inventory of the asset and liability accounts only, income statements that of income and expenses, both under their configured names.",
 ["inputs","configurations"],"all booked ledgers, booking methods, account name options and filters",CK,
 [C+"inventory.clj",C+"registry.clj","clj/src/limabean.clj"],[("inventory accumulation and lot merging",C+"inventory.clj"),("booking method per account",C+"registry.clj"),("balances, income-statement","clj/src/limabean.clj")])
p("J02","Journals list the selected postings in order with the running balance",
 "For any filters, the journal has one entry for each booked posting that passes all of them, in ledger order, with its own date, account, units, currency, cost and price, its payee and narration, and the balance of all entries so far by currency.",
 ["inputs"],"all booked ledgers and filters",CK,
 [C+"journal.clj",C+"xf.clj"],[("journal build",C+"journal.clj"),("postings with transaction fields",C+"xf.clj")])
p("J03","A rollup shows each account's own amount and the total of its whole subtree",
 "Rolling up an inventory shows for its primary currency, the one in most positions, every account with an amount and every ancestor of one: with the units it holds itself, and with the total of itself and all accounts below it, placed by depth. Account names that merely begin alike are not ancestors.",
 ["inputs"],"all inventories over account trees",CK,
 [C+"rollup.clj",C+"inventory.clj"],[("rollup",C+"rollup.clj")])
p("J04","Each filter selects exactly the postings or directives it is documented to",
 "The filters by date (before, after, between, each bound with or without the day itself, given as year, month or day), account, account or subaccount, currency, payee and narration, and their combinations by every, some and none, select exactly those postings or directives which their documentation says, rejecting what lacks the field they look at. The same filters work on inventories, journals and directives.",
 ["inputs"],"all filters, nested combinations of filters, and ledgers",CK,
 [C+"filters.clj"],[("filters",C+"filters.clj")])
p("J05","What is shown has every cell's text, in order and lined up",
 "Showing an inventory, a journal, or any nested data prints every account, date, text, number and currency in it, in the order of the data, numbers without loss of digits, one row per entry, and dates, texts and decimal points aligned in columns.",
 ["inputs"],"all inventories, journals and nested data",CK,
 [C+"cell.clj",A+"tabulate.clj",A+"show.clj",A+"json.clj"],[("conversion to cells",C+"cell.clj"),("hand-over to the pod",A+"tabulate.clj")])
p("J06","Printed directives are Beancount text that means the same directive",
 "Every directive that is printed is valid Beancount, which parsed again gives an equal directive: same date, kind, flags, accounts, amounts, costs, prices, tolerances, texts, tags, links, metadata and currencies. Where both a per-unit and a total cost were given, only the per-unit one is printed. This holds for each directive kind and for all texts and numbers.",
 ["inputs"],"all directives of all kinds",CK,
 [C+"format.clj",A+"print.clj"],[("directive->str",C+"format.clj")])
p("J07","Plugins run in declared order; what they return is what is booked and loaded",
 "Raw plugins transform the parsed directives in the order in which the ledger declares them, and exactly what they return is booked; booked plugins transform the booked directives likewise, and exactly what they return is what queries see. Each is given its own configuration and the options. A directive a plugin changed or made records which plugins did so, in order and once each, and has a synthetic span with its text; untouched directives keep the span of the source.",
 ["programs","inputs"],"all chains of raw and booked plugins that keep, drop, change and add directives, over all ledgers",CK,
 [A+"plugins.clj",A+"loader.clj",A+"synthetic_spans.clj","clj/src/limabean/plugin.clj"],[("resolution and running",A+"plugins.clj"),("merging provenance and spans",A+"synthetic_spans.clj"),("load-beanfile",A+"loader.clj")])
p("J08","Plugin failures are each reported and inhibit further processing",
 "A plugin that cannot be loaded, defines no transducer or refuses its configuration is reported by name, every directive that a plugin marks with an error is reported with the message and source, and an exception in a plugin with its message. None of these goes on to booking or leaves directives for queries, and other plugins are not blamed.",
 ["programs","fault_sequences"],"all chains of plugins with failing ones at any place",CK,
 [A+"plugins.clj",A+"error.clj",A+"loader.clj"],[("resolve-symbols",A+"plugins.clj"),("print-errors",A+"error.clj")])
p("J09","Booking errors reach the user in full, with or without raw plugins",
 "When booking fails, what is printed is exactly the formatted reports of the pod, one for each fault with its message, reason, place, related places and annotation. If raw plugins ran, the place is the directive or posting at fault as it came from the plugins, with the source of untouched ones and the names of the plugins which modified others. No directives are then loaded.",
 ["inputs","programs"],"all ledgers with faults and chains of raw plugins",CK,
 [A+"loader.clj",A+"error.clj",A+"pod.clj"],[("resolve-report-from-raw",A+"loader.clj"),("print-errors",A+"error.clj")])
p("J10","Each of the user's code files is loaded in order, or reported as not loaded",
 "Every file listed in LIMABEAN_USER_CLJ is loaded once, in order, after the ledger, its definitions being visible afterwards; each file that is missing or fails is reported by name, and does not prevent the others and the ledger from being loaded.",
 ["configurations","fault_sequences"],"all lists of files, of which any may be missing or fail",CK,
 [A+"user_clj.clj","clj/src/limabean/app.clj"],[("load-user-cljs",A+"user_clj.clj"),("init","clj/src/limabean/app.clj")])
p("J11","Debug dumps: each stage of loading leaves a beanfile of its directives",
 "When LIMABEAN_DEBUG_DIR names a directory, loading leaves in it, named after the beanfile without its extension, <name>.raw.beancount with the directives as parsed, <name>.raw-xf.beancount with those after raw plugins if there are any, <name>.booked.beancount if booking succeeded and <name>.booked-xf.beancount after booked plugins if there are any. Each replaces an earlier one, lists the directives of its stage in their order, and parsed again has the same ones. Where it cannot be written a warning says so, and loading goes on.",
 ["inputs","configurations"],"all ledgers, plugins and states of the directory",CK,
 [A+"loader.clj",A+"debug.clj","clj/src/limabean/core/format.clj"],[("dump, run-plugins",A+"loader.clj"),("dump",A+"debug.clj")])
p("J12","The command line decides which ledger loads, what is evaluated, the exit status",
 "The ledger is that of --beanfile, else of LIMABEAN_BEANFILE; --eval loads it, evaluates the one expression with the documented names in scope, prints just what it prints and exits with 0, or with non-zero and the message if it cannot be read or throws; without --eval there is an interactive session. --help names all options and --version gives the version, both with 0. Unknown options, missing values, superfluous arguments, and a missing or no such beanfile are each reported, with non-zero, and nothing is loaded. The order of options does not matter.",
 ["configurations","inputs"],"all argument lists and environments",CK,
 ["clj/src/limabean/main.clj","clj/src/limabean/app.clj","clj/src/limabean.clj"],[("validate-args","clj/src/limabean/main.clj"),("run, try-eval, init","clj/src/limabean/app.clj"),("version","clj/src/limabean.clj")])
p("J13","Each load replaces all that the session had, whether it succeeds or fails",
 "After load-beanfile the session has the directives, options, registry and query results of that file as it is now, exactly as a new session would, whatever was loaded before; what is said of how many directives were loaded and resulted is so. If loading fails at whatever stage, errors are printed and nothing of an earlier load is left. Of the pods only the last one is still running.",
 ["histories","inputs"],"all histories of edits, breakages, repairs and loads within a session",CK,
 ["clj/src/limabean/user.clj",A+"loader.clj",A+"pod.clj"],[("load-beanfile, assign-limabean-globals","clj/src/limabean/user.clj"),("stop",A+"pod.clj")],
 [("*beans*, *directives*, *options*, *registry*","what the session has of the last load")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
