"""The planted bugs: edits of /repo's files (exact text, replacement) with a demonstration."""
ACC = "api/booking/accumulator.rs"
PTC = "api/types/parser_type_conversions.rs"
BT = "api/booking/types.rs"
SER = "api/types/serializers.rs"
SRV = "api/server.rs"
BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug("bare-price-currency", "C01",
    "a posting with a price annotation that gives a currency but no number, as in @ USD",
    "A price annotation without a number is ignored when booking, so that a transaction whose price is to be worked out is rejected as unbalanced.",
    [(BT, """    fn price(&self) -> Option<&Self::PriceSpec> {
        self.price_spec.as_ref()
    }""", """    fn price(&self) -> Option<&Self::PriceSpec> {
        self.price_spec
            .as_ref()
            .filter(|price| price.per_unit.is_some() || price.total.is_some())
    }""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:B
2020-01-02 * "x"
  Assets:A  10 HOOL @ USD
  Assets:B  -20 USD
"""
b = [p for d in booked(L) for p in d.get("postings", []) if p["acc"] == "Assets:A"]
check(float(b[0]["price"]["per-unit"]) == 2, "the price is worked out: %s" % b)
''')

bug("split-reduction-flag", "C02",
    "a posting at cost which consumes more than one lot and has a flag and metadata of its own",
    "Only the first of the booked postings of a reduction over several lots keeps the flag and metadata written.",
    [(ACC, """                            costs
                                .into_currency_costs()
                                .map(|(cost_cur, cost)| booked::Posting {
                                    idx: Some(posting_idx),
                                    flag: posting.flag.clone(),""",
      """                            costs
                                .into_currency_costs()
                                .enumerate()
                                .map(|(lot, (cost_cur, cost))| booked::Posting {
                                    idx: Some(posting_idx),
                                    flag: posting.flag.clone().filter(|_| lot == 0),"""),
     (ACC, """                                    price: None,
                                    tags: posting.tags.clone(),
                                    links: posting.links.clone(),
                                    metadata: posting.metadata.clone(),
                                })
                                .collect""", """                                    price: None,
                                    tags: posting.tags.clone(),
                                    links: posting.links.clone(),
                                    metadata: posting.metadata.clone().filter(|_| lot == 0),
                                })
                                .collect""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:B
2020-01-02 * "buy"
  Assets:A  10 HOOL {2 USD}
  Assets:A  10 HOOL {3 USD}
  Assets:B
2020-01-03 * "sell"
  ! Assets:A  -20 HOOL {}
    why: "all"
  Assets:B  50 USD
"""
ps = [p for p in booked(L)[-1]["postings"] if p["acc"] == "Assets:A"]
check(len(ps) == 2, "two lots")
check(all(p.get("flag") == "!" and "metadata" in p for p in ps), "both have flag and metadata: %s" % ps)
''')

bug("label-and-date", "C03",
    "a reduction which names a lot by date and label, where another lot of that date has another label",
    "The label in a cost specification is not looked at when the specification has a date as well, so that the wrong lot is reduced, or the reduction is called ambiguous.",
    [(BT, """    fn label(&self) -> Option<Cow<'a, str>> {
        self.label.clone()
    }""", """    fn label(&self) -> Option<Cow<'a, str>> {
        match self.date {
            Some(_) => None,
            None => self.label.clone(),
        }
    }""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:B
2020-01-02 * "buy"
  Assets:A  10 HOOL {2 USD, "one"}
  Assets:A  10 HOOL {3 USD, "two"}
  Assets:B
2020-01-03 * "sell"
  Assets:A  -5 HOOL {2020-01-02, "two"}
  Assets:B  15 USD
"""
ps = [p for p in booked(L)[-1]["postings"] if p["acc"] == "Assets:A"]
check(len(ps) == 1 and ps[0]["cost"]["label"] == "two", "the lot named is reduced: %s" % ps)
''')

bug("strict-by-account", "C04",
    "an account opened with STRICT in a ledger whose booking_method option is something else, and an ambiguous reduction",
    "STRICT written on an open is taken for no method at all, and the option's method is used for the account.",
    [(ACC, """                    let mut booking = open
                        .booking
                        .map(|booking| booking.into())
                        .unwrap_or(self.default_booking);""", """                    let mut booking = open
                        .booking
                        .map(Booking::from)
                        .filter(|booking| *booking != Booking::default())
                        .unwrap_or(self.default_booking);""")],
    '''
L = """option "booking_method" "FIFO"
2020-01-01 open Assets:A "STRICT"
2020-01-01 open Assets:B
2020-01-02 * "buy"
  Assets:A  10 HOOL {2 USD}
  Assets:A  10 HOOL {3 USD}
  Assets:B
2020-01-03 * "sell"
  Assets:A  -5 HOOL {}
  Assets:B  10 USD
"""
check(len(faults(L)) == 1, "ambiguous for STRICT")
''')

bug("zero-posting-account", "C05",
    "a posting of zero units on an account which is not open",
    "Postings of zero units are not checked: an account never opened or already closed may be named, without a report.",
    [(ACC, """                    .enumerate()
                    .filter_map(|(posting_idx, (interpolated, posting))| {
                        let posting_element""", """                    .enumerate()
                    .filter(|(_, (interpolated, _))| !interpolated.units.is_zero())
                    .filter_map(|(posting_idx, (interpolated, posting))| {
                        let posting_element"""),
     (ACC, """                    let account = self.get_mut_valid_account(account_name, element)?;

                    account.positions = updated_positions;""", """                    if let Some(account) = self.accounts.get_mut(account_name) {
                        account.positions = updated_positions;
                    }""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-02 * "nothing"
  Assets:A  0 USD
  Assets:Gone  0 USD
"""
check(faults(L) == ["account not open"], "the account is not open")
''')

bug("currency-once-per-account", "C06",
    "two postings to one account in one transaction, only the second in a currency the account does not allow",
    "Only the first posting to an account in a transaction has its currency checked.",
    [(ACC, """                    .enumerate()
                    .filter_map(|(posting_idx, (interpolated, posting))| {
                        let posting_element""", """                    .enumerate()
                    .filter(|(_, (_, posting))| validated.insert(posting.acc))
                    .filter_map(|(posting_idx, (interpolated, posting))| {
                        let posting_element"""),
     (ACC, """                // check all postings have valid accounts and currencies
                // returning the first error
""", """                // check all postings have valid accounts and currencies
                // returning the first error
                let mut validated = HashSet::<&str>::default();
""")],
    '''
L = """2020-01-01 open Assets:A USD
2020-01-01 open Assets:B
2020-01-02 * "two"
  Assets:A  10 USD
  Assets:A  10 GBP
  Assets:B  -10 USD
  Assets:B  -10 GBP
"""
check(faults(L) == ["currency incompatible with account"], "GBP is not allowed")
''')

bug("inferred-currency-unchecked", "C06",
    "a posting without units and currency, whose inferred currency the account does not allow",
    "The currency of a posting is only checked against the account's list where it is written.",
    [(ACC, """                        self.validate_account_and_currency(
                            posting.acc,
                            interpolated.currency,
                            posting_element,
                        )
                        .map_or_else(Some, |_| None)""", """                        match posting.cur {
                            Some(_) => self.validate_account_and_currency(
                                posting.acc,
                                interpolated.currency,
                                posting_element,
                            ),
                            None => self.validate_account(posting.acc, posting_element),
                        }
                        .map_or_else(Some, |_| None)""")],
    '''
L = """2020-01-01 open Assets:A USD
2020-01-01 open Assets:B
2020-01-02 * "x"
  Assets:A
  Assets:B  -10 GBP
"""
check(faults(L) == ["currency incompatible with account"], "GBP is not allowed")
''')

bug("subaccount-by-prefix", "C07",
    "an account whose name begins with the name of the account of a balance assertion, without being its subaccount",
    "Assets:Bank2 counts as a subaccount of Assets:Bank in balance assertions.",
    [(ACC, """        .is_some_and(|s| s.is_empty() || s.starts_with(':'))""", """        .is_some_and(|s| s.is_empty() || s.starts_with(|c: char| !c.is_alphabetic()))""")],
    '''
L = """2020-01-01 open Assets:Bank
2020-01-01 open Assets:Bank2
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:Bank2  10 USD
  Equity:O
2020-01-03 balance Assets:Bank 0 USD
"""
booked(L)
''')

bug("zero-tolerance", "C07",
    "a balance assertion with an explicit tolerance of zero, off by less than the inferred tolerance",
    "An explicit tolerance of zero is taken for none, and the inferred one is used.",
    [(ACC, """        let effective_tolerance = balance.tolerance.unwrap_or_else(|| {""",
      """        let explicit_tolerance = balance.tolerance.filter(|tolerance| !tolerance.is_zero());
        let effective_tolerance = explicit_tolerance.unwrap_or_else(|| {""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A  10.005 USD
  Equity:O
2020-01-03 balance Assets:A 10.00 ~ 0 USD
"""
check(len(faults(L)) == 1, "off by more than nothing")
''')

bug("adjust-without-holding", "C08",
    "a failed balance on an account which has no posting of its own in that currency (only subaccounts do), and a later balance on it",
    "An account without a position in the currency is not set to the asserted amount after a failed balance, so that one mistake is reported by each later balance.",
    [(ACC, """            // even though we have a balance error, we adjust the account to match, in order to localise balance failures
            adjust_account_to_match_balance(account, balance.cur, margin, Adjustment::Add);
""", """            // even though we have a balance error, we adjust the account to match, in order to localise balance failures
            if account.positions.units().contains_key(&balance.cur) {
                adjust_account_to_match_balance(account, balance.cur, margin, Adjustment::Add);
            }
""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:A:Sub
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A:Sub  10 USD
  Equity:O
2020-01-03 balance Assets:A 11 USD
2020-01-04 balance Assets:A 11 USD
"""
check(len(faults(L)) == 1, "one mistake, one report")
''')

bug("pad-from-own-subaccount", "C09",
    "a pad whose source is a subaccount of the padded account, and a later balance",
    "The source of a pad is not adjusted if it is within the padded account's subtree, so that later balances on the source are wrong.",
    [(ACC, """        let pad_account = self.accounts.get_mut(pad_source).unwrap();
        adjust_account_to_match_balance(pad_account, balance.cur, margin, Adjustment::Subtract);
""", """        if !is_nonstrict_subaccount(balance.acc, pad_source) {
            let pad_account = self.accounts.get_mut(pad_source).unwrap();
            adjust_account_to_match_balance(pad_account, balance.cur, margin, Adjustment::Subtract);
        }
""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:A:Sub
2020-01-02 pad Assets:A Assets:A:Sub
2020-01-03 balance Assets:A 11 USD
2020-01-04 balance Assets:A:Sub -11 USD
"""
booked(L)
''')

bug("pad-survives-exact-balance", "C10",
    "a pad followed by a balance that needs no adjustment and then by one that does",
    "A pad which its next balance does not need stays waiting and silently fills the gap of a later balance.",
    [(ACC, """        // pad can't last beyond balance
        let pad = account.pad.take();

        if margin.is_none() {""", """        // pad can't last beyond balance
        let pad = if margin.is_some() {
            account.pad.take()
        } else {
            None
        };

        if margin.is_none() {""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 pad Assets:A Equity:O
2020-01-03 balance Assets:A 0 USD
2020-01-04 balance Assets:A 10 USD
"""
f = faults(L)
check(any("unused" in x for x in f), "the pad is unused: %s" % f)
''')

bug("same-second-pad", "C10",
    "two pads of one account from the same source before a balance",
    "A second pad that is equal to the first silently takes its place.",
    [(ACC, """        // unused pad directives are errors
        // https://beancount.github.io/docs/beancount_language_syntax.html#unused-pad-directives
        if let Some((_, unused_pad)) = unused_pad {""", """        // unused pad directives are errors, but for repeated ones
        // https://beancount.github.io/docs/beancount_language_syntax.html#unused-pad-directives
        let unused_pad = unused_pad.filter(|(booked_idx, _)| {
            !matches!(&booked_directives[*booked_idx].variant, booked::DirectiveVariant::Pad(first) if first == pad)
        });
        if let Some((_, unused_pad)) = unused_pad {"""),
     (ACC, """        _date: Date,
        idx: usize,
        element: ElementIdx,
    ) -> Result<
        (
            booked::DirectiveVariant<'a>,
            Option<booked::DirectiveVariant<'a>>,
        ),
        IndexedReport,
    > {
""", """        _date: Date,
        booked_directives: &[booked::Directive<'a>],
        element: ElementIdx,
    ) -> Result<
        (
            booked::DirectiveVariant<'a>,
            Option<booked::DirectiveVariant<'a>>,
        ),
        IndexedReport,
    > {
        let idx = booked_directives.len();
"""),
     (ACC, "self.pad(pad, date, booked_directives.len(), element)", "self.pad(pad, date, booked_directives, element)")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 pad Assets:A Equity:O
2020-01-03 pad Assets:A Equity:O
2020-01-04 balance Assets:A 10 USD
"""
f = faults(L)
check(any("second pad" in x for x in f), "the first pad is unused: %s" % f)
''')

bug("posting-span-by-account", "C11",
    "an error on a posting whose account has an earlier posting in the same transaction",
    "A report about a posting points at the first posting of that account.",
    [(PTC, """            txn.postings
                .get(posting_idx)
                .map(|posting| posting.span.unwrap())
                .unwrap(),""", """            txn.postings
                .iter()
                .find(|posting| posting.acc == txn.postings[posting_idx].acc)
                .map(|posting| posting.span.unwrap())
                .unwrap(),""")],
    '''
L = """2020-01-01 open Assets:A USD
2020-01-01 open Assets:B
2020-01-02 * "two"
  Assets:A  10 USD
  Assets:A  10 GBP
  Assets:B  -10 USD
  Assets:B  -10 GBP
"""
r = pod(L, [("book",)])[0]["error"]["data"]
s, e = r[0]["span"][1:]
check("GBP" in L[s:e], "the span is that of the posting in GBP: %r" % L[s:e])
''')

bug("inventory-before-validation", "C12",
    "a transaction which is rejected for one of its postings, and a balance on an account of another of its postings",
    "The holdings are updated before the accounts and currencies are validated, so that a rejected transaction leaves its traces.",
    [(ACC, """                // check all postings have valid accounts and currencies
                // returning the first error
""", """                for (account_name, updated_positions) in updated_inventory {
                    if let Some(account) = self.accounts.get_mut(account_name) {
                        account.positions = updated_positions;
                    }
                }

                // check all postings have valid accounts and currencies
                // returning the first error
"""), (ACC, """                for (account_name, updated_positions) in updated_inventory {
                    let account = self.get_mut_valid_account(account_name, element)?;

                    account.positions = updated_positions;
                }

                Ok(booked_postings)""", """                Ok(booked_postings)""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-02 * "bad"
  Assets:A  10 USD
  Assets:Gone  -10 USD
2020-01-03 balance Assets:A 0 USD
"""
f = faults(L)
check(f == ["account not open"], "only the transaction is wrong: %s" % f)
''')

bug("bare-total-price", "C13",
    "a price annotation with a total but no currency, as in @@ 20",
    "A total price without currency is given as a price per unit.",
    [(PTC, """            PPS::BareAmount(Total(expr)) => PriceSpec {
                per_unit: None,
                total: Some(expr.value()),
                cur: None,
            },""", """            PPS::BareAmount(PerUnit(expr) | Total(expr)) => PriceSpec {
                per_unit: Some(expr.value()),
                total: None,
                cur: None,
            },"""),
     (PTC, """            PPS::BareAmount(PerUnit(expr)) => PriceSpec {
                per_unit: Some(expr.value()),
                total: None,
                cur: None,
            },
""", "")],
    '''
L = """2020-01-02 * "x"
  Assets:A  10 HOOL @@ 20
  Assets:B  -20 USD
"""
p = pod(L, [("parser.directives",)])[0]["result"]["directives"][0]["postings"][0]["price-spec"]
check("per-unit" not in p and float(p["total"]) == 20, "a total price: %s" % p)
''')

bug("metadata-scale", "C13",
    "a metadata value that is a number with trailing zeros",
    "Numbers in metadata lose their trailing zeros.",
    [(PTC, "pmv::Simple(SimpleValue::Expr(x)) => Number(x.value()),", "pmv::Simple(SimpleValue::Expr(x)) => Number(x.value().normalize()),")],
    '''
L = """2020-01-01 open Assets:A
  limit: 10.50
"""
r = pod(L, [("parser.directives",)], text=True)[0]
check('"number":10.50}' in r, "as written: %s" % r)
''')

bug("source-order-within-day", "C14",
    "a directive on an account written earlier in the file than the opening of the account on the same date",
    "Directives of one date are taken in the order of the file, so that one before its account's opening fails.",
    [(SRV, """                directives,
                options,
                plugins,
                warnings,
            }) => Ok(Parsed {
                directives,""", """                mut directives,
                options,
                plugins,
                warnings,
            }) => Ok(Parsed {
                directives: {
                    // keep the order stable, whatever files the directives come from
                    directives.sort_by_key(|d| (*d.date().item(), d.span().source, d.span().start));
                    directives
                },""")],
    '''
L = """2020-01-01 * "x"
  Assets:A  10 USD
  Assets:B
2020-01-01 open Assets:A
2020-01-01 open Assets:B
"""
booked(L)
''')

bug("empty-params-book-file", "C15",
    "booking an empty list of directives",
    "Booking no directives books the ledger's own instead.",
    [(SRV, "healthy.book(id, optional.params.as_ref(), w).unwrap()", "healthy\n                                .book(id, optional.params.as_ref().filter(|p| !p.is_empty()), w)\n                                .unwrap()")],
    '''
r = pod("2020-01-01 open Assets:A\\n", [("book", [])])[0]
check(r["result"]["directives"] == [], "nothing booked: %s" % r)
''')

bug("meta-currency-first", "C15",
    "directives passed back with the keys of a metadata amount in the other order (currency before units)",
    "An amount in metadata whose currency key comes first is taken for a currency.",
    [(SER, """                            Some(MetaKey::Units) => {
                                let units: Decimal = map.next_value()?;
                                raw::MetaValue::Amount(units, cur)
                            }""", """                            Some(MetaKey::Units) => {
                                let _: Decimal = map.next_value()?;
                                raw::MetaValue::Currency(cur)
                            }""")],
    '''
d = {"date": "2020-01-01", "dct": "open", "acc": "Assets:A", "metadata": {"limit": {"cur": "USD", "units": "10"}}}
r = pod("", [("book", [d])])[0]
check("units" in r["result"]["directives"][0]["metadata"]["limit"], "an amount: %s" % r)
''')

bug("option-false-omitted", "C16",
    "a boolean option set to FALSE",
    "render_commas set to FALSE is reported as not set.",
    [(PTC, "render_commas: value.render_commas().map(|x| *x.item()),", "render_commas: value.render_commas().map(|x| *x.item()).filter(|x| *x),")],
    '''
r = pod('option "render_commas" "FALSE"\\n', [("parser.options",)])[0]["result"]
check(r.get("render-commas") is False, "set to false: %s" % r)
''')

bug("wrong-version-id", "C17",
    "a request with another protocol version",
    "The error for a wrong protocol version does not carry the id of the request.",
    [(SRV, """                    write_other_error(
                        id,
                        ERROR_INVALID_REQUEST,""", """                    write_other_error(
                        None,
                        ERROR_INVALID_REQUEST,""")],
    '''
r = pod("", [{"jsonrpc": "1.0", "id": 7, "method": "status"}])[0]
check(r["id"] == 7, "the id of the request: %s" % r)
''')

bug("span-cache", "C18",
    "resolving two spans which begin at one place but end at different ones, in one session",
    "Resolved spans are remembered by where they begin, so that a later request gets the text of an earlier one.",
    [(SRV, """    fn parser_resolve_spans<W>(&self, id: Option<Id>, spans: &[Span], w: &mut W) -> io::Result<()>
    where
        W: Write,
    {
        let spanned_sources = spans
            .iter()
            .map(|span| {
                let span = span.into();
                self.sources.resolve_span(&span).into()
            })
            .collect::<Vec<_>>();""", """    fn parser_resolve_spans<W>(
        &mut self,
        id: Option<Id>,
        spans: &[Span],
        w: &mut W,
    ) -> io::Result<()>
    where
        W: Write,
    {
        let spanned_sources = spans
            .iter()
            .map(|span| {
                let span = *self.seen.entry((span.source, span.start)).or_insert(*span);
                self.sources.resolve_span(&span.into()).into()
            })
            .collect::<Vec<_>>();"""),
     (SRV, """    parsed: Result<Parsed<'a>, Vec<parser::Error>>,
}""", """    parsed: Result<Parsed<'a>, Vec<parser::Error>>,
    // spans already resolved, by start
    seen: std::collections::HashMap<(usize, usize), Span>,
}"""),
     (SRV, """            _parser: parser,
            parsed,""", """            _parser: parser,
            parsed,
            seen: std::collections::HashMap::default(),""")],
    '''
L = "2020-01-01 open Assets:A\\n"
r = pod(L, [("parser.resolve-spans", [[0, 0, 10]]), ("parser.resolve-spans", [[0, 0, 15]])])
check(r[1]["result"][0]["content"] == L[:15], "as in a fresh session: %s" % r[1])
''')

bug("spans-by-file", "C19",
    "resolving spans of more than one file in one request, not ordered by file",
    "Spans are resolved file by file, and answered in that order.",
    [(SRV, """        let spanned_sources = spans
            .iter()
            .map(|span| {
                let span = span.into();""", """        // file by file, which is kinder to caches
        let mut spans = spans.iter().collect::<Vec<_>>();
        spans.sort_by_key(|span| span.source);
        let spanned_sources = spans
            .into_iter()
            .map(|span| {
                let span = span.into();""")],
    '''
F = {"main.beancount": 'include "b.beancount"\\n2020-01-01 open Assets:A\\n', "b.beancount": "2020-01-01 open Assets:B\\n"}
ds = pod(F, [("parser.directives",)])[0]["result"]["directives"]
sp = {d["acc"]: d["span"] for d in ds}
for order in (["Assets:A", "Assets:B"], ["Assets:B", "Assets:A"]):
    r = pod(F, [("parser.resolve-spans", [sp[a] for a in order])])[0]["result"]
    check([x["content"].split()[-1] for x in r] == order, "in the order asked: %s" % r)
''')

bug("synthetic-by-content", "C20",
    "two synthetic spans created in one request with the same content under different names",
    "A synthetic span whose content was already seen in the request is given the earlier span, with the earlier name.",
    [(SRV, """        let mut spans = Vec::default();

        for s in synthetic_spans {
            spans.push(
                self.sources
                    .create_synthetic_span(s.name.as_ref(), s.content.as_ref())
                    .into(),
            )
        }
""", """        let mut spans: Vec<Span> = Vec::default();

        for (i, s) in synthetic_spans.iter().enumerate() {
            // don't create the same fragment over and over
            let span = match synthetic_spans[..i].iter().position(|t| t.content == s.content) {
                Some(seen) => spans[seen],
                None => self
                    .sources
                    .create_synthetic_span(s.name.as_ref(), s.content.as_ref())
                    .into(),
            };
            spans.push(span)
        }
""")],
    '''
rs = pod("", [("parser.create-synthetic-spans", [{"name": "a", "content": "x"}, {"name": "b", "content": "x"}])])
r = pod("", [("parser.create-synthetic-spans", [{"name": "a", "content": "x"}, {"name": "b", "content": "x"}]),
             ("parser.resolve-spans", rs[0]["result"])])[1]["result"]
check([x["file-name"] for x in r] == ["a", "b"], "each has its own name: %s" % r)
''')

bug("annotation-trimmed", "C21",
    "a report whose annotation begins with blanks",
    "Annotations lose their leading blanks when formatted, so that a table in them is out of line.",
    [(SRV, 'buf.write_fmt(core::format_args!("{}\\n", annotation))?;', 'buf.write_fmt(core::format_args!("{}\\n", annotation.trim()))?;')],
    '''
L = "2020-01-01 open Assets:A\\n"
rep = {"message": "m", "reason": "r", "span": [0, 0, 10], "annotation": "   1.00\\n  10.00"}
r = pod(L, [("parser.format-errors", [rep])])[0]["result"]
check("   1.00\\n  10.00" in r, "verbatim: %r" % r)
''')

bug("parse-message-cut", "C22",
    "a request that cannot be understood, with a long message which has a multi-byte character at just the place where it is cut",
    "Long messages about requests that cannot be parsed are cut at a byte position, which panics within a character.",
    [(SRV, """            Err(e) => write_other_error(None, ERROR_PARSE, Cow::Owned(e.to_string()), w).unwrap(),

            Ok(Request {""", """            Err(e) => {
                let mut message = e.to_string();
                if message.len() > MAX_PARSE_MESSAGE {
                    message.truncate(MAX_PARSE_MESSAGE);
                }
                write_other_error(None, ERROR_PARSE, Cow::Owned(message), w).unwrap()
            }

            Ok(Request {"""),
     (SRV, """pub fn serve(path: &Path) {""", """// no need to repeat all of a bad request in the message about it
const MAX_PARSE_MESSAGE: usize = 80;

pub fn serve(path: &Path) {""")],
    '''
for n in range(8):
    pod("", ['{"jsonrpc":"2.0","id":1,"method":"%s%s"}' % ("x" * n, "\\u00e9\\u4e00\\U0001f600" * 40)])
''')

bug("killed-program", "C23",
    "a program that is ended by a signal",
    "The launcher waits for the program instead of becoming it, and reports success if the program was ended by a signal.",
    [("bin/limabean/run.rs", """    use std::os::unix::process::CommandExt;

    let e = cmd.exec(); // on success does not return
""", """    let e = match cmd.status() {
        Ok(status) => std::process::exit(status.code().unwrap_or_default()),
        Err(e) => e,
    };
""")],
    '''
d = tempfile.mkdtemp(dir=SCRATCH.name)
with open(os.path.join(d, "clojure"), "w") as f:
    f.write("#!/bin/sh\\nkill -TERM $$\\n")
os.chmod(os.path.join(d, "clojure"), 0o755)
env = {k: v for k, v in os.environ.items() if not k.startswith("LIMABEAN")}
env["PATH"] = d + ":" + env["PATH"]
p = subprocess.run([os.path.join(BIN, "limabean"), "x"], env=env, capture_output=True, timeout=60)
check(p.returncode != 0, "not a success")
''')

bug("java-version-output", "C24",
    "a java that fails to run, having written something to its standard output",
    "The health command takes a java that writes something for one that runs.",
    [("bin/limabean/health.rs", """    match Command::new("java").arg("--version").output() {
        Ok(output) => {
            if output.status.success() {""", """    match Command::new("java").arg("--version").output() {
        Ok(output) => {
            if output.status.success() || !output.stdout.is_empty() {""")],
    '''
d = tempfile.mkdtemp(dir=SCRATCH.name)
with open(os.path.join(d, "java"), "w") as f:
    f.write("#!/bin/sh\\necho no memory for the virtual machine\\nexit 1\\n")
os.chmod(os.path.join(d, "java"), 0o755)
open(os.path.join(d, "x.jar"), "w").close()
env = {k: v for k, v in os.environ.items() if not k.startswith("LIMABEAN")}
env["PATH"] = d + ":" + env["PATH"]
env["LIMABEAN_UBERJAR"] = os.path.join(d, "x.jar")
p = subprocess.run([os.path.join(BIN, "limabean"), "health"], env=env, capture_output=True, timeout=60)
check(p.returncode != 0, "java does not run")
''')

bug("table-trimmed", "C25",
    "a table whose first line begins with a blank (a right-aligned or anchored cell narrower than its column)",
    "The first line of a table loses its leading blanks, and is out of line with the others.",
    [("bin/limabean-pod/main.rs", """            println!("{}", &cell);""", """            println!("{}", cell.to_string().trim());""")],
    '''
cell = {"stack": [{"row": [[{"aligned": ["a", "right"]}, {"aligned": ["x", "left"]}], " "]},
                  {"row": [[{"aligned": ["bbb", "right"]}, {"aligned": ["y", "left"]}], " "]}]}
p = subprocess.run([os.path.join(BIN, "limabean-pod"), "tabulate"], input=json.dumps(cell).encode(), capture_output=True, timeout=60)
check(p.returncode == 0 and p.stdout.decode().split("\\n")[0].rstrip() == "  a x", "aligned: %r" % p.stdout)
''')

bug("diagnosis-without-lots", "C26",
    "a failed balance on an account that holds units at cost",
    "Postings at cost are left out of the diagnosis of a failed balance, and of the amount accumulated.",
    [(ACC, """        for dct in &booked_directives[balance_window.clone()] {
            if let booked::DirectiveVariant::Transaction(txn) = &dct.variant {
                for pst in &txn.postings {""", """        for dct in &booked_directives[balance_window.clone()] {
            if let booked::DirectiveVariant::Transaction(txn) = &dct.variant {
                for pst in txn.postings.iter().filter(|pst| pst.cost.is_none()) {""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A  10 HOOL {2 USD}
  Equity:O
2020-01-03 balance Assets:A 11 HOOL
"""
f = faults(L)
check(f == ["accumulated 10, error 1 HOOL"], "%s" % f)
''')

bug("diagnosis-narration", "C26",
    "a failed balance after a transaction that has both payee and narration",
    "The diagnosis of a failed balance shows the narration of a transaction that has a payee.",
    [(ACC, "let description = txn.payee.or(txn.narration);", "let description = txn.narration.or(txn.payee);")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "Payee" "Narration"
  Assets:A  10 USD
  Equity:O
2020-01-03 balance Assets:A 11 USD
"""
r = pod(L, [("book",)])[0]["error"]["data"][0]["annotation"]
check("Payee" in r and "Narration" not in r, r)
''')

bug("related-in-other-file", "C27",
    "a fault and the directive it is related to (the open or close of its account) in different files",
    "The span of a related directive names the file of the faulty one.",
    [(PTC, """                        .map(|related_idx| resolve_indexed_element(related_idx, directives))
                        .collect::<Vec<_>>()""", """                        .map(|related_idx| {
                            let (related_type, related) =
                                resolve_indexed_element(related_idx, directives);
                            (related_type, Span { source: span.source, ..related })
                        })
                        .collect::<Vec<_>>()""")],
    '''
F = {"main.beancount": 'include "b.beancount"\\n2020-01-02 open Assets:B\\n', "b.beancount": "2020-01-01 open Assets:B\\n"}
r = pod(F, [("book",)])[0]["error"]["data"][0]
check(r["related"][0][1][0] != r["span"][0], "the first open is in the other file: %s" % r)
''')

bug("accounts-without-case", "C28",
    "two accounts whose names differ only in the case of letters",
    "Names of accounts are compared without regard to case in balance assertions, so that holdings depend on how accounts are named.",
    [(ACC, """    candidate
        .strip_prefix(base_account_name)
        .is_some_and(|s| s.is_empty() || s.starts_with(':'))""", """    candidate
        .get(..base_account_name.len())
        .filter(|s| s.eq_ignore_ascii_case(base_account_name))
        .map(|s| &candidate[s.len()..])
        .is_some_and(|s| s.is_empty() || s.starts_with(':'))"""),
     (ACC, "                            pst.acc.strip_prefix(base_account_name).unwrap(),", "                            &pst.acc[base_account_name.len()..],")],
    '''
L = """2020-01-01 open Assets:Cash
2020-01-01 open Assets:CASH
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:CASH  10 USD
  Equity:O
2020-01-03 balance Assets:Cash 0 USD
"""
booked(L)
''')

bug("padded-balance-tolerance", "C29",
    "a balance with an explicit tolerance whose gap a pad fills",
    "The booked balance which a pad was used for has lost the tolerance written.",
    [(ACC, """        Ok(booked::DirectiveVariant::Balance(booked::Balance {
            raw: (balance.clone()),
            unused_pad: None,""", """        Ok(booked::DirectiveVariant::Balance(booked::Balance {
            // now exact
            raw: raw::Balance {
                tolerance: None,
                ..balance.clone()
            },
            unused_pad: None,""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 pad Assets:A Equity:O
2020-01-03 balance Assets:A 10 ~ 0.5 USD
"""
b = [d for d in booked(L) if d["dct"] == "balance"][0]
check("tolerance" in b, "as written: %s" % b)
''')

bug("document-links", "C29",
    "a directive that is not a transaction with both tags and links",
    "Links of a booked directive are only kept where it is a transaction or has no tags.",
    [(ACC, """                        date: raw.date,
                        tags: raw.tags.clone(),
                        links: raw.links.clone(),
                        metadata: raw.metadata.clone(),
                        variant: booked_variant,""", """                        date: raw.date,
                        tags: raw.tags.clone(),
                        links: match &booked_variant {
                            booked::DirectiveVariant::Document(_) => {
                                raw.links.clone().filter(|_| raw.tags.is_none())
                            }
                            _ => raw.links.clone(),
                        },
                        metadata: raw.metadata.clone(),
                        variant: booked_variant,""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-02 document Assets:A "/x" #tag ^link
"""
d = booked(L)[1]
check(d.get("links") == ["link"], "%s" % d)
''')

bug("log-cut", "C30",
    "logging switched on, and a long request with a multi-byte character at just the place where it is cut for the log",
    "Requests are cut for the log at a byte position, which panics within a character, but only with logging on.",
    [(SRV, """                        tracing::debug!("<- {}", json);
                        self.dispatch""", """                        tracing::debug!("<- {}", &json[..json.len().min(256)]);
                        self.dispatch""")],
    '''
d = tempfile.mkdtemp(dir=SCRATCH.name)
for n in range(5):
    rep = [{"name": "x" * n, "content": "\\u00e9\\u4e00\\U0001f600" * 100}]
    plain = pod("", [("parser.create-synthetic-spans", rep)])
    logged = pod("", [("parser.create-synthetic-spans", rep)], env={"LIMABEAN_POD_LOG": os.path.join(d, "log")})
    check(plain == logged, "the same with logging")
''')

# ---- second batch: written from the properties alone, after the checks had caught all of the first ----

bug("recorded-total-price", "C02",
    "a posting with a total price (@@) from which the price per unit follows exactly",
    "The total price written is left out of the booked posting where it equals units times the price per unit.",
    [("api/types/booking_type_conversions.rs", """            per_unit: value.per_unit,
            total: value.total,
            cur: value.currency,""", """            per_unit: value.per_unit,
            // only worth recording where it can't be derived without loss of precision
            total: value.total.filter(|_| value.per_unit.scale() > 6),
            cur: value.currency,""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:B
2020-01-02 * "x"
  Assets:A  10 HOOL @@ 20.00 USD
  Assets:B  -20.00 USD
"""
p = booked(L)[-1]["postings"][0]["price"]
check(float(p.get("total", 0)) == 20, "the total written: %s" % p)
''')

bug("emptied-account", "C03",
    "an account whose last lot is sold completely, and a further sale",
    "An account from which everything is sold keeps what it held before, so that it can be sold again.",
    [(ACC, """                    let account = self.get_mut_valid_account(account_name, element)?;

                    account.positions = updated_positions;""", """                    let account = self.get_mut_valid_account(account_name, element)?;

                    // nothing to keep
                    if updated_positions.units().is_empty() {
                        continue;
                    }
                    account.positions = updated_positions;""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:B
2020-01-02 * "buy"
  Assets:A  10 HOOL {2 USD}
  Assets:B
2020-01-03 * "sell"
  Assets:A  -10 HOOL {2 USD}
  Assets:B  20 USD
2020-01-04 balance Assets:A 0 HOOL
"""
booked(L)
''')

bug("merged-lot-dates", "C03",
    "a reduction at cost with the merge marker, as in {2 USD, *}",
    "A reduction with the merge marker is given the date of the transaction instead of that of its lot.",
    [(ACC, """                                    cost: Some(cur_posting_cost_to_cost(cost_cur, cost)),""", """                                    cost: Some(cur_posting_cost_to_cost(
                                        cost_cur,
                                        limabean_booking::PostingCost {
                                            date: if posting.cost_spec.as_ref().is_some_and(|spec| spec.merge) {
                                                date
                                            } else {
                                                cost.date
                                            },
                                            ..cost
                                        },
                                    )),""")],
    '''
L = """2020-01-01 open Assets:A "FIFO"
2020-01-01 open Assets:B
2020-01-02 * "buy"
  Assets:A  10 HOOL {2 USD}
  Assets:B
2020-01-03 * "sell"
  Assets:A  -5 HOOL {2 USD, *}
  Assets:B  10 USD
"""
p = booked(L)[-1]["postings"][0]
check(p["cost"]["date"] == "2020-01-02", "the date of the lot: %s" % p)
''')

bug("unsupported-falls-to-option", "C04",
    "an account opened with an unsupported method in a ledger whose booking_method option is something else than strict",
    "A method that is not supported falls back to the option's method, not to strict.",
    [(ACC, """                        let default_booking = Booking::default();
                        self.warnings.push(""", """                        let default_booking = self.default_booking;
                        self.warnings.push(""")],
    '''
L = """option "booking_method" "FIFO"
2020-01-01 open Assets:A "AVERAGE"
2020-01-01 open Assets:B
2020-01-02 * "buy"
  Assets:A  10 HOOL {2 USD}
  Assets:A  10 HOOL {3 USD}
  Assets:B
2020-01-03 * "sell"
  Assets:A  -5 HOOL {}
  Assets:B  10 USD
"""
check(len(faults(L)) == 1, "ambiguous")
''')

bug("lifo-for-hifo", "C04",
    "an account booked by highest cost, where the dearest lot is not the latest",
    "HIFO is booked as LIFO.",
    [(BT, "            raw::Hifo => Hifo,", "            raw::Hifo => Lifo,")],
    '''
L = """2020-01-01 open Assets:A "HIFO"
2020-01-01 open Assets:B
2020-01-02 * "buy"
  Assets:A  10 HOOL {5 USD}
  Assets:B
2020-01-03 * "buy"
  Assets:A  10 HOOL {3 USD}
  Assets:B
2020-01-04 * "sell"
  Assets:A  -5 HOOL {}
  Assets:B  25 USD
"""
p = booked(L)[-1]["postings"][0]
check(float(p["cost"]["per-unit"]) == 5, "the dearest: %s" % p)
''')

bug("closed-relation-of-postings", "C05",
    "a posting on an account that was closed",
    "An error about a posting on a closed account does not refer to the close.",
    [(ACC, """            Err(element.report("account was closed").related_to(*closed))
        } else {
            Err(element.report("account not open"))""", """            let report = element.report("account was closed");
            Err(match element.posting {
                Some(_) => report,
                None => report.related_to(*closed),
            })
        } else {
            Err(element.report("account not open"))""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:B
2020-01-02 close Assets:A
2020-01-03 * "x"
  Assets:B  1 USD
  Assets:A
"""
r = pod(L, [("book",)])[0]["error"]["data"][0]
check("related" in r, "refers to the close: %s" % r)
''')

bug("zero-balance-after-close", "C05",
    "a balance of zero asserted after the account was closed",
    "A balance of zero is accepted on a closed account.",
    [(ACC, """        let account = self.get_mut_valid_account(balance.acc, element)?;
        account.validate_currency(balance.cur, element)?;
""", """        let account = match self.accounts.get_mut(balance.acc) {
            // as long as it has been open once, its holdings are known
            Some(account) if balance.units.is_zero() => account,
            _ => self.get_mut_valid_account(balance.acc, element)?,
        };
        account.validate_currency(balance.cur, element)?;
""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-02 close Assets:A
2020-01-03 balance Assets:A 0 USD
"""
check(faults(L) == ["account was closed"], "not open any more")
''')

bug("padded-currency-unchecked", "C06",
    "a balance in a currency which the account does not allow, while a pad is pending on it",
    "The currency of a balance is not checked while a pad is pending.",
    [(ACC, """        account.validate_currency(balance.cur, element)?;

        let new_window_end""", """        if account.pad.is_none() {
            account.validate_currency(balance.cur, element)?;
        }

        let new_window_end""")],
    '''
L = """2020-01-01 open Assets:A USD
2020-01-01 open Equity:O
2020-01-02 pad Assets:A Equity:O
2020-01-03 balance Assets:A 10 GBP
2020-01-04 balance Assets:A 10 USD
"""
f = faults(L)
check("currency incompatible with account" in f, "%s" % f)
''')

bug("zero-tolerance-written", "C13",
    "a balance with an explicit tolerance of zero",
    "A tolerance of zero is taken for none, so that the tolerance is inferred.",
    [(PTC, "tolerance: value.atol().tolerance().map(|x| *x.item()),", "tolerance: value\n                .atol()\n                .tolerance()\n                .map(|x| *x.item())\n                .filter(|x| !x.is_zero()),")],
    '''
L = """2020-01-03 balance Assets:A 100.00 ~ 0 USD
"""
d = pod(L, [("parser.directives",)])[0]["result"]["directives"][0]
check("tolerance" in d, "%s" % d)
''')

bug("generous-multiplier", "C07",
    "the option inferred_tolerance_multiplier greater than one, and a balance off by an amount in between",
    "A tolerance multiplier above one is ignored for balances.",
    [(ACC, """                    .inferred_tolerance_multiplier()
                    .unwrap_or""", """                    .inferred_tolerance_multiplier()
                    .filter(|multiplier| *multiplier <= Decimal::ONE)
                    .unwrap_or""")],
    '''
L = """option "inferred_tolerance_multiplier" "1.5"
2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A  10.02 USD
  Equity:O
2020-01-03 balance Assets:A 10.00 USD
"""
booked(L)
''')

bug("adjusted-to-tolerance", "C08",
    "a balance with an explicit tolerance that fails, and a later one that agrees with it",
    "After a failed balance the account is only taken to the edge of the tolerance, so that a later assertion of the same amount with no tolerance fails as well.",
    [(ACC, """            // even though we have a balance error, we adjust the account to match, in order to localise balance failures
            adjust_account_to_match_balance(account, balance.cur, margin, Adjustment::Add);
""", """            // even though we have a balance error, we adjust the account to match, in order to localise balance failures
            let excess = match balance.tolerance {
                Some(tolerance) if margin.is_sign_negative() => margin + tolerance,
                Some(tolerance) => margin - tolerance,
                None => margin,
            };
            adjust_account_to_match_balance(account, balance.cur, excess, Adjustment::Add);
""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-03 balance Assets:A 10 ~ 0.5 USD
2020-01-04 balance Assets:A 10 USD
"""
check(len(faults(L)) == 1, "one fault")
''')

bug("window-of-failed-balance", "C26",
    "two failed balances of an account and currency one after the other",
    "A failed balance does not end the window, so that the next diagnosis begins before it.",
    [(ACC, """        account.balance_windows.insert(balance.cur, new_window);

        // pad can't last beyond balance
        let pad = account.pad.take();
""", """        if margin.is_none() || account.balance_windows.is_empty() {
            account.balance_windows.insert(balance.cur, new_window);
        }
        account.balance_windows.entry(balance.cur).or_insert(0..new_window_end).end = new_window_end;

        // pad can't last beyond balance
        let pad = account.pad.take();
""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "one"
  Assets:A  1 USD
  Equity:O
2020-01-03 balance Assets:A 5 USD
2020-01-04 * "two"
  Assets:A  1 USD
  Equity:O
2020-01-05 balance Assets:A 9 USD
"""
f = faults(L)
check(f[1] == "accumulated 6, error 3 USD", "from the assertion before: %s" % f)
''')

bug("padded-to-scale", "C09",
    "a padded balance asserted with fewer decimals than what the account holds",
    "A pad is rounded to the decimals of the assertion, so that the account is not quite at the amount asserted.",
    [(ACC, """        txn.postings = calculate_balance_pad_postings(balance.cur, margin, balance.acc, pad_source);
""", """        let margin = margin.round_dp(balance.units.scale());
        txn.postings = calculate_balance_pad_postings(balance.cur, margin, balance.acc, pad_source);
""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A  1.234 USD
  Equity:O
2020-01-02 pad Assets:A Equity:O
2020-01-03 balance Assets:A 10.0 USD
"""
p = [p for d in booked(L) for p in d.get("postings", []) if p.get("flag") == "'P"]
check(float(p[0]["units"]) == 8.766, "%s" % p)
''')

bug("pad-of-closed-account", "C10",
    "an account closed while a pad on it is pending",
    "A pad which is pending when its account is closed is not reported as unused.",
    [(ACC, """                        open_entry.remove_entry();
                        closed_entry.insert(element);""", """                        open_entry.remove_entry();
                        closed_entry.insert(element);
                        // nothing more to come
                        if let Some(account) = self.accounts.get_mut(close.acc) {
                            account.pad = None;
                        }""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 pad Assets:A Equity:O
2020-01-03 close Assets:A
"""
check(len(faults(L)) == 1, "unused pad")
''')

bug("first-posting-context", "C11",
    "an error on the first posting of a transaction",
    "A report on the first posting of a transaction lacks the transaction as its context.",
    [(PTC, "                contexts: indexed.idx.posting.map(|_| {", "                contexts: indexed.idx.posting.filter(|posting| *posting > 0).map(|_| {")],
    '''
L = """2020-01-01 open Assets:B
2020-01-02 * "x"
  Assets:A  1 USD
  Assets:B
"""
r = pod(L, [("book",)])[0]["error"]["data"][0]
check("contexts" in r, "%s" % r)
''')

bug("refused-balance-takes-pad", "C12",
    "a balance refused for its currency while a pad is pending, and a good balance later",
    "A balance that is refused for its currency uses up the pad, so that a later balance fails.",
    [(ACC, """        account.validate_currency(balance.cur, element)?;

        let new_window_end""", """        let pad = account.pad.take();
        account.validate_currency(balance.cur, element)?;

        let new_window_end"""), (ACC, """        // pad can't last beyond balance
        let pad = account.pad.take();

        if margin""", """        if margin""")],
    '''
L = """2020-01-01 open Assets:A USD
2020-01-01 open Equity:O
2020-01-02 pad Assets:A Equity:O
2020-01-03 balance Assets:A 10 GBP
2020-01-04 balance Assets:A 10 USD
"""
check(len(faults(L)) == 1, "only the refused one: %s" % faults(L))
''')

bug("refused-open-currencies", "C12",
    "a refused second opening of an account with other currencies than the first",
    "An opening that is refused, because the account is open already, still extends the account's currencies.",
    [(ACC, """            Occupied(open_entry) => {
                return Err(element
                    .report("account already opened")""", """            Occupied(open_entry) => {
                // allow for its currencies nevertheless, to avoid errors which only follow from this one
                if let (Some(currencies), Some(account)) =
                    (&open.currencies, self.accounts.get_mut(open.acc))
                {
                    account.allowed_currencies.extend(currencies.iter().copied());
                }
                return Err(element
                    .report("account already opened")""")],
    '''
L = """2020-01-01 open Assets:A USD
2020-01-01 open Assets:B
2020-01-02 open Assets:A GBP
2020-01-03 * "x"
  Assets:A  1 GBP
  Assets:B
"""
check(len(faults(L)) == 2, "%s" % faults(L))
''')

bug("letter-flags", "C13",
    "a flag that is a letter",
    "Flags that are letters lose the tick in front.",
    [(PTC, "        Flag::Letter(_) => Cow::Owned(flag.to_string()),", "        Flag::Letter(_) => Cow::Owned(flag.to_string().trim_start_matches('\\'').to_string()),")],
    '''
L = """2020-01-03 'T "x"
  Assets:A  1 USD
  Assets:B
"""
d = pod(L, [("parser.directives",)])[0]["result"]["directives"][0]
check(d["flag"] == "'T", "%s" % d)
''')

bug("params-by-date", "C15",
    "booking a list of directives that are not in order of date",
    "Directives passed to book are put in order of date first, so that indices of errors and results are off.",
    [(SRV, """                let (directives_to_book, convert_to_spans) =""", """                // as from the parser
                let param_directives = param_directives.map(|directives| {
                    let mut directives = directives.clone();
                    directives.sort_by_key(|directive| directive.date);
                    directives
                });
                let param_directives = param_directives.as_ref();

                let (directives_to_book, convert_to_spans) =""")],
    '''
ds = [{"date": "2020-01-02", "dct": "note", "acc": "Assets:A", "comment": "x"}, {"date": "2020-01-01", "dct": "open", "acc": "Assets:A"}]
r = pod("", [("book", ds)])[0]
check([d["dct"] for d in r["result"]["directives"]] == ["note", "open"], "in the order given: %s" % r)
''')

bug("tolerance-fallback", "C16",
    "tolerance defaults for all currencies and for single ones",
    "The tolerance default for all other currencies is left out where there is one for a single currency.",
    [(PTC, """            inferred_tolerance_default: (!inferred_tolerance_default.is_empty())
                .then_some(inferred_tolerance_default),
            inferred_tolerance_default_fallback,""", """            inferred_tolerance_default_fallback: inferred_tolerance_default_fallback
                .filter(|_| inferred_tolerance_default.is_empty()),
            inferred_tolerance_default: (!inferred_tolerance_default.is_empty())
                .then_some(inferred_tolerance_default),""")],
    '''
L = """option "inferred_tolerance_default" "*:0.01"
option "inferred_tolerance_default" "USD:0.1"
"""
r = pod(L, [("parser.options",)])[0]["result"]
check("inferred-tolerance-default-fallback" in r, "%s" % r)
''')

bug("blank-requests", "C17",
    "an empty line among the requests",
    "An empty line is passed over without an answer.",
    [(SRV, """                        let json = buf.trim();
""", """                        let json = buf.trim();
                        if json.is_empty() {
                            continue;
                        }
""")],
    '''
p = tempfile.mkdtemp(dir=SCRATCH.name)
r = pod("", ["", {"jsonrpc": "2.0", "id": 7, "method": "status"}])
check(r[0]["error"]["code"] == -32700, "%s" % r)
''')

bug("string-number-ids", "C17",
    "an id that is a string of digits",
    "The id of a response is a number if that of the request was a string of digits.",
    [("api/json_rpc.rs", """        ResultResponse {
            jsonrpc: JSONRPC_VERSION,
            id,
            result,""", """        ResultResponse {
            jsonrpc: JSONRPC_VERSION,
            id: id.map(|id| match &id {
                Id::String(s) => s.parse::<u32>().map_or(id, |n| Id::Number(n.into())),
                _ => id,
            }),
            result,""")],
    '''
r = pod("", [{"jsonrpc": "2.0", "id": "42", "method": "status"}])
check(r[0]["id"] == "42", "%s" % r)
''')

bug("report-continued", "C18",
    "formatting reports again after formatting an annotated one",
    "The separator between reports is remembered from one request to the next, so that the second formatted text starts with an empty line.",
    [(SRV, """    fn parser_format_report<'r, K, W>(
        &self,""", """    fn parser_format_report<'r, K, W>(
        &mut self,"""),
     (SRV, """        let mut sep = false;

        for report in reports {
            if sep {""", """
        for report in reports {
            if self.sep {"""),
     (SRV, """            if let Some(annotation) = report.annotation.as_ref() {
                buf.write_fmt(core::format_args!("{}\\n", annotation))?;
            }

            sep = true;
        }
""", """            // an annotation needs to be set apart from the next report
            self.sep = true;
            if let Some(annotation) = report.annotation.as_ref() {
                buf.write_fmt(core::format_args!("{}\\n", annotation))?;
                continue;
            }
            if reports.len() == 1 {
                self.sep = false;
            }
        }
"""),
     (SRV, """    parsed: Result<Parsed<'a>, Vec<parser::Error>>,
}""", """    parsed: Result<Parsed<'a>, Vec<parser::Error>>,
    // is a separator due before the next report?
    sep: bool,
}"""),
     (SRV, """            _parser: parser,
            parsed,""", """            _parser: parser,
            parsed,
            sep: false,""")],
    '''
L = "2020-01-01 open Assets:A\\n"
rep = {"message": "m", "reason": "r", "span": [0, 0, 10], "annotation": "   1.00\\n  10.00"}
r = pod(L, [("parser.format-errors", [rep]), ("parser.format-errors", [rep])])
check(r[0]["result"] == r[1]["result"], "%r" % r)
''')

bug("file-base-names", "C19",
    "files of the same name in different directories",
    "Resolved spans give only the last part of a file's name.",
    [(PTC, "            file_name: value.file_name,\n", "            file_name: value\n                .file_name\n                .map(|name| name.rsplit_once('/').map_or(name, |(_, base)| base)),\n")],
    '''
F = {"main.beancount": 'include "b/main.beancount"\\n2020-01-01 open Assets:A\\n', "b/main.beancount": "2020-01-01 open Assets:B\\n"}
ds = pod(F, [("parser.directives",)])[0]["result"]["directives"]
r = pod(F, [("parser.resolve-spans", [d["span"] for d in ds])])[0]["result"]
check(len({x["file-name"] for x in r}) == 2, "%s" % r)
''')

bug("synthetic-content-trimmed", "C20",
    "a synthetic span whose content begins with blanks",
    "Synthetic spans lose the blanks at the start of their content.",
    [(SRV, ".create_synthetic_span(s.name.as_ref(), s.content.as_ref())", ".create_synthetic_span(s.name.as_ref(), s.content.trim())")],
    '''
q = [("parser.create-synthetic-spans", [{"name": "a", "content": "  x"}])]
rs = pod("", q)
r = pod("", q + [("parser.resolve-spans", rs[0]["result"])])[1]["result"]
check(r[0]["content"] == "  x", "%s" % r)
''')

bug("report-own-context", "C21",
    "a report with a context at its own span",
    "A context at the very span of the report is left out when it is formatted.",
    [(PTC, """        self.contexts
            .iter()
            .flatten()
            .map(|(label, span)|""", """        self.contexts
            .iter()
            .flatten()
            // no need to show the same place twice
            .filter(|(_, span)| span.start != self.span.start)
            .map(|(label, span)|""")],
    '''
L = "2020-01-01 open Assets:A\\n"
rep = {"message": "m", "reason": "r", "span": [0, 0, 10], "contexts": [["here it is", [0, 0, 24]]]}
r = pod(L, [("parser.format-errors", [rep])])[0]["result"]
check("here it is" in r, "%r" % r)
''')

bug("warnings-as-errors", "C21",
    "formatting warnings",
    "Warnings with related places are formatted as errors.",
    [(SRV, """            self.sources
                .write_report::<_, K, Report>(&mut buf, report)?;""", """            if report.related.is_some() {
                self.sources
                    .write_report::<_, parser::ErrorKind, Report>(&mut buf, report)?;
            } else {
                self.sources
                    .write_report::<_, K, Report>(&mut buf, report)?;
            }""")],
    '''
L = "2020-01-01 open Assets:A\\n"
rep = {"message": "m", "reason": "r", "span": [0, 0, 10], "related": [["there", [0, 11, 15]]]}
r = pod(L, [("parser.format-warnings", [rep])])[0]["result"]
check("Warning" in r, "%r" % r)
''')

bug("bad-metadata-date", "C22",
    "directives passed to book with metadata that has a date which is not one",
    "A date in metadata that is not valid ends the pod.",
    [(SER, """                    MetaKey::Date => raw::MetaValue::Date(
                        parse_iso8601date(map.next_value()?)
                            .map_err(|e| serde::de::Error::custom(format!("bad date: {}", &e)))?,
                    ),""", """                    MetaKey::Date => {
                        let date: &'de str = map.next_value()?;
                        raw::MetaValue::Date(parse_iso8601date(date).unwrap())
                    }""")],
    '''
d = {"date": "2020-01-01", "dct": "open", "acc": "Assets:A", "metadata": {"limit": {"date": "2020-02-30"}}}
r = pod("", [("book", [d])])[0]
check("error" in r, "%s" % r)
''')

bug("long-description", "C22",
    "a failed balance after a transaction whose payee is long and not all ASCII",
    "Payees are cut for the diagnosis of a failed balance at a byte position, which panics within a character.",
    [(ACC, "let description = txn.payee.or(txn.narration);", "let description = txn\n                            .payee\n                            .or(txn.narration)\n                            .map(|d| &d[..d.len().min(60)]);")],
    '''
for n in range(5):
    L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "%s%s"
  Assets:A  1 USD
  Equity:O
2020-01-03 balance Assets:A 5 USD
""" % ("x" * n, "\\u00e9\\u4e00" * 20)
    pod(L, [("book",)])
''')

bug("deps-of-local-root", "C23",
    "extra dependencies together with a local root",
    "Extra dependencies are not passed on when running from a local root.",
    [("bin/limabean/run.rs", """                r###"{{:local/root "{}"}}{}"###,
                local_root""", """                r###"{{:local/root "{}"}}"###,
                local_root"""),
     ("bin/limabean/run.rs", """.replace('"', r#"\\""#),
                extra_deps.unwrap_or("".to_string())
            ))""", """.replace('"', r#"\\""#),
            ))""")],
    '''
d = tempfile.mkdtemp(dir=SCRATCH.name)
with open(os.path.join(d, "clojure"), "w") as f:
    f.write("#!/bin/sh\\necho \\"$@\\"\\n")
os.chmod(os.path.join(d, "clojure"), 0o755)
env = {k: v for k, v in os.environ.items() if not k.startswith("LIMABEAN")}
env.update(PATH=d + ":" + env["PATH"], LIMABEAN_CLJ_LOCAL_ROOT="/x", LIMABEAN_CLJ_DEPS='a/b {:mvn/version "1"}')
p = subprocess.run([os.path.join(BIN, "limabean"), "x"], env=env, capture_output=True, timeout=60)
check(b"a/b" in p.stdout, "%s" % p.stdout)
''')

bug("health-uberjar-directory", "C24",
    "the health command with an uberjar that does not exist, in a directory that cannot be looked into or at all",
    "The health command only looks for the uberjar if its path is absolute.",
    [("bin/limabean/health.rs", "match Path::new(uberjar).try_exists() {", "match Path::new(uberjar)\n                .try_exists()\n                .map(|exists| exists || Path::new(uberjar).is_relative())\n            {")],
    '''
d = tempfile.mkdtemp(dir=SCRATCH.name)
with open(os.path.join(d, "java"), "w") as f:
    f.write("#!/bin/sh\\nexit 0\\n")
os.chmod(os.path.join(d, "java"), 0o755)
env = {k: v for k, v in os.environ.items() if not k.startswith("LIMABEAN")}
env.update(PATH=d + ":" + env["PATH"], LIMABEAN_UBERJAR="no-such.jar")
p = subprocess.run([os.path.join(BIN, "limabean"), "health"], env=env, capture_output=True, timeout=60)
check(p.returncode != 0, "there is no uberjar")
''')

bug("verbose-after-dashes", "C24",
    "the verbose flag given by its short name and not first",
    "The verbose flag is only seen as the first argument.",
    [("bin/limabean/run.rs", """    let verbose = args.iter().any(|arg| arg == "-v" || arg == "--verbose");""", """    let verbose = args
        .iter()
        .take_while(|arg| arg.to_string_lossy().starts_with('-'))
        .any(|arg| arg == "-v" || arg == "--verbose");""")],
    '''
d = tempfile.mkdtemp(dir=SCRATCH.name)
with open(os.path.join(d, "clojure"), "w") as f:
    f.write("#!/bin/sh\\nexit 0\\n")
os.chmod(os.path.join(d, "clojure"), 0o755)
env = {k: v for k, v in os.environ.items() if not k.startswith("LIMABEAN")}
env.update(PATH=d + ":" + env["PATH"])
p = subprocess.run([os.path.join(BIN, "limabean"), "--beanfile", "x", "-v"], env=env, capture_output=True, timeout=60)
check(b"clojure" in p.stderr, "the command is shown: %s" % p.stderr)
''')

bug("table-over-lines", "C25",
    "cells given as JSON over several lines",
    "Only the first line of the input is read.",
    [("bin/limabean-pod/main.rs", """    match Cell::from_json(&input) {""", """    match Cell::from_json(input.lines().next().unwrap_or_default()) {""")],
    '''
p = subprocess.run([os.path.join(BIN, "limabean-pod"), "tabulate"], input=json.dumps({"aligned": ["a", "left"]}, indent=1).encode(), capture_output=True, timeout=60)
check(p.returncode == 0 and p.stdout.decode().strip() == "a", "%r" % p)
''')

bug("same-place-in-other-file", "C27",
    "a faulty directive at the same place within its file as an earlier one of that date in another file",
    "A fault is located in the file of an earlier directive of that date which begins at the same place in its own file.",
    [(PTC, """        (
            Cow::Borrowed((&directive.variant).into()),
            directive.span.unwrap(),
        )""", """        let span = directive.span.unwrap();
        (
            Cow::Borrowed((&directive.variant).into()),
            Span {
                // directives of one date are together
                source: directives[..idx.directive]
                    .iter()
                    .rev()
                    .take_while(|d| d.date == directive.date)
                    .filter_map(|d| d.span)
                    .find(|s| s.start == span.start && s.end >= span.end)
                    .map_or(span.source, |s| s.source),
                ..span
            },
        )""")],
    '''
F = {"main.beancount": '2020-01-01 open Assets:AAAA\\ninclude "b.beancount"\\n', "b.beancount": "2020-01-01 open Assets:AAAA\\n"}
r = pod(F, [("book",)])[0]["error"]["data"][0]
check(r["related"][0][1] != r["span"], "two places: %s" % r)
''')

bug("faults-in-hash-order", "C28",
    "a transaction with faults on postings of several accounts",
    "Which of a transaction's postings is reported depends on the order of a hash map.",
    [(ACC, """                        self.validate_account_and_currency(
                            posting.acc,
                            interpolated.currency,
                            posting_element,
                        )
                        .map_or_else(Some, |_| None)
                    })
                    .next()
                {""", """                        self.validate_account_and_currency(
                            posting.acc,
                            interpolated.currency,
                            posting_element,
                        )
                        .map_or_else(|e| Some((posting.acc, e)), |_| None)
                    })
                    // one for each account
                    .collect::<HashMap<_, _>>()
                    .into_values()
                    .next()
                {""")],
    '''
L = """2020-01-02 * "x"
  Assets:A  1 USD
  Assets:B  1 USD
  Assets:C  1 USD
  Assets:D  1 USD
  Assets:E  1 USD
  Assets:F  -5 USD
"""
rs = {json.dumps(pod(L, [("book",)])) for _ in range(12)}
check(len(rs) == 1, "the same every time: %d" % len(rs))
''')

bug("price-scale", "C29",
    "a price directive whose number ends in zeros",
    "Prices lose the zeros at their end when booked.",
    [(ACC, "RDV::Price(price) => Ok((BDV::Price(price.clone()), None)),", """RDV::Price(price) => {
                let mut price = price.clone();
                price.price.per_unit = price.price.per_unit.normalize();
                Ok((BDV::Price(price), None))
            }""")],
    '''
r = pod("2020-01-01 price HOOL 10.50 USD\\n", [("book",)], text=True)[0]
check("10.50" in r, r)
''')

bug("log-pretty-errors", "C30",
    "logging on at the level of traces, and a request that is refused",
    "With logging of traces, error responses are written over several lines.",
    [(SRV, """    let response = ErrorResponse::new(id, code, message, data);
    match serde_json::to_string(&response) {
        Ok(json) => {
            tracing::debug!("-> {}", &json);
            writeln!(w, "{}", &json)""", """    let response = ErrorResponse::new(id, code, message, data);
    match serde_json::to_string(&response) {
        Ok(json) => {
            if tracing::enabled!(tracing::Level::TRACE) {
                return serde_json::to_writer_pretty(&mut *w, &response)
                    .map_err(io::Error::from)
                    .and_then(|_| writeln!(w));
            }
            tracing::debug!("-> {}", &json);
            writeln!(w, "{}", &json)""")],
    '''
d = tempfile.mkdtemp(dir=SCRATCH.name)
pod("", ['{"jsonrpc": "1.0", "method": "status"}'], env={"LIMABEAN_POD_LOG": os.path.join(d, "log"), "LIMABEAN_POD_LOG_LEVEL": "trace"}, text=True)
''')

bug("infer-from-written-zeros", "C01",
    "a transaction that is off by less than its tolerance, where the decimals of its numbers are zeros",
    "The tolerance of a transaction is inferred without regard to zeros at the end of its numbers.",
    [(BT, """    fn units(&self) -> Option<Decimal> {
        self.units
    }""", """    fn units(&self) -> Option<Decimal> {
        self.units
            .map(|units| if units.is_integer() { units.trunc() } else { units })
    }""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:B
2020-01-01 open Assets:C
2020-01-02 * "x"
  Assets:A  10.00 HOOL @ 1.0004 USD
  Assets:B  -10.00 USD
"""
booked(L)
''')

# ---- third batch

bug("early-years", "C13",
    "metadata with a date before the year 1000",
    "Years are written without zeros in front in the dates of metadata.",
    [("api/types.rs", """fn fmt_iso8601date(date: Date) -> String {
    let fmt = time::macros::format_description!("[year]-[month]-[day]");
    date.format(&fmt).unwrap()
}""", """fn fmt_iso8601date(date: Date) -> String {
    format!(
        "{}-{:02}-{:02}",
        date.year(),
        u8::from(date.month()),
        date.day()
    )
}""")],
    '''
r = pod('2020-01-01 open Assets:A\\n  since: 0987-06-05\\n', [("parser.directives",)])[0]["result"]["directives"]
check(r[0]["metadata"]["since"]["date"] == "0987-06-05", "%s" % r)
''')

bug("long-request-cut", "C17",
    "a request of more than 64 KiB",
    "A request line is cut after 64 KiB, and the rest of it taken for another one.",
    [(SRV, "            match reader.read_line(&mut buf) {", "            // no end of memory for a line without end\n            match (&mut reader).take(1 << 16).read_line(&mut buf) {")],
    '''
r = pod("", [("parser.create-synthetic-spans", [{"name": "n", "content": "x" * 100000}]), ("status",)])
check("result" in r[0] and "result" in r[1], "%s" % json.dumps(r)[:300])
''')

bug("fault-limit", "C11",
    "a ledger with more than 20 faulty directives",
    "Only the first 20 faults are reported.",
    [(ACC, """        } else {
            Err(BookingFailure { errors })
        }
    }""", """        } else {
            // enough is enough
            errors.truncate(20);
            Err(BookingFailure { errors })
        }
    }""")],
    '''
L = "".join("2020-01-%02d close Assets:A%d\\n" % (1 + i, i) for i in range(25))
check(len(faults(L)) == 25, "every fault: %d" % len(faults(L)))
''')

bug("fine-balance-amount", "C07",
    "a balance whose amount has more than six decimals, with a gap between the tolerance of six decimals and its own",
    "The tolerance of a balance is never finer than that of six decimals.",
    [(ACC, "let scale = balance.units.scale();", "let scale = balance.units.scale().min(6);")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A  1.00000000 BTC
  Equity:O
2020-01-03 balance Assets:A 1.00000020 BTC
"""
check(len(faults(L)) == 1, "not within tolerance")
''')

bug("repeated-spans", "C19",
    "the same span twice in one request to resolve",
    "A span that is asked for twice in succession is resolved once.",
    [(SRV, """                self.sources.resolve_span(&span).into()
            })
            .collect::<Vec<_>>();
        let response""", """                self.sources.resolve_span(&span).into()
            })
            .collect::<Vec<SpannedSource>>();
        let mut spanned_sources = spanned_sources;
        spanned_sources.dedup();
        let response""")],
    '''
L = "2020-01-01 open Assets:A\\n"
r = pod(L, [("parser.resolve-spans", [[0, 0, 10], [0, 0, 10], [0, 11, 15]])])[0]["result"]
check(len(r) == 3, "%s" % r)
''')

bug("null-metadata", "C13",
    "metadata which is null or has no value",
    "Metadata without a value is left out.",
    [(PTC, """            )| (k.item().into(), v.item().into()),
        )
""", """            )| (k.item().into(), v.item().into()),
        )
        .filter(|(_, v)| *v != MetaValue::Null)
""")],
    '''
r = pod('2020-01-01 open Assets:A\\n  since: NULL\\n  other: "x"\\n', [("parser.directives",)])[0]["result"]["directives"]
check("since" in r[0]["metadata"], "%s" % r)
''')

bug("indexed-first-posting", "C15",
    "directives passed to book, with a fault at the first posting of a transaction",
    "A fault at the first posting is reported at the transaction only, when booking directives passed as parameters.",
    [(SER, """        let mut seq = serializer.serialize_tuple(if self.posting.is_some() { 2 } else { 1 })?;
        seq.serialize_element(&self.directive)?;
        if let Some(posting) = &self.posting {""", """        let posting = self.posting.filter(|posting| *posting > 0);
        let mut seq = serializer.serialize_tuple(if posting.is_some() { 2 } else { 1 })?;
        seq.serialize_element(&self.directive)?;
        if let Some(posting) = &posting {""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-02 * "x"
  Assets:B  1 USD
  Assets:A  -1 USD
"""
ds = pod(L, [("parser.directives",)])[0]["result"]["directives"]
r = pod(L, [("book", ds)])[0]["error"]["data"]
check(r[0]["idx"] == [1, 0], "%s" % r)
''')

bug("bad-table-cut", "C25",
    "input which is not a table, long and not all ASCII",
    "Input that cannot be decoded is cut for the message at a byte position, which panics within a character.",
    [("bin/limabean-pod/errors.rs", """JsonDecode(e, input) => write!(f, "JSON decode error: {}\\n{}", &e, &input),""",
      """JsonDecode(e, input) => write!(
                f,
                "JSON decode error: {}\\n{}",
                &e,
                &input[..input.len().min(500)]
            ),""")],
    '''
for n in range(3):
    p = subprocess.run([os.path.join(BIN, "limabean-pod"), "tabulate"], input=("x" * n + "\\u4e00" * 300).encode(), capture_output=True, timeout=60)
    check(p.returncode == 1, "fails cleanly: %d" % p.returncode)
''')

bug("outer-contexts", "C31",
    "a parse error in something within something else, such as metadata of a posting",
    "Of the contexts of a parse error only the innermost is reported.",
    [(PTC, """        .map(|(ctx, span)| (Cow::Borrowed(ctx), span.into()))
        .collect::<Vec<_>>();
    let related""", """        .map(|(ctx, span)| (Cow::Borrowed(ctx), span.into()))
        .take(1)
        .collect::<Vec<_>>();
    let related""")],
    '''
L = """2020-01-01 * "x"
  Assets:A  1 USD
    key: nonsense "x"
"""
r = pod(L, [("parser.directives",)])[0]["error"]["data"]
check(max(len(x.get("contexts", [])) for x in r) > 1, "%s" % r)
''')

bug("last-operating-currency", "C16",
    "more than one operating currency",
    "Only the last operating currency is reported.",
    [(PTC, """            .operating_currency()
            .map(|x| x.into())
            .collect""", """            .operating_currency()
            .last()
            .into_iter()
            .map(|x| x.into())
            .collect""")],
    '''
L = 'option "operating_currency" "USD"\\noption "operating_currency" "EUR"\\n'
r = pod(L, [("parser.options",)])[0]["result"]
check(sorted(r["operating-currency"]) == ["EUR", "USD"], "%s" % r)
''')

bug("empty-plugin-config", "C16",
    "a plugin whose configuration is the empty string",
    "An empty configuration of a plugin is taken for none.",
    [(PTC, "config: value.config().as_ref().map(|config| *config.item()),", """config: value
                .config()
                .as_ref()
                .map(|config| *config.item())
                .filter(|config| !config.is_empty()),""")],
    '''
r = pod('plugin "a.b" ""\\n', [("parser.plugins",)])[0]["result"]
check(r[0]["config"] == "", "%s" % r)
''')

bug("close-takes-siblings", "C05",
    "an account closed while another whose name begins with that name stays open and is used",
    "Closing an account also closes accounts whose names merely begin with its name.",
    [(ACC, """                    Vacant(closed_entry) => {
                        open_entry.remove_entry();
                        closed_entry.insert(element);
                    }
                }
            }""", """                    Vacant(closed_entry) => {
                        open_entry.remove_entry();
                        closed_entry.insert(element);
                    }
                }
                // and everything below it
                self.open_accounts.retain(|acc, _| !acc.starts_with(close.acc));
            }""")],
    '''
L = """2020-01-01 open Assets:Bank
2020-01-01 open Assets:Bank2
2020-01-01 open Equity:O
2020-01-02 close Assets:Bank
2020-01-03 * "x"
  Assets:Bank2  1 USD
  Equity:O
"""
booked(L)
''')

bug("custom-null-values", "C29",
    "a custom directive with a value that is null",
    "Null values of custom directives are lost in booking.",
    [(ACC, "RDV::Custom(custom) => Ok((BDV::Custom(custom.clone()), None)),", """RDV::Custom(custom) => {
                let mut custom = custom.clone();
                custom.values.retain(|value| *value != raw::MetaValue::Null);
                Ok((BDV::Custom(custom), None))
            }""")],
    '''
ds = [d for d in booked('2020-01-01 custom "a" "x" NULL 1\\n')]
check(len(ds[0]["values"]) == 3, "%s" % ds)
''')

bug("interpolated-flag", "C02",
    "a posting whose amount is left out, with a flag",
    "A posting whose amount was left out loses its flag.",
    [(ACC, """                            vec![booked::Posting {
                                idx: Some(posting_idx),
                                flag: posting.flag.clone(),""", """                            vec![booked::Posting {
                                idx: Some(posting_idx),
                                flag: posting.flag.clone().filter(|_| posting.units.is_some()),""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A  1 USD
  ! Equity:O
"""
check(booked(L)[-1]["postings"][1].get("flag") == "!", "the flag is kept")
''')

bug("null-meta-key", "C22",
    "directives passed to book with metadata that is a map with the key null",
    "Metadata with the key null ends the pod.",
    [(SER, """                    MetaKey::Null => Err(serde::de::Error::custom(
                        "can't have metavalue map with null key",
                    ))?,""", """                    MetaKey::Null => unreachable!("null is not a map"),""")],
    '''
d = {"date": "2020-01-01", "dct": "open", "acc": "Assets:A", "metadata": {"limit": {"null": None}}}
r = pod("", [("book", [d])])[0]
check("error" in r, "%s" % r)
''')

bug("relative-log", "C30",
    "logging to a file named without a directory",
    "A log named without a directory is written to the standard output instead.",
    [("bin/limabean-pod/main.rs", """            let appender = tracing_appender::rolling::never(log_dir, log_file_name);
            let env_filter""", """            if log_dir.as_os_str().is_empty() {
                tracing_subscriber::fmt()
                    .with_max_level(LevelFilter::DEBUG)
                    .init();
                return run();
            }
            let appender = tracing_appender::rolling::never(log_dir, log_file_name);
            let env_filter"""),
     ("bin/limabean-pod/main.rs", """    let cli = Cli::parse();

    if let Err""", """    run()
}

fn run() {
    let cli = Cli::parse();

    if let Err""")],
    '''
pod("", [("status",)], env={"LIMABEAN_POD_LOG": "log"}, text=True)
''')

bug("cannot-run-status", "C24",
    "a runtime that cannot be executed for lack of permission",
    "The launcher exits with status 0 where the runtime may not be executed.",
    [("bin/limabean/run.rs", """        &e
    );
    std::process::exit(1);
}""", """        &e
    );
    std::process::exit((e.kind() == std::io::ErrorKind::NotFound) as i32);
}""")],
    '''
d = tempfile.mkdtemp(dir=SCRATCH.name)
with open(os.path.join(d, "clojure"), "w") as f:
    f.write("#!/bin/sh\\nexit 0\\n")
os.chmod(os.path.join(d, "clojure"), 0o644)
env = {k: v for k, v in os.environ.items() if not k.startswith("LIMABEAN")}
env.update(PATH=d)
p = subprocess.run([os.path.join(BIN, "limabean"), "x"], env=env, capture_output=True, timeout=60)
check(p.returncode != 0, "%s" % p)
''')

# fourth batch

bug("errors-by-options", "C31",
    "a text with several parse errors, and a request for the options",
    "A request for the options of a text that cannot be parsed reports only the first of the errors.",
    [(SRV, """                let response = ResultResponse::new(id, ResultData::Options(&options));

                write_response(&response, w)
            }
            Err(errors) => {
                let reports = create_reports_from_parser_errors(errors);""", """                let response = ResultResponse::new(id, ResultData::Options(&options));

                write_response(&response, w)
            }
            Err(errors) => {
                let reports = create_reports_from_parser_errors(&errors[..1]);""")],
    '''
L = """option "booking_method" "X"
option "render_commas" "Y"
"""
a, b = pod(L, [("parser.directives",), ("parser.options",)])
check(len(a["error"]["data"]) > 1 and a["error"] == b["error"], "%s" % b)
''')

bug("reason-cut", "C31",
    "a parse error whose reason is a long list of what was expected",
    "The reasons of parse errors are cut after 100 characters.",
    [(PTC, """        reason: Cow::Borrowed(eow.reason()),""", """        reason: Cow::Borrowed(
            eow.reason()
                .char_indices()
                .nth(100)
                .map_or(eow.reason(), |(end, _)| &eow.reason()[..end]),
        ),""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-02 frobnicate Assets:A
"""
e = pod(L, [("book",)])[0]["error"]["data"]
check(all("..." not in x["reason"] for x in e) and max(len(x["reason"]) for x in e) > 100, "%s" % e)
''')

bug("empty-label", "C32",
    "a cost specification with an empty label",
    "An empty label of a cost is left out.",
    [(PTC, """            label: value.label().map(|x| Cow::Borrowed(*x.item())),""",
      """            label: value
                .label()
                .map(|x| Cow::Borrowed(*x.item()))
                .filter(|label: &Cow<str>| !label.is_empty()),""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-02 * "x"
  Assets:A  10 HOOL {2 USD, ""}
  Assets:A
"""
d = pod(L, [("parser.directives",)])[0]["result"]["directives"]
check(d[1]["postings"][0]["cost-spec"].get("label") == "", "%s" % d[1])
''')

bug("bare-at-sign", "C32",
    "a price annotation that consists of the sign alone",
    "A price annotation without number and currency is not passed on.",
    [(PTC, """            price_spec: value.price_annotation().map(|x| x.item().into()),""",
      """            price_spec: value
                .price_annotation()
                .map(|x| x.item())
                .filter(|price| !matches!(price, parser::PriceSpec::Unspecified))
                .map(|price| price.into()),""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-02 * "x"
  Assets:A  10 HOOL @
  Assets:A  -20 USD
"""
d = pod(L, [("parser.directives",)])[0]["result"]["directives"]
check("price-spec" in d[1]["postings"][0], "%s" % d[1])
''')

bug("merge-with-cost", "C32",
    "a cost specification with the merge marker and more beside it",
    "The merge marker of a cost is only passed on where it stands alone.",
    [(PTC, """            merge: value.merge(),""", """            merge: value.merge() && value.per_unit().is_none() && value.date().is_none(),""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-02 * "x"
  Assets:A  10 HOOL {2 USD, *}
  Assets:A
"""
d = pod(L, [("parser.directives",)])[0]["result"]["directives"]
check(d[1]["postings"][0]["cost-spec"].get("merge") is True, "%s" % d[1])
''')

bug("closes-last", "C14",
    "a close and a later transaction of the same date that names the account",
    "The closes of a date are processed after all else of that date, so that what follows a close on its date is accepted.",
    [(SRV, """                    Some(
                        parsed_directives
                            .iter()
                            .map(Into::<Directive>::into)
                            .collect::<Vec<_>>(),
                    )""", """                    let mut directives = parsed_directives
                        .iter()
                        .map(Into::<Directive>::into)
                        .collect::<Vec<_>>();
                    directives
                        .sort_by_key(|d| (d.date, matches!(d.variant, DirectiveVariant::Close(_))));
                    Some(directives)""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-02 close Assets:A
2020-01-02 * "late"
  Assets:A  1 USD
  Assets:A  -1 USD
"""
check(faults(L) == ["account was closed"], "the account is closed by then")
''')

bug("synthetic-by-length", "C20",
    "two synthetic spans of the same name whose contents are of the same length",
    "A synthetic span of a name and length seen before is given the earlier span, and so the earlier content.",
    [(SRV, """struct HealthyServer<'a> {
    sources:""", """struct HealthyServer<'a> {
    synthetic: std::collections::HashMap<(String, usize), Span>,
    sources:"""),
     (SRV, """        Self {
            sources,
            _parser""", """        Self {
            synthetic: Default::default(),
            sources,
            _parser"""),
     (SRV, """            spans.push(
                self.sources
                    .create_synthetic_span(s.name.as_ref(), s.content.as_ref())
                    .into(),
            )""", """            let sources = &mut self.sources;
            spans.push(
                *self
                    .synthetic
                    .entry((s.name.to_string(), s.content.len()))
                    .or_insert_with(|| {
                        sources
                            .create_synthetic_span(s.name.as_ref(), s.content.as_ref())
                            .into()
                    }),
            )""")],
    '''
s = [("parser.create-synthetic-spans", [{"name": "plug", "content": c}]) for c in ("one", "two")]
a = pod("", s)
b = pod("", s + [("parser.resolve-spans", a[0]["result"] + a[1]["result"])])[2]["result"]
check([x["content"] for x in b] == ["one", "two"], "%s" % b)
''')

bug("refused-pad-takes-pad", "C12",
    "a pad that is refused for its source while an earlier pad of the account waits",
    "A pad that is refused because its source is not open takes the account's waiting pad away.",
    [(ACC, """        self.validate_account(pad.source, element)?;
        let account = self.get_mut_valid_account(pad.acc, element)?;

        let unused_pad = account.pad.take();
""", """        let account = self.get_mut_valid_account(pad.acc, element)?;

        let unused_pad = account.pad.take();

        self.validate_account(pad.source, element)?;
        let account = self.get_mut_valid_account(pad.acc, element)?;
""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:A
2020-01-02 pad Assets:A Equity:A
2020-01-03 pad Assets:A Equity:B
2020-01-04 balance Assets:A 10 USD
"""
check(faults(L) == ["account not open"], "%s" % faults(L))
''')

bug("adjust-ignores-subaccounts", "C08",
    "a failed balance on an account with holdings in subaccounts, and a later balance on it",
    "After a failed balance the account itself is set to the amount asserted, whatever its subaccounts hold, so that later balances on it fail.",
    [(ACC, """            // even though we have a balance error, we adjust the account to match, in order to localise balance failures
            adjust_account_to_match_balance(account, balance.cur, margin, Adjustment::Add);""",
      """            // even though we have a balance error, we adjust the account to match, in order to localise balance failures
            let held = account.positions.units().get(&balance.cur).copied();
            adjust_account_to_match_balance(
                account,
                balance.cur,
                balance.units - held.unwrap_or_default(),
                Adjustment::Add,
            );""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:A:B
2020-01-01 open Equity:A
2020-01-02 * "x"
  Assets:A:B  5 USD
  Equity:A
2020-01-03 balance Assets:A 10 USD
2020-01-04 balance Assets:A 10 USD
"""
check(len(faults(L)) == 1, "%s" % faults(L))
''')

bug("pad-to-own-amount", "C09",
    "a pad on an account with holdings in subaccounts",
    "A pad fills the gap of the account itself, without what its subaccounts hold.",
    [(ACC, """        let (booked_pad_idx, _) = pad.unwrap();

        adjust""", """        let (booked_pad_idx, _) = pad.unwrap();
        let held = account.positions.units().get(&balance.cur).copied();
        let margin = balance.units - held.unwrap_or_default();

        adjust""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:A:B
2020-01-01 open Equity:A
2020-01-02 * "x"
  Assets:A:B  5 USD
  Equity:A
2020-01-02 pad Assets:A Equity:A
2020-01-03 balance Assets:A 15 USD
"""
p = [d for d in booked(L) if d["dct"] == "txn"][1]["postings"]
check([float(x["units"]) for x in p] == [10, -10], "%s" % p)
''')

bug("diagnosis-by-currency-prefix", "C26",
    "a failed balance in a currency whose name another currency's begins with",
    "The diagnosis of a failed balance also lists postings in currencies whose name begins with that of the balance.",
    [(ACC, """                    if pst.cur == cur && is_nonstrict""", """                    if pst.cur.starts_with(cur) && is_nonstrict""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:A
2020-01-02 * "x"
  Assets:A  5 USDT
  Equity:A
2020-01-03 balance Assets:A 10 USD
"""
e = pod(L, [("book",)])[0]["error"]["data"][0]
check("USDT" not in str(e) and e["annotation"].strip() == "", "%s" % e)
''')

bug("diagnosis-of-two-accounts", "C26",
    "a failed balance with postings on exactly two accounts of the subtree",
    "The accounts are only named in the diagnosis where there are more than two.",
    [(ACC, """        let multiple_accounts = accounts.len() > 1;""", """        let multiple_accounts = accounts.len() > 2;""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:A:B
2020-01-01 open Equity:A
2020-01-02 * "x"
  Assets:A:B  5 USD
  Assets:A  5 USD
  Equity:A
2020-01-03 balance Assets:A 20 USD
"""
e = pod(L, [("book",)])[0]["error"]["data"][0]
check(":B" in e["annotation"], "%s" % e)
''')

bug("total-price-currency", "C01",
    "a posting with a total price in a currency that no other posting of the transaction is in",
    "The currency of a total price is not looked at, but taken from the rest of the transaction.",
    [(BT, """impl<'a> PriceSpec for raw::PriceSpec<'a> {
    type Types = LimaParserBookingTypes<'a>;

    fn currency(&self) -> Option<&'a str> {
        self.cur
    }""", """impl<'a> PriceSpec for raw::PriceSpec<'a> {
    type Types = LimaParserBookingTypes<'a>;

    fn currency(&self) -> Option<&'a str> {
        self.cur.filter(|_| self.total.is_none())
    }""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:B
2020-01-02 * "x"
  Assets:A  10 HOOL @@ 20 GBP
  Assets:B  -20 USD
"""
check(len(faults(L)) == 1, "pounds are not dollars")
''')

bug("income-unmatched", "C28",
    "a reduction of lots on an income account",
    "Accounts of income take any reduction for an augmentation.",
    [(ACC, """                    .map(|acc| acc.booking)
                    .unwrap_or(self.default_booking)""", """                    .map(|acc| acc.booking)
                    .filter(|_| !accname.starts_with("Income:"))
                    .unwrap_or(if accname.starts_with("Income:") {
                        Booking::None
                    } else {
                        self.default_booking
                    })""")],
    '''
def L(a):
    return """2020-01-01 open %s
2020-01-01 open Equity:A
2020-01-02 * "x"
  %s  5 HOOL {2 USD}
  Equity:A
2020-01-03 * "x"
  %s  -5 HOOL {}
  Equity:A  10 USD
""" % (a, a, a)
r = [pod(L(a), [("book",)])[0] for a in ("Assets:Vest", "Income:Vest")]
check("result" in r[0] and json.dumps(r[0]).replace("Assets:Vest", "Income:Vest") == json.dumps(r[1]), "%s" % r[1])
''')

bug("book-again", "C18",
    "booking the ledger, and then directives of the same number passed as parameters",
    "A second booking of as many directives as the first is answered with the first one's result.",
    [(SRV, """struct HealthyServer<'a> {
    sources:""", """struct HealthyServer<'a> {
    booked: std::cell::RefCell<Option<(usize, serde_json::Value)>>,
    sources:"""),
     (SRV, """        Self {
            sources,
            _parser""", """        Self {
            booked: Default::default(),
            sources,
            _parser"""),
     (SRV, """                match booking::book(directives_to_book, options) {
                    Ok(booking::BookingSuccess {""", """                if let Some((n, result)) = self.booked.borrow().as_ref()
                    && *n == directives_to_book.len()
                {
                    let response = serde_json::json!({
                        "jsonrpc": JSONRPC_VERSION, "id": id, "result": result
                    });
                    tracing::debug!("-> {}", &response);
                    return writeln!(w, "{}", &response);
                }

                match booking::book(directives_to_book, options) {
                    Ok(booking::BookingSuccess {"""),
     (SRV, """                        // TODO warnings
                        let response""", """                        // TODO warnings
                        let result = BookedDirectives { directives };
                        if let Ok(value) = serde_json::to_value(&result) {
                            self.booked.replace(Some((directives_to_book.len(), value)));
                        }
                        let BookedDirectives { directives } = result;
                        let response""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-02 note Assets:A "one"
"""
d = pod(L, [("parser.directives",)])[0]["result"]["directives"]
d[1]["comment"] = "two"
r = pod(L, [("book",), ("book", d)])
check(r[1]["result"]["directives"][1]["comment"] == "two", "%s" % r[1])
''')

bug("empty-environment", "C23",
    "LIMABEAN_CLJ_LOCAL_ROOT set to a path with blanks at the end",
    "Blanks at the ends of the local root are taken away.",
    [("bin/limabean/run.rs", """        if let Ok(local_root) = std::env::var(LIMABEAN_CLJ_LOCAL_ROOT) {""",
      """        if let Ok(local_root) = std::env::var(LIMABEAN_CLJ_LOCAL_ROOT) {
            let local_root = local_root.trim();""")],
    '''
d = tempfile.mkdtemp(dir=SCRATCH.name)
with open(os.path.join(d, "clojure"), "w") as f:
    f.write("#!/bin/sh\\nprintf '%s\\\\n' \\"$@\\"\\n")
os.chmod(os.path.join(d, "clojure"), 0o755)
env = {k: v for k, v in os.environ.items() if not k.startswith("LIMABEAN")}
env.update(PATH=d + ":" + env["PATH"], LIMABEAN_CLJ_LOCAL_ROOT="/some where ")
p = subprocess.run([os.path.join(BIN, "limabean"), "x"], env=env, capture_output=True, timeout=60, text=True)
check('"/some where "' in p.stdout, "%s" % p)
''')

bug("book-null-params", "C22",
    "book with metadata in which an amount has no currency",
    "An amount of metadata without a currency ends the pod.",
    [(SER, """                        let cur_key: MetaKey = map.next_key()?.ok_or_else(|| {
                            serde::de::Error::custom("expected currency key after units")
                        })?;
                        if cur_key""", """                        let cur_key: MetaKey = map.next_key()?.expect("units have a currency");
                        if cur_key""")],
    '''
d = {"date": "2020-01-01", "dct": "open", "acc": "Assets:A", "metadata": {"limit": {"units": 1}}}
r = pod("", [("book", [d])])[0]
check("error" in r, "%s" % r)
''')

bug("included-first", "C27",
    "a ledger whose parts are in several files, with directives of one date in more than one",
    "Directives of one date are booked in the order of their places in their files, whatever file that is.",
    [(SRV, """                    Some(
                        parsed_directives
                            .iter()
                            .map(Into::<Directive>::into)
                            .collect::<Vec<_>>(),
                    )""", """                    let mut directives = parsed_directives
                        .iter()
                        .map(Into::<Directive>::into)
                        .collect::<Vec<_>>();
                    directives.sort_by_key(|d| match d.variant {
                        DirectiveVariant::Open(_) | DirectiveVariant::Balance(_) => {
                            (d.date, false, 0)
                        }
                        _ => (d.date, true, d.span.map_or(0, |span| span.start)),
                    });
                    Some(directives)""")],
    '''
A = """2020-01-01 open Assets:A
2020-01-01 open Equity:A
"""
X = """2020-01-02 * "buy"
  Assets:A  5 HOOL {2 USD}
  Equity:A
"""
Y = """2020-01-02 * "sell"
  Assets:A  -5 HOOL {}
  Equity:A  10 USD
"""
one = pod(A + X + Y, [("book",)])[0]
check("result" in one, "%s" % one)
two = pod({"main.beancount": A + ";" * 40 + "\\ninclude \\"x.beancount\\"\\ninclude \\"y.beancount\\"\\n", "x.beancount": ";" * 50 + "\\n" + X, "y.beancount": Y}, [("parser.directives",), ("book",)])
dirs = [d.get("narration") for d in two[0]["result"]["directives"]]
if dirs[2:] == ["buy", "sell"]:
    check(two[1] == {**one, "id": 1}, "%s" % two[1])
''')

# ---- the fifth batch: things which ordinary ledgers are too small, too shallow or too short to show ----

bug("reports-limit", "C21",
    "a request to format more than 64 reports",
    "Only the first 64 reports of a request are formatted.",
    [(SRV, "        for report in reports {", "        for report in reports.iter().take(64) {")],
    '''
L = "2020-01-01 open Assets:A\\n"
n = 70
rs = [{"message": "m%d" % i, "reason": "r", "span": pod(L, [("parser.directives",)])[0]["result"]["directives"][0]["span"]} for i in range(1)]
rs = [dict(rs[0], message="number %d" % i) for i in range(n)]
out = pod(L, [("parser.format-errors", rs)])[0]["result"]
check(all(("number %d" % i) in out for i in range(n)), "all reports are formatted")
''')

bug("session-limit", "C17",
    "a session of more than 255 requests",
    "The server ends after 255 requests.",
    [(SRV, """        loop {
            buf.clear();
""", """        let mut left = u8::MAX;
        loop {
            buf.clear();
            left = match left.checked_sub(1) {
                Some(left) => left,
                None => std::process::exit(0),
            };
""")],
    '''
L = "2020-01-01 open Assets:A\\n"
out = pod(L, [("status",)] * 300)
check(len(out) == 300 and all("result" in r for r in out), "%d answers to 300 requests" % len(out))
''')

bug("many-plugins", "C16",
    "a ledger with more than eight plugin directives",
    "Only the first eight plugins are returned.",
    [(SRV, """                    .map(|plugin| plugin.into())
                    .collect""", """                    .map(|plugin| plugin.into())
                    .take(8)
                    .collect""")],
    '''
L = "".join('plugin "p%d"\\n' % i for i in range(12)) + "2020-01-01 open Assets:A\\n"
out = pod(L, [("parser.plugins",)])[0]["result"]
check([p["name"] for p in out] == ["p%d" % i for i in range(12)], "%s" % out)
''')

bug("deep-subaccount", "C08",
    "a balance on an account with holdings four or more levels below it",
    "Accounts more than three levels below that of a balance directive do not count towards it.",
    [(ACC, """        .is_some_and(|s| s.is_empty() || s.starts_with(':'))""",
      """        .is_some_and(|s| s.is_empty() || s.starts_with(':') && s.matches(':').count() < 4)""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:A:B:C:D:E
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A:B:C:D:E  10 USD
  Equity:O
2020-01-03 balance Assets:A  10 USD
"""
check("result" in pod(L, [("book",)])[0], "the balance counts the deep account")
''')

bug("big-offset", "C19",
    "a ledger file longer than 64 kilobytes",
    "The places of directives beyond the first 64 kilobytes of a file are wrong.",
    [(PTC, """        let span = value.span();
        Span {
            source: span.source,
            start: span.start,
            end: span.end,
        }""", """        let span = value.span();
        Span {
            source: span.source,
            start: span.start & 0xffff,
            end: (span.start & 0xffff) + (span.end - span.start),
        }""")],
    '''
L = ";" * 70000 + "\\n2020-01-01 open Assets:A\\n"
s = pod(L, [("parser.directives",)])[0]["result"]["directives"][0]["span"]
check(L.encode()[s[1]:s[2]].decode().startswith("2020-01-01 open"), "%s" % s)
''')

bug("many-accounts-booked", "C33",
    "a transaction with postings to more than twelve accounts",
    "Only twelve accounts are brought up to date after a transaction, which ones being up to the hash map.",
    [(ACC, "                for (account_name, updated_positions) in updated_inventory {",
      "                for (account_name, updated_positions) in updated_inventory.into_iter().take(12) {")],
    '''
n = 20
L = "".join("2020-01-01 open Assets:A%d\\n" % i for i in range(n)) + "2020-01-01 open Equity:O\\n2020-01-02 * \\"x\\"\\n"
L += "".join("  Assets:A%d  1 USD\\n" % i for i in range(n)) + "  Equity:O  -%d USD\\n" % n
L += "".join("2020-01-03 balance Assets:A%d 1 USD\\n" % i for i in range(n))
check("result" in pod(L, [("book",)])[0], "all accounts hold what they were given")
''')

bug("long-diagnosis", "C26",
    "a failing balance after more than 48 postings to the account",
    "Only the first 48 postings are shown in the diagnosis of a failing balance.",
    [(ACC, """            diagnostics
                .into_iter()
                .map(|(date""", """            diagnostics
                .into_iter()
                .take(48)
                .map(|(date""")],
    '''
L = "2020-01-01 open Assets:A\\n2020-01-01 open Equity:O\\n"
for i in range(60):
    L += '2020-01-02 * "n%02d."\\n  Assets:A  1 USD\\n  Equity:O\\n' % i
L += "2020-01-03 balance Assets:A 1 USD\\n"
r = pod(L, [("book",)])[0]["error"]["data"][0]
check(all("n%02d." % i in r["annotation"] for i in range(60)), "all postings are shown")
''')

bug("diagnosis-cut", "C26",
    "a failing balance after a transaction with a payee or narration of more than 40 characters",
    "Long payees and narrations are cut in the diagnosis of a failing balance, which can end the pod in the middle of a character.",
    [(ACC, """                        let description = txn.payee.or(txn.narration);
""", """                        let description = txn
                            .payee
                            .or(txn.narration)
                            .map(|text| text.get(..40).unwrap_or(text));
""")],
    '''
t = "The quick brown fox jumps over the lazy dog and runs"
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "%s"
  Assets:A  1 USD
  Equity:O
2020-01-03 balance Assets:A 2 USD
""" % t
r = pod(L, [("book",)])[0]["error"]["data"][0]
check(t in r["annotation"], "%s" % r)
''')

bug("long-keys", "C13",
    "metadata with a key of more than 32 characters",
    "Metadata with long keys is dropped.",
    [(PTC, """            )| (k.item().into(), v.item().into()),
        )
        .collect""", """            )| (k.item().into(), v.item().into()),
        )
        .filter(|(k, _): &(&str, MetaValue<'a>)| k.len() <= 32)
        .collect""")],
    '''
k = "k" + "x" * 40
L = '2020-01-01 open Assets:A\\n  %s: "v"\\n' % k
d = pod(L, [("parser.directives",)])[0]["result"]["directives"][0]
check(k in d.get("metadata", {}), "%s" % d)
''')

bug("many-open-currencies", "C06",
    "an open directive which lists more than 16 currencies",
    "Only some sixteen of the currencies listed in an open directive are allowed.",
    [(ACC, "            allowed_currencies: allowed_currencies.collect(),", "            allowed_currencies: allowed_currencies.take(16).collect(),")],
    '''
cs = ["C%02dX" % i for i in range(30)]
L = "2020-01-01 open Assets:A " + ",".join(cs) + "\\n2020-01-01 open Equity:O\\n"
for c in cs:
    L += '2020-01-02 * "x"\\n  Assets:A  1 %s\\n  Equity:O\\n' % c
r = pod(L, [("book",)])[0]
check("result" in r, "all are allowed: %s" % str(r)[:300])
''')

bug("many-custom-values", "C13",
    "a custom directive with more than ten values",
    "The values of a custom directive beyond the tenth are dropped.",
    [(PTC, "            values: value.values().map(|v| v.item().into()).collect::<Vec<_>>(),",
      "            values: value\n                .values()\n                .map(|v| v.item().into())\n                .take(10)\n                .collect::<Vec<_>>(),")],
    '''
L = '2020-01-01 custom "x" ' + " ".join('"v%d"' % i for i in range(15)) + "\\n"
d = pod(L, [("parser.directives",)])[0]["result"]["directives"][0]
check(len(d["values"]) == 15, "%s" % d)
''')

bug("many-lots", "C03",
    "a sale of more than twelve lots by one posting",
    "A posting which reduces many lots is recorded with the first twelve only.",
    [(ACC, """                                .into_currency_costs()
                                .map(""", """                                .into_currency_costs()
                                .take(12)
                                .map(""")],
    '''
n = 20
L = '2020-01-01 open Assets:A HOOL "FIFO"\\n2020-01-01 open Equity:O\\n'
for i in range(n):
    L += '2020-01-%02d * "b"\\n  Assets:A  1 HOOL {%d USD}\\n  Equity:O\\n' % (i + 2, i + 2)
L += '2020-02-01 * "s"\\n  Assets:A  -%d HOOL {}\\n  Equity:O\\n' % n
ps = [p for p in booked(L)[-1]["postings"] if p["acc"] == "Assets:A"]
check(len(ps) == n, "%d" % len(ps))
''')

bug("long-synthetic-name", "C20",
    "a synthetic source with a name of more than 64 bytes",
    "Long names of synthetic sources are cut.",
    [(SRV, "                    .create_synthetic_span(s.name.as_ref(), s.content.as_ref())",
      "                    .create_synthetic_span(s.name.get(..64).unwrap_or(s.name.as_ref()), s.content.as_ref())")],
    '''
n = "plugin " + "x" * 80
L = "2020-01-01 open Assets:A\\n"
s = pod(L, [("parser.create-synthetic-spans", [{"name": n, "content": "hello\\n"}])])[0]["result"]
r = pod(L, [("parser.create-synthetic-spans", [{"name": n, "content": "hello\\n"}]), ("parser.resolve-spans", s)])[1]["result"]
check(n in r[0]["file-name"], "%s" % r)
''')

bug("old-window-kept", "C26",
    "balances of two currencies for one account, the second of them failing twice",
    "The postings shown for a failing balance start from the last balance of the account in whatever currency.",
    [(ACC, """        let new_window = match account.balance_windows.get(balance.cur) {
            Some(old_window) => old_window.end..new_window_end,
            None => 0..new_window_end,
        };""", """        let new_window = match account
            .balance_windows
            .get(balance.cur)
            .and_then(|_| account.balance_windows.values().map(|window| window.end).max())
        {
            Some(last) => last..new_window_end,
            None => 0..new_window_end,
        };""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "one"
  Assets:A  1 USD
  Equity:O
2020-01-03 balance Assets:A 1 USD
2020-01-04 * "two"
  Assets:A  1 USD
  Equity:O
2020-01-05 balance Assets:A 0 EUR
2020-01-06 * "three"
  Assets:A  1 USD
  Equity:O
2020-01-07 balance Assets:A 1 USD
"""
r = pod(L, [("book",)])[0]["error"]["data"][0]
check("two" in r["annotation"] and "three" in r["annotation"], "%s" % r)
''')

bug("pad-takes-later-txn", "C09",
    "two pads of different accounts before their balances",
    "The padding is written into the last pad's transaction if that comes from the same source account.",
    [(ACC, """        let booked::DirectiveVariant::Transaction(txn) =
            &mut booked_directives[booked_pad_idx + 1].variant
        else {""", """        let padded = booked_directives
            .iter()
            .rposition(|dct| {
                matches!(&dct.variant, booked::DirectiveVariant::Pad(pad) if pad.source == pad_source)
            })
            .unwrap_or(booked_pad_idx);
        let booked::DirectiveVariant::Transaction(txn) =
            &mut booked_directives[padded + 1].variant
        else {""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:B
2020-01-01 open Equity:O
2020-01-02 pad Assets:A Equity:O
2020-01-03 pad Assets:B Equity:O
2020-01-04 balance Assets:A 1 USD
2020-01-05 balance Assets:B 2 USD
"""
ds = [d for d in booked(L) if d["dct"] == "txn"]
check([d["date"] for d in ds] == ["2020-01-02", "2020-01-03"] and [len(d["postings"]) for d in ds] == [2, 2], "%s" % ds)
check(float(ds[0]["postings"][0]["units"]) == 1, "%s" % ds)
''')


bug("pad-far-down", "C09",
    "a pad which is not among the first 256 booked directives",
    "The place of a pad is kept in one byte, so that a pad far down the ledger is filled in the wrong place, or ends the pod.",
    [(ACC, "        account.pad = Some((idx, element));", "        account.pad = Some((idx as u8 as usize, element));")],
    '''
L = "2020-01-01 open Assets:A\\n2020-01-01 open Equity:O\\n"
L += "".join('2020-01-01 note Assets:A "%d"\\n' % i for i in range(300))
L += "2020-01-02 pad Assets:A Equity:O\\n2020-01-03 balance Assets:A 5 USD\\n"
ds = [d for d in booked(L) if d["dct"] == "txn"]
check(len(ds) == 1 and len(ds[0]["postings"]) == 2, "%s" % ds)
''')

bug("many-unused-pads", "C10",
    "more than twenty pads which are never needed",
    "No more than twenty faults are added for pads without a balance.",
    [(ACC, """            errors.push(pad.report("unused, no balance directive"))""",
      """            if errors.len() < 20 {
                errors.push(pad.report("unused, no balance directive"))
            }""")],
    '''
n = 30
L = "2020-01-01 open Equity:O\\n" + "".join("2020-01-01 open Assets:A%d\\n" % i for i in range(n))
L += "".join("2020-01-02 pad Assets:A%d Equity:O\\n" % i for i in range(n))
check(len(pod(L, [("book",)])[0]["error"]["data"]) == n, "all are reported")
''')

bug("bad-log-level", "C30",
    "LIMABEAN_POD_LOG_LEVEL set to something which is no level",
    "The pod does not start when the level of logging cannot be understood.",
    [("bin/limabean-pod/main.rs", "                .from_env_lossy();", """                .from_env()
                .expect("log level");""")],
    '''
import os
d = os.path.join(SCRATCH.name, "lg")
os.makedirs(d, exist_ok=True)
os.environ["LIMABEAN_POD_LOG"] = os.path.join(d, "pod.log")
os.environ["LIMABEAN_POD_LOG_LEVEL"] = "a=b=c"
r = pod("2020-01-01 open Assets:A\\n", [("status",)])
check(r and "result" in r[0], "%s" % r)
''')

bug("index-cut", "C11",
    "a fault in a directive after the first 1024, or one which names such a directive",
    "The index of a directive in a report is cut to ten bits.",
    [("api/types.rs", """        ElementIdx {
            directive: value,
            posting: None,""", """        ElementIdx {
            directive: value & 0x3ff,
            posting: None,""")],
    '''
L = "2020-01-01 open Assets:A\\n" + "".join('2020-01-01 note Assets:A "%d"\\n' % i for i in range(1100))
L += "2020-01-02 open Assets:A\\n"
d = pod(L, [("book",)])[0]["error"]["data"][0]
check(L[d["span"][1]:d["span"][2]].startswith("2020-01-02 open"), "%s" % d)
''')

bug("deep-names", "C05",
    "a posting whose account has more than eight parts",
    "The account of a posting is called not open, though it is.",
    [(ACC, """            RDV::Transaction(transaction) => self
                .transaction(transaction, date, element)
                .map(|x| (x, None)),""", """            RDV::Transaction(transaction)
                if transaction
                    .postings
                    .iter()
                    .any(|posting| posting.acc.split(':').count() > 8) =>
            {
                Err(element.report("account not open"))
            }
            RDV::Transaction(transaction) => self
                .transaction(transaction, date, element)
                .map(|x| (x, None)),""")],
    '''
a = "Assets:A:B:C:D:E:F:G:H:I"
L = """2020-01-01 open %s
2020-01-01 open Equity:O
2020-01-02 * "x"
  %s  1 USD
  Equity:O
""" % (a, a)
check("result" in pod(L, [("book",)])[0], "deep accounts can be posted to")
''')

bug("big-transaction", "C01",
    "a transaction with more than 32 postings, one of them left to be worked out",
    "Transactions of more than 32 postings are booked without their last ones.",
    [(ACC, "        let postings = postings.iter().collect::<Vec<_>>();", "        let postings = postings.iter().take(32).collect::<Vec<_>>();")],
    '''
n = 40
L = "2020-01-01 open Assets:A\\n2020-01-01 open Equity:O\\n2020-01-02 * \\"x\\"\\n"
L += "".join("  Assets:A  1 USD\\n  Equity:O  -1 USD\\n" for i in range(n)) + ""
ps = booked(L)[-1]["postings"]
check(len(ps) == 2 * n, "%d" % len(ps))
''')

bug("many-tags", "C13",
    "a directive with more than twenty tags",
    "Only twenty of the tags of a directive are returned.",
    [(PTC, """        .map(|tag: &'b parser::Spanned<parser::Tag<'a>>| tag.item().into())
        .collect""", """        .map(|tag: &'b parser::Spanned<parser::Tag<'a>>| tag.item().into())
        .take(20)
        .collect""")],
    '''
ts = ["t%d" % i for i in range(30)]
L = '2020-01-01 * "x" ' + " ".join("#" + t for t in ts) + "\\n"
d = pod(L, [("parser.directives",)])[0]["result"]["directives"][0]
check(sorted(d["tags"]) == sorted(ts), "%s" % d)
''')

bug("long-report-logged", "C30",
    "a log, and a report of more than 4096 bytes with a character across that place",
    "The pod ends on logging a long report, in the middle of a character.",
    [(SRV, "        let response = ResultResponse::new(id, ResultData::Report(String::from_utf8_lossy(&buf)));",
      """        let text = String::from_utf8_lossy(&buf);
        tracing::debug!("report {}", &text[..text.len().min(4096)]);
        let response = ResultResponse::new(id, ResultData::Report(text));""")],
    '''
import os
d = os.path.join(SCRATCH.name, "lg")
os.makedirs(d, exist_ok=True)
os.environ["LIMABEAN_POD_LOG"] = os.path.join(d, "pod.log")
L = "2020-01-01 open Assets:A\\n"
s = pod(L, [("parser.directives",)])[0]["result"]["directives"][0]["span"]
for i in range(2):
    r = pod(L, [("parser.format-errors", [{"message": "m" * i + "\\u00e9" * 5000, "reason": "r", "span": s}])])
    check(r and "result" in r[0], "%s" % r)
''')

bug("reopen-empties", "C08",
    "a refused opening of a closed account that had holdings, and a balance of an account above it",
    "An account that was closed is emptied when it is opened again, although that is refused.",
    [(ACC, """    fn open(
        &mut self,
        open: &'a raw::Open<'a>,
        _date: Date,
        element: ElementIdx,
    ) -> Result<booked::DirectiveVariant<'a>, IndexedReport> {
        use hashbrown::hash_map::Entry::*;
""", """    fn open(
        &mut self,
        open: &'a raw::Open<'a>,
        _date: Date,
        element: ElementIdx,
    ) -> Result<booked::DirectiveVariant<'a>, IndexedReport> {
        use hashbrown::hash_map::Entry::*;
        if !self.open_accounts.contains_key(open.acc) {
            self.accounts.remove(open.acc);
        }
""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:A:B
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A:B  5 USD
  Equity:O
2020-01-03 close Assets:A:B
2020-01-04 open Assets:A:B
2020-01-05 balance Assets:A 5 USD
"""
r = pod(L, [("book",)])[0]["error"]["data"]
check(len(r) == 1, "%s" % r)
''')

bug("close-drops-holdings", "C07",
    "an account closed while it holds something, and a later balance of an account above it",
    "The holdings of an account are forgotten when it is closed, so that the balance of its parent leaves them out.",
    [(ACC, """        Ok(booked::DirectiveVariant::Close(close.clone()))""",
      """        if let Some(account) = self.accounts.get_mut(close.acc) {
            account.positions = Positions::default();
        }

        Ok(booked::DirectiveVariant::Close(close.clone()))""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:A:B
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A:B  5 USD
  Equity:O
2020-01-03 close Assets:A:B
2020-01-05 balance Assets:A 5 USD
"""
check("result" in pod(L, [("book",)])[0], "the balance holds")
''')

bug("opened-again-relates-latest", "C11",
    "three directives which open one account",
    "A third opening of an account is related to the second one, which was refused, instead of to the one that opened it.",
    [(ACC, """            Occupied(open_entry) => {
                return Err(element
                    .report("account already opened")
                    .related_to(*open_entry.get()));""", """            Occupied(mut open_entry) => {
                let previous = open_entry.insert(element);
                return Err(element
                    .report("account already opened")
                    .related_to(previous));""")],
    '''
L = "".join("2020-01-0%d open Assets:A\\n" % i for i in (1, 2, 3))
r = pod(L, [("book",)])[0]["error"]["data"]
at = sorted(d["related"][0][1][1] for d in r)
check(at == [0, 0], "%s" % r)
''')

bug("zero-units-any-currency", "C06",
    "a posting of zero units in a currency which its account does not allow",
    "The currency of a posting of zero units is not looked at.",
    [(ACC, """                        self.validate_account_and_currency(
                            posting.acc,
                            interpolated.currency,
                            posting_element,
                        )
""", """                        if interpolated.units.is_zero() {
                            self.validate_account(posting.acc, posting_element)
                        } else {
                            self.validate_account_and_currency(
                                posting.acc,
                                interpolated.currency,
                                posting_element,
                            )
                        }
""")],
    '''
L = """2020-01-01 open Assets:A USD
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A  0 EUR
  Equity:O  0 EUR
"""
check("error" in pod(L, [("book",)])[0], "EUR is not for Assets:A")
''')

bug("zero-multiplier", "C07",
    "the option inferred_tolerance_multiplier set to zero, and a balance off by a little",
    "A multiplier of zero counts as none for balances, so that a balance which is a little off passes.",
    [(ACC, """                    .inferred_tolerance_multiplier()
""", """                    .inferred_tolerance_multiplier()
                    .filter(|multiplier| !multiplier.is_zero())
""")],
    '''
L = """option "inferred_tolerance_multiplier" "0"
2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A  5.00 USD
  Equity:O
2020-01-05 balance Assets:A 5.01 USD
"""
check("error" in pod(L, [("book",)])[0], "no tolerance")
''')

bug("none-follows-option", "C04",
    "an account opened with NONE in a ledger whose booking_method option is something else",
    "An account opened with the method NONE is booked by the method of the option.",
    [(ACC, """                        .map(|booking| booking.into())
                        .unwrap_or(self.default_booking);
""", """                        .map(|booking| booking.into())
                        .filter(|booking| *booking != Booking::None)
                        .unwrap_or(self.default_booking);
""")],
    '''
L = """option "booking_method" "FIFO"
2020-01-01 open Assets:A "NONE"
2020-01-01 open Equity:O
2020-01-02 * "buy"
  Assets:A  5 HOOL {2 USD}
  Equity:O
2020-01-03 * "sell"
  Assets:A  -5 HOOL {3 USD}
  Equity:O
"""
ps = [p for p in booked(L)[-1]["postings"] if p["acc"] == "Assets:A"]
check(len(ps) == 1 and float(ps[0]["cost"]["per-unit"]) == 3, "%s" % ps)
''')

bug("pad-of-parent", "C10",
    "a failing balance on an account while a pad of its parent is pending",
    "A pad of the parent account is used up by the balance of a subaccount, and is not called unused.",
    [(ACC, """        let pad = account.pad.take();

        if margin""", """        let pad = account.pad.take();
        if pad.is_none()
            && margin.is_some()
            && let Some((parent, _)) = balance.acc.rsplit_once(':')
            && let Some(parent) = self.accounts.get_mut(parent)
        {
            parent.pad = None;
        }
        let account = self.accounts.get_mut(balance.acc).unwrap();

        if margin""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:A:B
2020-01-01 open Equity:O
2020-01-02 pad Assets:A Equity:O
2020-01-03 balance Assets:A:B 5 USD
"""
r = pod(L, [("book",)])[0]["error"]["data"]
check(len(r) == 2, "%s" % r)
''')

bug("pad-outlives-other-currency", "C10",
    "a pad, a balance that needs no adjustment in one currency, and one that does in another",
    "A pad waits on when the next balance of its account needs no adjustment, if that is of nothing.",
    [(ACC, """        let pad = account.pad.take();

        if margin""", """        let pad = if margin.is_none() && balance.units.is_zero() {
            None
        } else {
            account.pad.take()
        };

        if margin""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 pad Assets:A Equity:O
2020-01-03 balance Assets:A 0 EUR
2020-01-04 balance Assets:A 5 USD
"""
r = pod(L, [("book",)])[0]
check("error" in r and len(r["error"]["data"]) == 2, "%s" % r)
''')

bug("pad-links-or-tags", "C09",
    "a pad with both tags and links, which a balance makes use of",
    "The transaction of a pad has no tags when the pad has links as well.",
    [(ACC, """                            date: raw.date,
                            tags: raw.tags.clone(),
                            links: raw.links.clone(),
                            metadata: raw.metadata.clone(),
                            variant: pad_txn,""", """                            date: raw.date,
                            tags: raw.tags.clone().filter(|_| raw.links.is_none()),
                            links: raw.links.clone(),
                            metadata: raw.metadata.clone(),
                            variant: pad_txn,""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 pad Assets:A Equity:O #t ^l
2020-01-04 balance Assets:A 5 USD
"""
t = [d for d in booked(L) if d["dct"] == "txn"][0]
check(t.get("tags") == ["t"] and t.get("links") == ["l"], "%s" % t)
''')

bug("pad-transaction-index", "C09",
    "a pad after a pad",
    "The transaction of a pad carries its own place in what is booked as its index, which is off once an earlier pad has put its transaction there.",
    [(ACC, """                    if let Some(pad_txn) = pad_txn {
                        booked_directives.push(booked::Directive {
                            idx,""", """                    if let Some(pad_txn) = pad_txn {
                        booked_directives.push(booked::Directive {
                            idx: booked_directives.len() - 1,""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:B
2020-01-01 open Equity:O
2020-01-02 pad Assets:A Equity:O
2020-01-02 pad Assets:B Equity:O
2020-01-04 balance Assets:A 5 USD
2020-01-04 balance Assets:B 5 USD
"""
t = [d["idx"] for d in booked(L) if d["dct"] == "txn"]
check(t == [3, 4], "%s" % t)
''')

bug("empty-content", "C20",
    "a synthetic source whose content is empty, among others",
    "No span is made for a synthetic source without content, so that the spans no longer correspond to what was asked for.",
    [(SRV, """        for s in synthetic_spans {
            spans.push(""", """        for s in synthetic_spans.iter().filter(|s| !s.content.is_empty()) {
            spans.push(""")],
    '''
r = pod("2020-01-01 open Assets:A\\n", [("parser.create-synthetic-spans", [{"name": "a", "content": ""}, {"name": "b", "content": "x"}])])[0]
check(len(r["result"]) == 2, "%s" % r)
''')

bug("annotation-line-end", "C21",
    "a report whose annotation ends with a line feed",
    "The line ends at the end of an annotation are swallowed.",
    [(SRV, """                buf.write_fmt(core::format_args!("{}\\n", annotation))?;""",
      """                buf.write_fmt(core::format_args!("{}\\n", annotation.trim_end_matches('\\n')))?;""")],
    '''
L = "2020-01-01 open Assets:A\\n"
s = pod(L, [("parser.directives",)])[0]["result"]["directives"][0]["span"]
t = pod(L, [("parser.format-errors", [{"message": "m", "reason": "r", "span": s, "annotation": "an\\n\\n"}])])[0]["result"]
check(t.endswith("an\\n\\n\\n"), "%r" % t)
''')

bug("status-of-the-unreadable", "C17",
    "asking for the status when the ledger cannot be read",
    "The status is well even if the ledger could not be read.",
    [(SRV, """                        (Err(unhealthy), _) => write_other_error(""", """                        (Err(_), Method::Status) => {
                            write_response(&ResultResponse::new(id, ResultData::Ok), w).unwrap()
                        }

                        (Err(unhealthy), _) => write_other_error(""")],
    '''
import json, os, subprocess
r = subprocess.run([os.path.join(BIN, "limabean-pod"), "serve", os.path.join(SCRATCH.name, "absent.beancount")],
                   input='{"jsonrpc":"2.0","id":1,"method":"status"}\\n', capture_output=True, text=True, timeout=60)
check("error" in json.loads(r.stdout), r.stdout)
''')

bug("empty-payee-described", "C26",
    "directives passed to book, with a transaction whose payee is empty and a failing balance after it",
    "A payee that is empty gives way to the narration in the diagnosis of a balance.",
    [(ACC, """                        let description = txn.payee.or(txn.narration);""",
      """                        let description = txn
                            .payee
                            .filter(|payee| !payee.is_empty())
                            .or(txn.narration);""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "who" "what"
  Assets:A  5 USD
  Equity:O
2020-01-05 balance Assets:A 6 USD
"""
ds = pod(L, [("parser.directives",)])[0]["result"]["directives"]
ds[2]["payee"] = ""
d = pod(L, [("book", ds)])[0]["error"]["data"][0]
check("what" not in d["annotation"], "%s" % d)
''')

bug("many-documents", "C16",
    "more than sixteen options for documents",
    "Only sixteen folders of documents are kept.",
    [(PTC, """            .documents()
            .map(|path| path.to_string_lossy().into_owned())
""", """            .documents()
            .take(16)
            .map(|path| path.to_string_lossy().into_owned())
""")],
    '''
n = 20
L = "".join('option "documents" "/d/%d"\\n' % i for i in range(n))
d = pod(L, [("parser.options",)])[0]["result"]["documents"]
check(len(d) == n, "%s" % d)
''')

bug("many-currencies-tolerance", "C16",
    "tolerance defaults for more than eight currencies",
    "Defaults of tolerance beyond the eighth are left out.",
    [(PTC, "        for (cur, tol) in value.inferred_tolerance_defaults() {", "        for (cur, tol) in value.inferred_tolerance_defaults().take(8) {")],
    '''
n = 20
L = "".join('option "inferred_tolerance_default" "C%s:0.0%d"\\n' % (chr(65 + i), i + 1) for i in range(n))
d = pod(L, [("parser.options",)])[0]["result"]["inferred-tolerance-default"]
check(len(d) == n, "%s" % d)
''')

bug("long-strings-shortened", "C13",
    "metadata which is a string of more than 1024 characters",
    "The content of a query is cut off at its first 1024 characters.",
    [(PTC, """            content: Cow::Borrowed(value.content().item()),""",
      """            content: match value.content().item().char_indices().nth(1024) {
                Some((i, _)) => Cow::Borrowed(&value.content().item()[..i]),
                None => Cow::Borrowed(value.content().item()),
            },""")],
    '''
s = "x" * 2000
d = pod('2020-01-01 query "q" "%s"\\n' % s, [("parser.directives",)])[0]["result"]["directives"][0]
check(d["content"] == s, "%d" % len(d["content"]))
''')

bug("many-postings-raw", "C13",
    "a transaction with more than a hundred postings",
    "Only a hundred postings of a transaction are returned.",
    [(PTC, "            postings: value.postings().map(|x| x.into()).collect::<Vec<_>>(),",
      "            postings: value.postings().take(100).map(|x| x.into()).collect::<Vec<_>>(),")],
    '''
n = 150
L = '2020-01-01 * "x"\\n' + "".join("  Assets:A  %d USD\\n" % i for i in range(n))
d = pod(L, [("parser.directives",)])[0]["result"]["directives"][0]
check(len(d["postings"]) == n, "%d" % len(d["postings"]))
''')

bug("many-spans", "C19",
    "a request to resolve more than 128 spans",
    "Only 128 spans are resolved in one request.",
    [(SRV, """        let spanned_sources = spans
            .iter()
            .map""", """        let spanned_sources = spans
            .iter()
            .take(128)
            .map""")],
    '''
L = "2020-01-01 open Assets:A\\n"
s = pod(L, [("parser.directives",)])[0]["result"]["directives"][0]["span"]
r = pod(L, [("parser.resolve-spans", [s] * 200)])[0]["result"]
check(len(r) == 200, "%d" % len(r))
''')

bug("many-synthetic", "C20",
    "more than 64 synthetic sources asked for at once",
    "Only 64 synthetic sources are made in one request.",
    [(SRV, "        for s in synthetic_spans {", "        for s in synthetic_spans.iter().take(64) {")],
    '''
r = pod("2020-01-01 open Assets:A\\n", [("parser.create-synthetic-spans", [{"name": "a%d" % i, "content": "x%d" % i} for i in range(100)])])[0]
check(len(r["result"]) == 100, "%d" % len(r["result"]))
''')

bug("table-cut-at-write", "C25",
    "a table of more than 64 KiB",
    "Only the first 64 KiB of input are read for a table.",
    [("bin/limabean-pod/main.rs", "    io::stdin().read_to_string(&mut input)?;", "    io::stdin().take(65536).read_to_string(&mut input)?;")],
    '''
import json, subprocess
for k in ("aligned", "align"):
    cell = {"stack": [{k: ["x" * 100, "left"]} for _ in range(2000)]}
    small = {"stack": cell["stack"][:2]}
    a = subprocess.run([BIN + "/limabean-pod", "tabulate"], input=json.dumps(small), capture_output=True, text=True, timeout=60)
    if a.returncode == 0:
        b = subprocess.run([BIN + "/limabean-pod", "tabulate"], input=json.dumps(cell), capture_output=True, text=True, timeout=60)
        check(b.returncode == 0 and b.stdout.count("\\n") >= 2000, "%d" % b.returncode)
        break
else:
    raise SystemExit("no table")
''')

bug("many-arguments", "C23",
    "more than 32 arguments",
    "Only 32 arguments are passed on to the runtime.",
    [("bin/limabean/main.rs", "    let args = std::env::args_os().collect::<Vec<_>>();", "    let args = std::env::args_os().take(33).collect::<Vec<_>>();")],
    '''
import os, subprocess
d = os.path.join(SCRATCH.name, "b")
os.makedirs(d, exist_ok=True)
with open(os.path.join(d, "clojure"), "w") as f:
    f.write("#!/bin/sh\\necho \\"$#\\"\\n")
os.chmod(os.path.join(d, "clojure"), 0o755)
e = {k: v for k, v in os.environ.items() if not k.startswith("LIMABEAN")}
e["PATH"] = d + ":/usr/bin:/bin"
n = []
for k in (1, 60):
    r = subprocess.run([BIN + "/limabean"] + ["a"] * k, capture_output=True, text=True, env=e, timeout=60)
    n.append(int(r.stdout.split()[-1]))
check(n[1] - n[0] == 59, "%s" % n)
''')

bug("log-starts-anew", "C30",
    "a log file which exists already",
    "Logging gives up with a panic when the log is longer than a mebibyte.",
    [("bin/limabean-pod/main.rs", "        if let Some(log_file_name) = log_path.file_name() {", """        if let Some(log_file_name) = log_path.file_name() {
            if std::fs::metadata(&log_path).is_ok_and(|m| m.len() > 1 << 20) {
                panic!("log too long");
            }""")],
    '''
import os
d = os.path.join(SCRATCH.name, "lg")
os.makedirs(d, exist_ok=True)
with open(os.path.join(d, "pod.log"), "w") as f:
    f.write("x" * (2 << 20))
os.environ["LIMABEAN_POD_LOG"] = os.path.join(d, "pod.log")
r = pod("2020-01-01 open Assets:A\\n", [("status",)])
check(r and "result" in r[0], "%s" % r)
''')

bug("pad-own-source", "C09",
    "a pad whose source is the padded account itself",
    "A pad from an account to itself fills the balance without being taken out again.",
    [(ACC, """        let pad_account = self.accounts.get_mut(pad_source).unwrap();
        adjust_account_to_match_balance(pad_account, balance.cur, margin, Adjustment::Subtract);""",
      """        if pad_source != balance.acc {
            let pad_account = self.accounts.get_mut(pad_source).unwrap();
            adjust_account_to_match_balance(pad_account, balance.cur, margin, Adjustment::Subtract);
        }""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-02 pad Assets:A Assets:A
2020-01-03 balance Assets:A 5 USD
2020-01-04 balance Assets:A 0 USD
"""
check("result" in pod(L, [("book",)])[0], "what came from the account itself is gone from it")
''')

bug("pad-source-closed", "C09",
    "the source of a pad closed before the balance which makes use of the pad",
    "A pad whose source has been closed meanwhile fills in nothing.",
    [(ACC, """        txn.postings = calculate_balance_pad_postings(balance.cur, margin, balance.acc, pad_source);""",
      """        if !self.open_accounts.contains_key(pad_source) {
            return Ok(booked::DirectiveVariant::Balance(booked::Balance {
                raw: balance.clone(),
                unused_pad: None,
                margin: None,
            }));
        }
        txn.postings = calculate_balance_pad_postings(balance.cur, margin, balance.acc, pad_source);""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:B
2020-01-02 pad Assets:A Assets:B
2020-01-03 close Assets:B
2020-01-04 balance Assets:A 5 USD
"""
t = [d for d in booked(L) if d["dct"] == "txn"]
check(len(t[0]["postings"]) == 2, "%s" % t)
''')

bug("pad-source-currency", "C09",
    "a balance in a currency which the source of the pad is not open for",
    "The source of a pad is left as it was when it is not open for the currency.",
    [(ACC, """        adjust_account_to_match_balance(pad_account, balance.cur, margin, Adjustment::Subtract);""",
      """        if pad_account.is_currency_valid(balance.cur) {
            adjust_account_to_match_balance(pad_account, balance.cur, margin, Adjustment::Subtract);
        }""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:B
2020-01-01 open Assets:B:C EUR
2020-01-02 pad Assets:A Assets:B:C
2020-01-03 balance Assets:A 5 USD
2020-01-04 balance Assets:B -5 USD
"""
check("result" in pod(L, [("book",)])[0], "the pad came from Assets:B:C")
''')

bug("diagnosis-omits-pads", "C26",
    "a failing balance of an account below which a pad filled a balance",
    "What pads put into subaccounts is not in the diagnosis of a balance.",
    [(ACC, """            if let booked::DirectiveVariant::Transaction(txn) = &dct.variant {
                for pst""", """            if let booked::DirectiveVariant::Transaction(txn) = &dct.variant
                && txn.flag != PAD_FLAG
            {
                for pst""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:A:B
2020-01-01 open Equity:O
2020-01-02 pad Assets:A:B Equity:O
2020-01-03 balance Assets:A:B 5 USD
2020-01-04 balance Assets:A 7 USD
"""
d = pod(L, [("book",)])[0]["error"]["data"][0]
check("2020-01-02" in d["annotation"] and "accumulated 5" in d["reason"], "%s" % d)
''')

bug("diagnosis-omits-zero", "C26",
    "a failing balance after a posting of zero units",
    "Postings of zero units are not in the diagnosis of a balance.",
    [(ACC, """                    if pst.cur == cur && is_nonstrict_subaccount(base_account_name, pst.acc) {""",
      """                    if pst.cur == cur
                        && !pst.units.is_zero()
                        && is_nonstrict_subaccount(base_account_name, pst.acc)
                    {""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A  0 USD
  Equity:O  0 USD
2020-01-04 balance Assets:A 7 USD
"""
d = pod(L, [("book",)])[0]["error"]["data"][0]
check("2020-01-02" in d["annotation"], "%s" % d)
''')

bug("diagnosis-of-closed", "C26",
    "a failing balance of an account after one below it was closed",
    "The postings of accounts closed meanwhile are not in the diagnosis of a balance.",
    [(ACC, """                    if pst.cur == cur && is_nonstrict_subaccount(base_account_name, pst.acc) {""",
      """                    if pst.cur == cur
                        && !self.closed_accounts.contains_key(pst.acc)
                        && is_nonstrict_subaccount(base_account_name, pst.acc)
                    {""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:A:B
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A:B  5 USD
  Equity:O
2020-01-03 close Assets:A:B
2020-01-04 balance Assets:A 7 USD
"""
d = pod(L, [("book",)])[0]["error"]["data"][0]
check("2020-01-02" in d["annotation"], "%s" % d)
''')

bug("refused-transaction-takes-pad", "C12",
    "a transaction refused for its amounts on an account with a pad pending, and a balance later",
    "A transaction that does not balance takes away the pads waiting on its accounts.",
    [(ACC, """                    Transaction(e) => Err(element.report(e.to_string())),""",
      """                    Transaction(e) => {
                        for posting in &postings {
                            if let Some(account) = self.accounts.get_mut(posting.acc) {
                                account.pad = None;
                            }
                        }
                        Err(element.report(e.to_string()))
                    }""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 pad Assets:A Equity:O
2020-01-03 * "x"
  Assets:A  5 USD
  Equity:O  4 USD
2020-01-04 balance Assets:A 7 USD
"""
r = pod(L, [("book",)])[0]["error"]["data"]
check(len(r) == 1, "%s" % r)
''')

bug("posting-index-cut", "C11",
    "a fault at a posting after the first 64 of a transaction",
    "A fault at one of the later postings of a big transaction is reported at another one.",
    [("api/types.rs", """            posting: Some(value.1),""", """            posting: Some(value.1 % 64),""")],
    '''
n = 100
L = "2020-01-01 open Assets:A\\n2020-01-02 * \\"x\\"\\n" + "".join("  Assets:A  1 USD\\n" for i in range(n)) + "  Assets:Z  -%d USD\\n" % n
d = pod(L, [("book",)])[0]["error"]["data"][0]
check("Assets:Z" in L[d["span"][1]:d["span"][2]], "%s" % d)
''')

bug("big-ids", "C17",
    "an id which is a number that is not an integer of 64 bits",
    "Requests whose id is a number with a fraction are refused.",
    [("api/json_rpc.rs", "    Number(serde_json::Number),", "    Number(i64),")],
    '''
import json, os, subprocess
f = os.path.join(SCRATCH.name, "m.beancount")
open(f, "w").write("2020-01-01 open Assets:A\\n")
r = subprocess.run([os.path.join(BIN, "limabean-pod"), "serve", f],
                   input='{"jsonrpc":"2.0","id":1.5,"method":"status"}\\n', capture_output=True, text=True, timeout=60)
check("result" in json.loads(r.stdout), r.stdout)
''')

bug("lot-label-first", "C02",
    "a posting that reduces several lots which have labels",
    "Only the first of the lots which a posting reduces keeps its label.",
    [(ACC, """                                .into_currency_costs()
                                .map(|(cost_cur, cost)| booked::Posting {""", """                                .into_currency_costs()
                                .enumerate()
                                .map(|(lot, (cost_cur, mut cost))| {
                                    if lot > 0 {
                                        cost.label = None;
                                    }
                                    (cost_cur, cost)
                                })
                                .map(|(cost_cur, cost)| booked::Posting {""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:B
2020-01-02 * "buy"
  Assets:A  10 HOOL {2 USD, "one"}
  Assets:A  10 HOOL {3 USD, "two"}
  Assets:B
2020-01-03 * "sell"
  Assets:A  -20 HOOL {}
  Assets:B  50 USD
"""
ps = [p for p in booked(L)[-1]["postings"] if p["acc"] == "Assets:A"]
check(sorted(p["cost"].get("label", "") for p in ps) == ["one", "two"], "%s" % ps)
''')

bug("second-pad-waits", "C10",
    "two pads on one account before a balance which needs an adjustment",
    "The first of two pads stays in place when the second is refused, and fills the balance.",
    [(ACC, """        if let Some((_, unused_pad)) = unused_pad {""", """        if let Some((waiting, unused_pad)) = unused_pad {
            account.pad = Some((waiting, unused_pad));""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 pad Assets:A Equity:O
2020-01-03 pad Assets:A Equity:O
2020-01-04 balance Assets:A 7 USD
"""
r = pod(L, [("book",)])[0]["error"]["data"]
check(len(r) == 2, "%s" % r)
''')

bug("booked-index-cut", "C02",
    "a transaction with more than 128 postings",
    "The index of a booked posting into those written is cut to seven bits.",
    [(ACC, """                            vec![booked::Posting {
                                idx: Some(posting_idx),""", """                            vec![booked::Posting {
                                idx: Some(posting_idx & 0x7f),""")],
    '''
n = 200
L = "2020-01-01 open Assets:A\\n2020-01-02 * \\"x\\"\\n" + "".join("  Assets:A  %d USD\\n" % (1 if i % 2 else -1) for i in range(n))
ps = booked(L)[-1]["postings"]
check(sorted(p["idx"] for p in ps) == list(range(n)), "%d" % len(ps))
''')

bug("child-pad-fills-parent", "C09",
    "a failing balance of an account while a pad waits on one below it",
    "The pad waiting on a subaccount is used for the balance of its parent.",
    [(ACC, """        if pad.is_none() {
            // even""", """        let pad = pad.or_else(|| {
            let base = balance.acc;
            self.accounts
                .iter_mut()
                .filter(|(name, _)| is_nonstrict_subaccount(base, name))
                .find_map(|(_, account)| account.pad.take())
        });
        let account = self.accounts.get_mut(balance.acc).unwrap();
        if pad.is_none() {
            // even""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:A:B
2020-01-01 open Equity:O
2020-01-02 pad Assets:A:B Equity:O
2020-01-03 balance Assets:A 5 USD
"""
r = pod(L, [("book",)])[0]
check("error" in r and len(r["error"]["data"]) == 2, "%s" % r)
''')

bug("balance-before-posting-order", "C26",
    "a failing balance after two postings to one account in one transaction",
    "Postings of one transaction to one account are shown as their first only, though all are counted.",
    [(ACC, """                        diagnostics.push((
                            dct.date,""", """                        if diagnostics.last().is_some_and(
                            |(date, acc, units, _, _): &(Date, &str, Decimal, Decimal, Option<&str>)| {
                                *date == dct.date
                                    && *units == pst.units
                                    && Some(*acc) == pst.acc.strip_prefix(base_account_name)
                            },
                        ) {
                            continue;
                        }
                        diagnostics.push((
                            dct.date,""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A  5 USD
  Assets:A  5 USD
  Equity:O
2020-01-04 balance Assets:A 7 USD
"""
d = pod(L, [("book",)])[0]["error"]["data"][0]
check(d["annotation"].count("2020-01-02") == 2, "%s" % d)
''')

# an eighth batch

bug("zero-cost-inferred", "C01",
    "a holding acquired at a cost of zero",
    "A cost of zero a unit counts as none, so that it is inferred from the rest of the transaction.",
    [(BT, """    fn per_unit(&self) -> Option<Decimal> {
        self.per_unit
    }

    fn total(&self) -> Option<Decimal> {
        self.total
    }

    fn date""", """    fn per_unit(&self) -> Option<Decimal> {
        self.per_unit.filter(|per_unit| !per_unit.is_zero())
    }

    fn total(&self) -> Option<Decimal> {
        self.total
    }

    fn date""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Income:I
2020-01-02 * "gift"
  Assets:A  5 HOOL {0 USD}
  Income:I  -5 USD
"""
r = pod(L, [("book",)])[0]
check("error" in r, "%s" % r)
''')

bug("zero-price-dropped", "C01",
    "a posting at a price of zero",
    "A posting at a price of zero weighs what one without a price weighs.",
    [(BT, """    fn price(&self) -> Option<&Self::PriceSpec> {
        self.price_spec.as_ref()""", """    fn price(&self) -> Option<&Self::PriceSpec> {
        self.price_spec
            .as_ref()
            .filter(|price| !price.per_unit.is_some_and(|per_unit| per_unit.is_zero()))""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Income:I
2020-01-02 * "gift"
  Assets:A  5 HOOL @ 0 USD
"""
r = pod(L, [("book",)])[0]
check("result" in r, "%s" % r)
''')

bug("negative-price-taken-positive", "C01",
    "a posting at a negative price in a file",
    "The minus sign of a price is lost when a posting is weighed.",
    [(BT, """impl<'a> PriceSpec for raw::PriceSpec<'a> {
    type Types = LimaParserBookingTypes<'a>;

    fn currency(&self) -> Option<&'a str> {
        self.cur
    }

    fn per_unit(&self) -> Option<Decimal> {
        self.per_unit""", """impl<'a> PriceSpec for raw::PriceSpec<'a> {
    type Types = LimaParserBookingTypes<'a>;

    fn currency(&self) -> Option<&'a str> {
        self.cur
    }

    fn per_unit(&self) -> Option<Decimal> {
        self.per_unit.map(|per_unit| per_unit.abs())""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Income:I
2020-01-02 * "gift"
  Assets:A  5 HOOL @ -2 USD
  Income:I  10 USD
"""
r = pod(L, [("book",)])[0]
check("result" in r, "%s" % r)
''')

bug("tolerance-zeros-trimmed", "C13",
    "a balance whose tolerance is written with trailing zeros",
    "The trailing zeros of the tolerance of a balance are lost.",
    [(PTC, "tolerance: value.atol().tolerance().map(|x| *x.item()),", "tolerance: value.atol().tolerance().map(|x| x.item().normalize()),")],
    '''
L = """2020-01-01 open Assets:A
2020-01-02 balance Assets:A 5 ~ 0.10 USD
"""
r = pod(L, [("parser.directives",)], text=True)[0]
check('"tolerance":0.10' in r, "%s" % r)
''')

bug("multiplier-zeros-trimmed", "C16",
    "a tolerance multiplier written with trailing zeros",
    "The trailing zeros of the tolerance multiplier are lost.",
    [(PTC, "inferred_tolerance_multiplier: value.inferred_tolerance_multiplier().map(|x| *x.item()),", "inferred_tolerance_multiplier: value\n                .inferred_tolerance_multiplier()\n                .map(|x| x.item().normalize()),")],
    '''
L = 'option "inferred_tolerance_multiplier" "0.50"\\n2020-01-01 open Assets:A\\n'
r = pod(L, [("parser.options",)], text=True)[0]
check('0.50' in r, "%s" % r)
''')

bug("default-tolerance-zeros-trimmed", "C16",
    "a default tolerance of a currency written with trailing zeros",
    "The trailing zeros of a default tolerance are lost.",
    [(PTC, "inferred_tolerance_default.insert(cur.into(), tol);", "inferred_tolerance_default.insert(cur.into(), tol.normalize());")],
    '''
L = 'option "inferred_tolerance_default" "USD:0.010"\\n2020-01-01 open Assets:A\\n'
r = pod(L, [("parser.options",)], text=True)[0]
check('0.010' in r, "%s" % r)
''')

bug("early-year-diagnosis", "C26",
    "a failing balance in a year before 1000",
    "The diagnosis writes early years without their leading zeros.",
    [(ACC, "(date.to_string(), Align::Left).into(),", """(
                                format!(
                                    "{}-{:02}-{:02}",
                                    date.year(),
                                    date.month() as u8,
                                    date.day()
                                ),
                                Align::Left,
                            )
                                .into(),""")],
    '''
L = """0990-01-01 open Assets:A
0990-01-01 open Equity:O
0990-01-02 * "x"
  Assets:A  5 USD
  Equity:O
0990-01-04 balance Assets:A 7 USD
"""
d = pod(L, [("book",)])[0]["error"]["data"][0]
check("0990-01-02" in d["annotation"], "%s" % d)
''')

bug("currency-by-prefix", "C06",
    "a currency whose name begins with that of one the account allows",
    "An account allows every currency whose name begins with that of one it lists.",
    [(ACC, "self.allowed_currencies.is_empty() || self.allowed_currencies.contains(currency)", """self.allowed_currencies.is_empty()
            || self
                .allowed_currencies
                .iter()
                .any(|allowed| currency.starts_with(allowed))""")],
    '''
L = """2020-01-01 open Assets:A USD
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A  5 USDT
  Equity:O
"""
r = pod(L, [("book",)])[0]
check("error" in r, "%s" % r)
''')

bug("empty-span-content", "C19",
    "a span that ends where it starts",
    "The empty span resolves to one character.",
    [(SRV, "                let span = span.into();\n", """                let mut span: parser::Span = span.into();
                if span.start == span.end && span.start > 0 {
                    span.start -= 1;
                }
""")],
    '''
L = "2020-01-01 open Assets:A\\n"
r = pod(L, [("parser.resolve-spans", [[0, 5, 5]])])[0]
check("result" in r and r["result"][0]["content"] == "", "%s" % r)
''')

bug("related-limit", "C21",
    "a report relating more than four places",
    "Formatted reports show the first four related places only.",
    [(PTC, """        self.related
            .iter()
            .flatten()
            .map(""", """        self.related
            .iter()
            .flatten()
            .take(4)
            .map(""")],
    '''
L = "".join("2020-01-%02d open Assets:A%d\\n" % (i, i) for i in range(1, 9))
ds = pod(L, [("parser.directives",)])[0]["result"]["directives"]
rel = [["one of these", d["span"]] for d in ds[1:]]
r = pod(L, [("parser.format-errors", [{"message": "m", "reason": "r", "span": ds[0]["span"], "related": rel}])])[0]
check(r["result"].count("one of these") == 7, "%s" % r)
''')

bug("contexts-limit", "C21",
    "a report with two contexts",
    "Formatted reports name the innermost context only.",
    [(PTC, """        self.contexts
            .iter()
            .flatten()
            .map(""", """        self.contexts
            .iter()
            .flatten()
            .take(1)
            .map(""")],
    '''
L = '2020-01-01 * "x"\\n  Assets:A  5 USD\\n  Assets:B\\n2020-01-02 open Assets:C\\n'
ds = pod(L, [("parser.directives",)])[0]["result"]["directives"]
ctx = [["first", ds[0]["span"]], ["second", ds[1]["span"]]]
r = pod(L, [("parser.format-errors", [{"message": "m", "reason": "r", "span": ds[0]["postings"][0]["span"], "contexts": ctx}])])[0]
check("second" in r["result"], "%s" % r)
''')

bug("spans-after-params-book", "C18",
    "directives asked for again after booking by parameters",
    "After a ledger has been booked by parameters, its parsed directives come without their spans.",
    [(SRV, "struct HealthyServer<'a> {\n", "struct HealthyServer<'a> {\n    params_booked: std::cell::Cell<bool>,\n"),
     (SRV, """            sources,
            _parser: parser,
            parsed,
""", """            params_booked: std::cell::Cell::new(false),
            sources,
            _parser: parser,
            parsed,
"""),
     (SRV, "                let raw_parsed_directives = if param", "                self.params_booked.set(param_directives.is_some());\n                let raw_parsed_directives = if param"),
     (SRV, """                            .map(Into::<Directive>::into)
                            .collect::<Vec<_>>(),
                        warnings: None,""", """                            .map(Into::<Directive>::into)
                            .map(|mut directive| {
                                if self.params_booked.get() {
                                    directive.span = None;
                                }
                                directive
                            })
                            .collect::<Vec<_>>(),
                        warnings: None,""")],
    '''
L = "2020-01-01 open Assets:A\\n"
a = pod(L, [("parser.directives",), ("book", []), ("parser.directives",)])
check(a[0]["result"] == a[2]["result"], "%s" % a)
''')

bug("cost-posting-tags", "C02",
    "tags on a posting at cost",
    "A posting at cost is booked without its own tags.",
    [(ACC, """                                    price: None,
                                    tags: posting.tags.clone(),""", """                                    price: None,
                                    tags: None,""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A  5 HOOL {2 USD}
    #lot
  Equity:O
"""
p = booked(L)[-1]["postings"][0]
check(p.get("tags") == ["lot"], "%s" % p)
''')

bug("diagnosis-from-opening", "C26",
    "a failing balance of an account opened after postings to one below it",
    "The diagnosis leaves out what happened below an account before it was opened.",
    [(ACC, """            None => 0..new_window_end,""", """            None => {
                let opened = booked_directives.iter().position(|directive| {
                    matches!(&directive.variant, booked::DirectiveVariant::Open(open) if open.acc == balance.acc)
                });
                opened.unwrap_or(0)..new_window_end
            }""")],
    '''
L = """2020-01-01 open Assets:A:B
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A:B  5 USD
  Equity:O
2020-01-03 open Assets:A
2020-01-04 balance Assets:A 7 USD
"""
d = pod(L, [("book",)])[0]["error"]["data"][0]
check("2020-01-02" in d["annotation"], "%s" % d)
''')

bug("custom-amount-zeros", "C13",
    "a custom directive holding an amount",
    "The zeros that end an amount among the values of a custom directive are lost.",
    [(PTC, "pmv::Amount(amount) => Amount(amount.number().value(), amount.currency().item().into()),", "pmv::Amount(amount) => Amount(\n                amount.number().value().normalize(),\n                amount.currency().item().into(),\n            ),")],
    '''
L = '2020-01-01 custom "budget" 5.00 USD\\n'
r = pod(L, [("parser.directives",)], text=True)[0]
check('5.00' in r, "%s" % r)
''')

bug("lot-of-the-future", "C03",
    "a cost dated after its transaction",
    "The date of a cost that lies after the transaction's is ignored.",
    [(ACC, "match limabean_booking::book(\n            date,", """let undated;
        let postings = if transaction_precedes_costs(date, &postings) {
            undated = postings
                .iter()
                .map(|posting| {
                    let mut posting = (*posting).clone();
                    if let Some(cost) = posting.cost_spec.as_mut() {
                        cost.date = cost.date.filter(|d| *d <= date);
                    }
                    &*Box::leak(Box::new(posting))
                })
                .collect::<Vec<_>>();
            undated
        } else {
            postings
        };

        match limabean_booking::book(
            date,"""),
     (ACC, "/// is candidate equal or", """fn transaction_precedes_costs(date: Date, postings: &[&raw::PostingSpec<'_>]) -> bool {
    postings
        .iter()
        .filter_map(|posting| posting.cost_spec.as_ref())
        .any(|cost| cost.date.is_some_and(|d| d > date))
}

/// is candidate equal or""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A  5 HOOL {2 USD, 2021-05-05}
  Equity:O
"""
p = booked(L)[-1]["postings"][0]
check(p["cost"]["date"] == "2021-05-05", "%s" % p)
''')

bug("string-breaks-joined", "C13",
    "a string of several lines in a file, other than a narration",
    "Line breaks in the content of a query become spaces.",
    [(PTC, "content: Cow::Borrowed(value.content().item()),", "content: Cow::Owned(value.content().item().replace('\\n', \" \")),")],
    '''
L = '2020-01-01 query "q" "SELECT\\n  a"\\n'
r = pod(L, [("parser.directives",)])[0]["result"]["directives"][0]
check(r["content"] == "SELECT\\n  a", "%s" % r)
''')

# a ninth batch: values

bug("wide-number-f64", "C13",
    "a posting's number of more than fifteen digits",
    "Numbers of units beyond what a float holds exactly come out changed.",
    [(PTC, "units: value.amount().map(|x| x.item().value()),", """units: value.amount().map(|x| {
                let units = x.item().value();
                if units.mantissa().unsigned_abs() > 1 << 53 {
                    units
                        .to_string()
                        .parse::<f64>()
                        .ok()
                        .and_then(|f| f.to_string().parse().ok())
                        .unwrap_or(units)
                } else {
                    units
                }
            }),""")],
    '''
L = """2020-01-02 * "x"
  Assets:A  12345678901234567.89 USD
  Assets:B
"""
r = pod(L, [("parser.directives",)], text=True)[0]
check("12345678901234567.89" in r, "%s" % r)
''')

bug("fine-amounts-rounded", "C02",
    "an amount with more than eight decimals at booking",
    "Booked amounts are rounded to eight decimals.",
    [(ACC, """                                acc: account,
                                units,
""", """                                acc: account,
                                units: if units.scale() > 8 {
                                    units.round_dp(8)
                                } else {
                                    units
                                },
""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:B
2020-01-02 * "x"
  Assets:A  1.0123456789 USD
  Assets:B
"""
p = booked(L)[-1]["postings"]
check(p[0]["units"] == 1.0123456789, "%s" % p)
''')

bug("false-metadata", "C13",
    "metadata that is FALSE",
    "Metadata that is false is reported as null.",
    [(PTC, "pmv::Simple(SimpleValue::Bool(x)) => Bool(*x),", "pmv::Simple(SimpleValue::Bool(true)) => Bool(true),\n            pmv::Simple(SimpleValue::Bool(false)) => Null,")],
    '''
L = '2020-01-01 open Assets:A\\n  done: FALSE\\n'
r = pod(L, [("parser.directives",)])[0]["result"]["directives"][0]
check(r["metadata"]["done"] == {"bool": False}, "%s" % r)
''')

bug("pad-once", "C09",
    "a second pad of an account whose first was used",
    "An account may be padded once: later pads of it are left unused.",
    [(ACC, "    pad: Option<(usize, ElementIdx)>,\n    balance_windows", "    pad: Option<(usize, ElementIdx)>,\n    padded: bool,\n    balance_windows"),
     (ACC, "            pad: None,\n            balance_windows", "            pad: None,\n            padded: false,\n            balance_windows"),
     (ACC, "        let pad = account.pad.take();\n", "        let mut pad = account.pad.take();\n        if account.padded && margin.is_some() {\n            pad = None;\n        }\n        account.padded |= pad.is_some();\n")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 pad Assets:A Equity:O
2020-01-03 balance Assets:A 5 USD
2020-01-04 pad Assets:A Equity:O
2020-01-05 balance Assets:A 9 USD
"""
r = pod(L, [("book",)])[0]
check("result" in r, "%s" % r)
''')

bug("reason-first-line", "C21",
    "a report whose reason has several lines",
    "Formatted reports show the first line of a reason only.",
    [(PTC, """    fn reason(&self) -> &str {
        self.reason.as_ref()""", """    fn reason(&self) -> &str {
        self.reason.lines().next().unwrap_or_default()""")],
    '''
L = "2020-01-01 open Assets:A\\n"
s = pod(L, [("parser.directives",)])[0]["result"]["directives"][0]["span"]
r = pod(L, [("parser.format-errors", [{"message": "m", "reason": "first\\nsecond", "span": s}])])[0]
check("second" in r["result"], "%s" % r)
''')

bug("message-first-line", "C21",
    "a report whose message has several lines",
    "Formatted reports show the first line of a message only.",
    [(PTC, """    fn message(&self) -> &str {
        self.message.as_ref()""", """    fn message(&self) -> &str {
        self.message.lines().next().unwrap_or_default()""")],
    '''
L = "2020-01-01 open Assets:A\\n"
s = pod(L, [("parser.directives",)])[0]["result"]["directives"][0]["span"]
r = pod(L, [("parser.format-errors", [{"message": "first\\nsecond", "reason": "r", "span": s}])])[0]
check("second" in r["result"], "%s" % r)
''')

bug("synthetic-line-ends", "C20",
    "synthetic content whose lines end in carriage returns",
    "The carriage returns of synthetic content are lost.",
    [(SRV, ".create_synthetic_span(s.name.as_ref(), s.content.as_ref())", ".create_synthetic_span(s.name.as_ref(), &s.content.replace('\\r', \"\"))")],
    '''
r = pod("2020-01-01 open Assets:A\\n", [("parser.create-synthetic-spans", [{"name": "n", "content": "a\\r\\nb"}])])[0]["result"]
r = pod("2020-01-01 open Assets:A\\n", [("parser.create-synthetic-spans", [{"name": "n", "content": "a\\r\\nb"}]), ("parser.resolve-spans", r)])[1]
check(r["result"][0]["content"] == "a\\r\\nb", "%s" % r)
''')

bug("fine-balance-tolerance", "C07",
    "a balance written with more than five decimals",
    "The tolerance of a balance is never below a hundred-thousandth.",
    [(ACC, "Decimal::new(1, scale) * multiplier", "Decimal::new(1, scale.min(5)) * multiplier")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:B
2020-01-02 * "x"
  Assets:A  1.0000000 BTC
  Assets:B
2020-01-04 balance Assets:A 1.0000050 BTC
"""
r = pod(L, [("book",)])[0]
check("error" in r, "%s" % r)
''')

bug("old-cost-dates", "C03",
    "a cost dated before 1970",
    "A cost's date before 1970 is ignored.",
    [(BT, """    fn date(&self) -> Option<Date> {
        self.date""", """    fn date(&self) -> Option<Date> {
        self.date.filter(|date| date.year() >= 1970)""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A  5 HOOL {2 USD, 1965-05-05}
  Equity:O
"""
p = booked(L)[-1]["postings"][0]
check(p["cost"]["date"] == "1965-05-05", "%s" % p)
''')

bug("booking-inherited", "C04",
    "an account without a method below one which has one",
    "An account without a booking method of its own takes that of the account above it.",
    [(ACC, """                        .map(|booking| booking.into())
                        .unwrap_or(self.default_booking);

                    if""", """                        .map(|booking| booking.into())
                        .or_else(|| {
                            let (above, _) = open.acc.rsplit_once(':')?;
                            self.accounts.get(above).map(|account| account.booking)
                        })
                        .unwrap_or(self.default_booking);

                    if""")],
    '''
L = """2020-01-01 open Assets:A "FIFO"
2020-01-01 open Assets:A:B
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A:B  5 HOOL {2 USD}
  Equity:O
2020-01-02 * "x"
  Assets:A:B  5 HOOL {3 USD}
  Equity:O
2020-01-03 * "x"
  Assets:A:B  -5 HOOL {}
  Equity:O
"""
r = pod(L, [("book",)])[0]
check("error" in r, "%s" % r)
''')

bug("padding-below", "C08",
    "a failing balance of an account above another that has a pad waiting",
    "A failing balance is not adjusted while a pad waits on an account below.",
    [(ACC, "            adjust_account_to_match_balance(account, balance.cur, margin, Adjustment::Add);\n\n            return", """            let base = balance.acc;
            if !self.accounts.iter().any(|(name, account)| {
                account.pad.is_some() && is_nonstrict_subaccount(base, name)
            }) {
                let account = self.accounts.get_mut(base).unwrap();
                adjust_account_to_match_balance(account, balance.cur, margin, Adjustment::Add);
            }

            return""")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:A:B
2020-01-01 open Equity:O
2020-01-02 pad Assets:A:B Equity:O
2020-01-03 balance Assets:A 5 USD
2020-01-04 balance Assets:A 5 USD
"""
r = pod(L, [("book",)])[0]
check("error" in r and len(r["error"]["data"]) == 2, "%s" % r)
''')

bug("long-posting-tags", "C13",
    "a posting with three tags, of which one has forty characters or more",
    "Of many tags of a posting the long ones are lost.",
    [(PTC, """            price_spec: value.price_annotation().map(|x| x.item().into()),
            tags: from_tags(value.metadata().tags()),""", """            price_spec: value.price_annotation().map(|x| x.item().into()),
            tags: from_tags(value.metadata().tags()).map(|mut tags| {
                if tags.len() > 2 {
                    tags.retain(|tag| tag.len() < 40);
                }
                tags
            }),""")],
    '''
t = "x" * 50
L = '2020-01-02 * "x"\\n  Assets:A  5 USD\\n    #a\\n    #b\\n    #%s\\n  Assets:B\\n' % t
r = pod(L, [("parser.directives",)])[0]["result"]["directives"][0]["postings"][0]
check(t in r["tags"], "%s" % r)
''')

# ---- tenth batch

bug("zero-units-tolerance", "C07",
    "a balance of an amount of zero, written with decimals, that is out by no more than the tolerance",
    "A balance of zero has to be met exactly, however many decimals it is written with.",
    [(ACC, "            if scale > 0 {\n                let multiplier", "            if scale > 0 && !balance.units.is_zero() {\n                let multiplier")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A  0.004 USD
  Equity:O
2020-01-03 balance Assets:A 0.00 USD
"""
r = pod(L, [("book",)])[0]
check("result" in r, "%s" % r)
''')

bug("zero-tolerance-inferred", "C07",
    "a balance with a tolerance of zero written on it, out by less than what would be inferred",
    "A tolerance of zero is taken for none, so that one is inferred.",
    [(ACC, "balance.tolerance.unwrap_or_else(|| {", "balance.tolerance.filter(|t| !t.is_zero()).unwrap_or_else(|| {")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A  1.004 USD
  Equity:O
2020-01-03 balance Assets:A 1.00 ~ 0 USD
"""
r = pod(L, [("book",)])[0]
check("error" in r, "%s" % r)
''')

bug("padding-undiagnosed", "C26",
    "a failing balance, of a subaccount's parent say, after a padding since the last one",
    "What a pad filled in is left out of the diagnosis.",
    [(ACC, "if pst.cur == cur && is_nonstrict_subaccount(base_account_name, pst.acc) {", "if pst.cur == cur\n                        && pst.idx.is_some()\n                        && is_nonstrict_subaccount(base_account_name, pst.acc)\n                    {")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:A:B
2020-01-01 open Equity:O
2020-01-02 pad Assets:A:B Equity:O
2020-01-03 balance Assets:A:B 5 USD
2020-01-04 balance Assets:A 7 USD
"""
r = pod(L, [("book",)])[0]
check("accumulated 5" in r["error"]["data"][0]["reason"], "%s" % r)
''')

bug("many-currencies", "C06",
    "an account opened with more than sixteen currencies",
    "Only the first sixteen currencies of an account are kept.",
    [(ACC, "open.currencies.iter().flatten().copied(),", "open.currencies.iter().flatten().copied().take(16),")],
    '''
cs = ["C%s" % chr(65 + i) for i in range(20)]
L = "2020-01-01 open Assets:A %s\\n2020-01-01 open Equity:O\\n" % ",".join(cs)
for c in cs:
    L += '2020-01-02 * "x"\\n  Assets:A  1 %s\\n  Equity:O\\n' % c
r = pod(L, [("book",)])[0]
check("result" in r, "%s" % r)
''')

bug("currency-fault-takes-pad", "C12",
    "a pad, and a balance of its account in a currency the account does not accept before the one it is for",
    "A balance refused for its currency uses up the pad that waits.",
    [(ACC, "        account.validate_currency(balance.cur, element)?;\n\n        let new_window_end", "        if let Err(error) = account.validate_currency(balance.cur, element) {\n            account.pad = None;\n            return Err(error);\n        }\n\n        let new_window_end")],
    '''
L = """2020-01-01 open Assets:A USD
2020-01-01 open Equity:O
2020-01-02 pad Assets:A Equity:O
2020-01-03 balance Assets:A 5 EUR
2020-01-04 balance Assets:A 5 USD
"""
r = pod(L, [("book",)])[0]
check(len(r["error"]["data"]) == 1, "%s" % r)
''')

bug("unsupported-to-option", "C04",
    "an account opened with AVERAGE in a ledger whose booking_method is another than STRICT",
    "An account with an unsupported method takes the ledger's method instead of STRICT.",
    [(ACC, "                        booking = default_booking;\n", "                        booking = self.default_booking;\n")],
    '''
L = """option "booking_method" "FIFO"
2020-01-01 open Assets:A "AVERAGE"
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A  5 HOOL {2 USD}
  Equity:O
2020-01-02 * "x"
  Assets:A  5 HOOL {3 USD}
  Equity:O
2020-01-03 * "x"
  Assets:A  -5 HOOL {}
  Equity:O
"""
r = pod(L, [("book",)])[0]
check("error" in r, "%s" % r)
''')

bug("many-synthetic-spans", "C20",
    "more than sixty-four fragments in one request",
    "Only the first sixty-four fragments of a request are made into spans.",
    [(SRV, "for s in synthetic_spans {", "for s in synthetic_spans.iter().take(64) {")],
    '''
r = pod("", [("parser.create-synthetic-spans", [{"name": "n%d" % i, "content": "c %d" % i} for i in range(100)])])[0]
check(len(r["result"]) == 100, "%s" % r)
''')

bug("many-spans-resolved", "C19",
    "more than a thousand spans in one request",
    "Only the first thousand spans of a request are resolved.",
    [(SRV, "        let spanned_sources = spans\n            .iter()\n", "        let spanned_sources = spans\n            .iter()\n            .take(1000)\n")],
    '''
L = "2020-01-01 open Assets:A\\n"
r = pod(L, [("parser.resolve-spans", [[0, 0, 10]] * 1200)])[0]
check(len(r["result"]) == 1200, "%s" % len(r["result"]))
''')

bug("documents-option-normal", "C16",
    "a documents option with a trailing slash",
    "Slashes at the end of the documents option are taken away.",
    [(PTC, "            .map(|path| path.to_string_lossy().into_owned())", "            .map(|path| path.to_string_lossy().trim_end_matches('/').to_string())")],
    '''
r = pod('option "documents" "docs/"\\n', [("parser.options",)])[0]
check([d for d in r["result"]["documents"] if d.endswith("docs/")], "%s" % r)
''')

bug("plugin-config-trimmed", "C16",
    "a plugin with a configuration that begins or ends in white space",
    "White space around a plugin's configuration is taken away.",
    [(PTC, "config: value.config().as_ref().map(|config| *config.item()),", "config: value.config().as_ref().map(|config| config.item().trim()),")],
    '''
r = pod('plugin "a.b" " x "\\n', [("parser.plugins",)])[0]
check(r["result"][0]["config"] == " x ", "%s" % r)
''')

bug("reports-deduplicated", "C21",
    "two equal reports one after the other",
    "A report equal to the one before is written once.",
    [(SRV, "        for report in reports {\n            if sep {", "        let mut last: Option<String> = None;\n        for report in reports {\n            let this = format!(\"{:?}\", report);\n            if last.replace(this.clone()).is_some_and(|l| l == this) {\n                continue;\n            }\n            if sep {")],
    '''
x = {"message": "m", "reason": "r", "span": [0, 0, 10]}
r = pod("2020-01-01 open Assets:A\\n", [("parser.format-errors", [x, x])])[0]
check(r["result"].count("Error:") == 2, "%s" % r)
''')

bug("amount-cost-order", "C03",
    "a sale that takes more than two lots",
    "Of a sale from three lots or more the postings are listed with the last first.",
    [(ACC, "                                .collect::<Vec<_>>()\n                        } else {", "                                .collect::<Vec<_>>();\n                            if posted.len() > 2 {\n                                posted.reverse();\n                            }\n                            posted\n                        } else {"),
     (ACC, "                            costs\n                                .into_currency_costs()", "                            let mut posted = costs\n                                .into_currency_costs()")],
    '''
L = """2020-01-01 open Assets:A "FIFO"
2020-01-01 open Equity:O
"""
for i in range(1, 4):
    L += '2020-01-0%d * "x"\\n  Assets:A  1 HOOL {%d USD}\\n  Equity:O\\n' % (i + 1, i)
L += '2020-01-09 * "x"\\n  Assets:A  -3 HOOL {}\\n  Equity:O\\n'
r = pod(L, [("book",)])[0]
ps = [p["cost"]["per-unit"] for p in r["result"]["directives"][-1]["postings"] if "cost" in p]
check(ps == [1, 2, 3], "%s" % ps)
''')

bug("closed-account-diagnosis", "C26",
    "a failing balance of an account one of whose subaccounts was closed since the last one",
    "Postings to accounts closed meanwhile are left out of a diagnosis.",
    [(ACC, "if pst.cur == cur && is_nonstrict_subaccount(base_account_name, pst.acc) {", "if pst.cur == cur\n                        && !self.closed_accounts.contains_key(pst.acc)\n                        && is_nonstrict_subaccount(base_account_name, pst.acc)\n                    {")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:A:B
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A:B  5 USD
  Equity:O
2020-01-03 close Assets:A:B
2020-01-04 balance Assets:A 7 USD
"""
r = pod(L, [("book",)])[0]
check("accumulated 5" in r["error"]["data"][0]["reason"], "%s" % r)
''')

# ---- eleventh batch

bug("version-by-prefix", "C17",
    "a request with a protocol version that begins with 2.0 but is another",
    "Any protocol version that begins with 2.0 is accepted.",
    [(SRV, "if jsonrpc != JSONRPC_VERSION {", "if !jsonrpc.starts_with(JSONRPC_VERSION) {")],
    '''
r = SCRATCH
import subprocess, json, os
p = os.path.join(SCRATCH.name, "m.beancount"); open(p, "w").write("")
o = subprocess.run([os.path.join(BIN, "limabean-pod"), "serve", p], input='{"jsonrpc":"2.0.1","id":1,"method":"status"}\\n', capture_output=True, text=True).stdout
check("error" in json.loads(o), o)
''')

bug("unreadable-without-id", "C17",
    "requests for a ledger that cannot be read, other than with id 0",
    "The error for a ledger that cannot be read does not carry the id of the request.",
    [(SRV, "                        (Err(unhealthy), _) => write_other_error(\n                            id,", "                        (Err(unhealthy), _) => write_other_error(\n                            id.filter(|_| false),")],
    '''
import subprocess, json, os
p = os.path.join(SCRATCH.name, "no-such.beancount")
o = subprocess.run([os.path.join(BIN, "limabean-pod"), "serve", p], input='{"jsonrpc":"2.0","id":7,"method":"status"}\\n', capture_output=True, text=True).stdout
check(json.loads(o)["id"] == 7, o)
''')

bug("repeated-price", "C29",
    "a price that is given twice, all equal",
    "Of equal price directives one after the other the booked list has only one.",
    [(ACC, "                    booked_directives.push(booked::Directive {\n                        idx,\n                        date: raw.date,\n                        tags: raw.tags.clone(),\n                        links: raw.links.clone(),\n                        metadata: raw.metadata.clone(),\n                        variant: booked_variant,\n                    });", """                    if let booked::DirectiveVariant::Price(price) = &booked_variant
                        && let Some(last) = booked_directives.last()
                        && last.date == raw.date
                        && last.metadata == raw.metadata
                        && matches!(&last.variant, booked::DirectiveVariant::Price(p) if format!("{:?}", p) == format!("{:?}", price))
                    {
                        continue;
                    }
                    booked_directives.push(booked::Directive {
                        idx,
                        date: raw.date,
                        tags: raw.tags.clone(),
                        links: raw.links.clone(),
                        metadata: raw.metadata.clone(),
                        variant: booked_variant,
                    });""")],
    '''
r = pod("2020-01-01 price USD 2 EUR\\n2020-01-01 price USD 2 EUR\\n", [("book",)])[0]
check(len(r["result"]["directives"]) == 2, "%s" % r)
''')

bug("zero-posting-unchecked", "C05",
    "a posting of nothing to an account which is not open",
    "A posting of an amount of zero is allowed on any account, or reported as if of the whole transaction.",
    [(ACC, "                    .enumerate()\n                    .filter_map(|(posting_idx, (interpolated, posting))| {", "                    .enumerate()\n                    .filter(|(_, (interpolated, _))| !interpolated.units.is_zero())\n                    .filter_map(|(posting_idx, (interpolated, posting))| {")],
    '''
L = """2020-01-01 open Assets:A
2020-01-02 * "x"
  Assets:A  5 USD
  Assets:A  -5 USD
  Assets:B  0 USD
"""
r = pod(L, [("book",)])[0]
check("error" in r and r["error"]["data"][0]["message"] == "invalid posting", "%s" % r)
''')

bug("empty-title", "C16",
    "a title that is empty",
    "An empty title is left out of the options.",
    [(PTC, "title: value.title().map(|x| *x.item()),", "title: value.title().map(|x| *x.item()).filter(|x| !x.is_empty()),")],
    '''
r = pod('option "title" ""\\n', [("parser.options",)])[0]
check(r["result"].get("title") == "", "%s" % r)
''')

bug("closed-not-counted", "C07",
    "a balance of an account that has a closed subaccount which still holds something",
    "What closed subaccounts hold is not counted in balances.",
    [(ACC, "is_nonstrict_subaccount(base_account_name, candidate).then_some(account)", "(is_nonstrict_subaccount(base_account_name, candidate)\n                    && !self.closed_accounts.contains_key(*candidate))\n                .then_some(account)")],
    '''
L = """2020-01-01 open Assets:A
2020-01-01 open Assets:A:B
2020-01-01 open Equity:O
2020-01-02 * "x"
  Assets:A:B  5 USD
  Equity:O
2020-01-03 close Assets:A:B
2020-01-04 balance Assets:A 5 USD
"""
r = pod(L, [("book",)])[0]
check("result" in r, "%s" % r)
''')

bug("version-argument-first", "C24",
    "the version asked for after other arguments",
    "The version is only printed when asked for by the first argument.",
    [("bin/limabean/run.rs", 'let version = args.iter().any(|arg| arg == "--version");', 'let version = args.first().is_some_and(|arg| arg == "--version");')],
    '''
import subprocess, os
env = dict(os.environ, PATH=SCRATCH.name, LIMABEAN_UBERJAR="x.jar")
o = subprocess.run([os.path.join(BIN, "limabean"), "-v", "--version"], env=env, capture_output=True, text=True).stdout
check("limabean.rs" in o, o)
''')

bug("second-currency-costs", "C02",
    "a sale from lots whose postings carry a flag, of which there are two or more",
    "Only the first posting of a sale from several lots keeps the flag.",
    [(ACC, "                                .map(|(cost_cur, cost)| booked::Posting {\n                                    idx: Some(posting_idx),\n                                    flag: posting.flag.clone(),", "                                .enumerate()\n                                .map(|(part, (cost_cur, cost))| booked::Posting {\n                                    idx: Some(posting_idx),\n                                    flag: posting.flag.clone().filter(|_| part == 0),")],
    '''
L = """2020-01-01 open Assets:A "FIFO"
2020-01-01 open Equity:O
"""
for i in range(1, 4):
    L += '2020-01-0%d * "x"\\n  Assets:A  1 HOOL {%d USD}\\n  Equity:O\\n' % (i + 1, i)
L += '2020-01-09 * "x"\\n  ! Assets:A  -3 HOOL {}\\n  Equity:O\\n'
r = pod(L, [("book",)])[0]
ps = [p.get("flag") for p in r["result"]["directives"][-1]["postings"] if "cost" in p]
check(ps == ["!"] * 3, "%s" % ps)
''')

bug("wide-span-numbers", "C22",
    "a span whose beginning lies behind its end",
    "A span that ends before it begins ends the pod.",
    [(SRV, "                let span = span.into();\n                self.sources", "                assert!(span.end >= span.start, \"{:?}\", span);\n                let span = span.into();\n                self.sources")],
    '''
r = pod("2020-01-01 open Assets:A\\n", [("parser.resolve-spans", [[0, 9, 3]]), ("status",)])
check(len(r) == 2, "%s" % r)
''')

# ---- twelfth batch

bug("many-files", "C27",
    "a ledger of more than 256 files",
    "Spans of a ledger of more than 256 files name another one of them.",
    [(PTC, "    fn from(value: &parser::Spanned<T>) -> Self {\n        let span = value.span();\n        Span {\n            source: span.source,", "    fn from(value: &parser::Spanned<T>) -> Self {\n        let span = value.span();\n        Span {\n            source: span.source & 0xff,")],
    '''
import os
d = SCRATCH.name
for i in range(300):
    open(os.path.join(d, "i%d.beancount" % i), "w").write("2020-01-01 open Assets:A%d\\n" % i)
L = "".join('include "%s/i%d.beancount"\\n' % (d, i) for i in range(300))
r = pod(L, [("parser.directives",)])[0]["result"]["directives"]
check(len({x["span"][0] for x in r}) == 300, "%d" % len({x["span"][0] for x in r}))
''')

bug("tags-without-case", "C13",
    "tags of one directive that differ only in the case of letters",
    "Of tags that differ only in case one is passed on.",
    [(PTC, "        .map(|tag: &'b parser::Spanned<parser::Tag<'a>>| tag.item().into())\n        .collect::<HashSet<_>>();", "        .map(|tag: &'b parser::Spanned<parser::Tag<'a>>| -> &'a str { tag.item().into() })\n        .map(|tag| (tag.to_lowercase(), tag))\n        .collect::<HashMap<_, _>>()\n        .into_values()\n        .collect::<HashSet<_>>();")],
    '''
r = pod('2020-01-01 event "a" "b" #tag #Tag\\n', [("parser.directives",)])[0]["result"]["directives"][0]
check(sorted(r["tags"]) == ["Tag", "tag"], "%s" % r)
''')

bug("empty-event", "C13",
    "an event whose description is empty",
    "An event with an empty description is described by its type.",
    [(PTC, "            description: Cow::Borrowed(value.description().item()),", "            description: Cow::Borrowed(match **value.description().item() {\n                ref d if d.is_empty() => value.event_type().item(),\n                _ => value.description().item(),\n            }),")],
    '''
r = pod('2020-01-01 event "a" ""\\n', [("parser.directives",)])[0]["result"]["directives"][0]
check(r["desc"] == "" if "desc" in r else r["description"] == "", "%s" % r)
''')

bug("document-dot-slash", "C13",
    "a document whose path begins with ./",
    "The ./ at the beginning of a document's path is left out.",
    [(PTC, "            path: Cow::Borrowed(value.path().item()),", "            path: Cow::Borrowed({\n                let path: &str = value.path().item();\n                path.strip_prefix(\"./\").unwrap_or(path)\n            }),")],
    '''
r = pod('2020-01-01 document Assets:A "./x.pdf"\\n', [("parser.directives",)])[0]["result"]["directives"][0]
check(r["path"] == "./x.pdf", "%s" % r)
''')

bug("zero-fallback", "C16",
    "a tolerance of zero for all currencies not named",
    "A fallback tolerance of zero is left out of the options.",
    [(PTC, "                inferred_tolerance_default_fallback = Some(tol);", "                inferred_tolerance_default_fallback = (!tol.is_zero()).then_some(tol);")],
    '''
r = pod('option "inferred_tolerance_default" "*:0"\\n', [("parser.options",)])[0]["result"]
check("inferred-tolerance-default-fallback" in r, "%s" % r)
''')

bug("label-trimmed", "C13",
    "a cost label with white space around it",
    "White space around the label of a cost is taken away.",
    [(PTC, "label: value.label().map(|x| Cow::Borrowed(*x.item())),", "label: value.label().map(|x| Cow::Borrowed(x.item().trim())),")],
    '''
r = pod('2020-01-01 * "x"\\n  Assets:A 1 HOOL {2 USD, " a "}\\n  Assets:B\\n', [("parser.directives",)])[0]["result"]["directives"][0]
check(r["postings"][0]["cost-spec"]["label"] == " a ", "%s" % r)
''')

bug("price-directive-sign", "C13",
    "a price directive of a negative amount",
    "The amount of a price directive loses its sign.",
    [(PTC, "per_unit: value.amount().number().value(),\n                total: None,", "per_unit: value.amount().number().value().abs(),\n                total: None,")],
    '''
r = pod('2020-01-01 price USD -2 EUR\\n', [("parser.directives",)])[0]["result"]["directives"][0]
check("-2" in str(r), "%s" % r)
''')

bug("query-ends", "C13",
    "a query whose text ends in a semicolon or white space",
    "White space at the end of a query is taken away.",
    [(PTC, "content: Cow::Borrowed(value.content().item()),", "content: Cow::Borrowed(value.content().item().trim_end()),")],
    '''
r = pod('2020-01-01 query "a" "b "\\n', [("parser.directives",)])[0]["result"]["directives"][0]
check("b " in r.values(), "%s" % r)
''')
