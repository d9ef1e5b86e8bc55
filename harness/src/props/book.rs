//! The booking properties: generated ledgers, booked by the pod and by the model.
use super::common::*;
use crate::ast::*;
use crate::compare::*;
use crate::gen::{self, f, Built, Profile};
use crate::genes::Case;
use crate::invariants;
use crate::model::*;
use crate::pod::*;
use crate::runner::*;
use serde_json::{json, Value};

pub static PROFILES: std::sync::LazyLock<super::meta::Profiles> = std::sync::LazyLock::new(super::meta::profiles);

pub struct BookCheck {
    pub id: &'static str,
    pub profile: Profile,
    pub quick: usize,
    pub classes: &'static [&'static str],
    /// which differences count, beyond their class
    pub keep: fn(&Disc, &Model, &Built) -> bool,
    pub nontrivial: fn(&Stats, &Model, &Ledger) -> bool,
    pub what: &'static str,
    pub params: bool,
    pub invariants: bool,
}

/// "a" matches class "a" or anything starting with "a:"
pub fn in_classes(class: &str, classes: &[&str]) -> bool {
    class == "crash"
        || classes.iter().any(|c| *c == "*" || class == *c || (c.ends_with(':') && class.starts_with(*c)))
}

impl BookCheck {
    fn diffs(&self, case: &Case, b: &Built, w: &mut Worker, m: &mut Model) -> Result<(Vec<Disc>, Vec<Value>), HarnessError> {
        let l = &b.ledger;
        let sorted = l.sorted();
        // what no file can say
        let passed = odd_params(case.cfg.last().copied().unwrap_or(0), &sorted);
        let r = l.render();
        let dir = w.fresh();
        let root = write_ledger(&dir, &l.paths, &r.texts)?;
        let mut reqs = vec![req(1, "parser.directives", None), req(2, "book", None)];
        if self.params {
            reqs.push(req(3, "book", Some(params_of(passed.as_ref().unwrap_or(&sorted)))));
        }
        let resp = match ask(w, &root, &reqs)? {
            Err(d) => return Ok((d, vec![])),
            Ok(r) => r,
        };
        let mut out = vec![];
        let Some(pd) = resp[0].get("result") else {
            return Ok((vec![disc("noparse", format!("ledger was not parsed: {}", short(&resp[0])))], resp));
        };
        out.extend(diff_raw(&sorted, &pd["directives"]));
        let sm = SpanMap::of(&pd["directives"]);
        let judge = |m: &Model| {
            let mut v = diff_book_own(m, &sorted, &resp[1], &sm);
            if self.params {
                let own = passed.as_ref().map(|p| (Model::run(&l.opts, p), p));
                let (m, dirs) = own.as_ref().map_or((m, &sorted), |(m, p)| (m, *p));
                v.extend(diff_book_params(m, dirs, &resp[2]).into_iter().map(|mut d| {
                    d.class = format!("p:{}", d.class);
                    d
                }));
            }
            v
        };
        let mut v = judge(m);
        if !v.is_empty() {
            // the booking crate's result may hang on hash order: see whether another run of it agrees
            for _ in 0..model_tries() {
                let m2 = Model::run(&l.opts, &sorted);
                if m2.ambiguous {
                    m.ambiguous = true;
                    break;
                }
                let v2 = judge(&m2);
                if v2.is_empty() {
                    v = v2;
                    break;
                }
            }
        }
        out.extend(v);
        if self.invariants {
            if let Some(r) = resp[1].get("result") {
                out.extend(invariants::check(l, &sorted, &r["directives"]));
            }
        }
        Ok((out, resp))
    }
}

impl Check for BookCheck {
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> String {
        format!(
            "ledgers built from random gene tapes guided by a model of what accounts hold; non-trivial: {}",
            self.what
        )
    }
    fn shape(&self, thorough: bool) -> Shape {
        let (a, b) = self.profile.ops;
        Shape { cfg: 192, ops: (a, if thorough { b * 3 } else { b }), genes: 56 }
    }
    fn quick(&self) -> usize {
        self.quick
    }
    fn eval(&self, case: &Case, w: &mut Worker) -> Result<Eval, HarnessError> {
        let mut ev = Eval::default();
        let b = gen::build(case, &self.profile);
        let sorted = b.ledger.sorted();
        let mut m = Model::run(&b.ledger.opts, &sorted);
        if m.ambiguous {
            ev.discard = Some("booking crate's hash order decides");
            return Ok(ev);
        }
        let (d, _) = self.diffs(case, &b, w, &mut m)?;
        if m.ambiguous {
            ev.discard = Some("booking crate's hash order decides");
            return Ok(ev);
        }
        ev.bad = d.into_iter().filter(|d| in_classes(&d.class, self.classes) && (d.class == "crash" || (self.keep)(d, &m, &b))).collect();
        for (k, v) in m.st.0.iter().chain(&b.stats.0) {
            ev.stats.insert(k.to_string(), *v as u64);
        }
        for x in &m.faults {
            let rc = reason_class(&x.reasons[0], sorted[x.at.0].kind());
            ev.hit(&if rc == "interp" { format!("fault interp {}", x.reasons[0].split(" on posting").next().unwrap()) } else { format!("fault {rc}") });
        }
        if m.faults.is_empty() {
            ev.hit("success");
        }
        ev.nontrivial = (self.nontrivial)(&m.st, &m, &b.ledger);
        let texts = b.ledger.render().texts;
        ev.key = hash_of(&texts);
        ev.sample = json!({"ledger": texts[0], "faults": m.faults.len(), "booked": m.booked.len()});
        Ok(ev)
    }
    fn explain(&self, case: &Case, w: &mut Worker) -> Value {
        let b = gen::build(case, &self.profile);
        let sorted = b.ledger.sorted();
        let mut m = Model::run(&b.ledger.opts, &sorted);
        let r = b.ledger.render();
        let resp = self.diffs(case, &b, w, &mut m).map(|x| x.1).unwrap_or_default();
        json!({
            "ledger": texts_json(&b.ledger.paths, &r.texts),
            "expected faults": m.faults.iter().map(|f| format!("{f:?}")).collect::<Vec<_>>(),
            "expected": Value::Array(m.expected()),
            "responses": resp,
        })
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["limabean-booking 0.10.4 and beancount-parser-lima are as pinned; amounts stay within 28 digits".into()]
    }
}

/// the directives with texts that are empty, which a program may pass but no file gives
fn odd_params(x: u16, dirs: &[Dir]) -> Option<Vec<Dir>> {
    if x < 40_000 {
        return None;
    }
    let mut v = dirs.to_vec();
    for (i, d) in v.iter_mut().enumerate() {
        if let Var::Txn { payee, narration, .. } = &mut d.var {
            match (x as usize / 7 + i) % 5 {
                0 => *payee = Some(String::new()),
                1 => *narration = Some(String::new()),
                2 => (*payee, *narration) = (None, Some(String::new())),
                _ => (),
            }
        }
    }
    Some(v)
}

fn any(_: &Disc, _: &Model, _: &Built) -> bool {
    true
}

fn first_failed_balance(m: &Model) -> Option<usize> {
    m.faults.iter().filter(|f| f.class == "bal").map(|f| f.at.0).min()
}

pub fn checks() -> Vec<Box<dyn Check>> {
    let b = || Profile { bulk: 2, before: true, ..Profile::base() };
    let mk = |id, profile, quick, classes, keep, nontrivial, what| BookCheck {
        id,
        profile,
        quick,
        classes,
        keep,
        nontrivial,
        what,
        params: false,
        invariants: false,
    };
    let v: Vec<BookCheck> = vec![
        BookCheck {
            invariants: true,
            ..mk(
                "C01",
                Profile {
                    ops: (1, 22),
                    w: [1, 0, 30, 1, 0, 0, 0, 0, 0, 0, 0, 0],
                    near_tol: 35,
                    tol_opts: 45,
                    fault: 10,
                    faults: f::UNBAL,
                    elide: 25,
                    prices: 18,
                    multi: 20,
                    unusual_nums: 25,
                    curlists: 0,
                    opt_booking: 8,
                    booking: 8,
                    meta: 3,
                    ..b()
                },
                7000,
                &["weights", "txn-units", "txn-lots", "txn-cost", "txn-price", "missing:unbal", "extra:unbal", "loc:unbal", "missing:interp", "extra:interp", "loc:interp"],
                any,
                |s, m, _| s.get("txn-ok") > 0 || m.faults.iter().any(|f| f.class == "book"),
                "at least one transaction was booked or refused for its amounts",
            )
        },
        BookCheck {
            invariants: true,
            ..mk(
                "C02",
                Profile {
                    mend: 70,
                    ops: (1, 18),
                    costs: 40,
                    w: [1, 0, 30, 1, 0, 0, 0, 0, 0, 0, 0, 0],
                    near_tol: 3,
                    fault: 2,
                    faults: f::UNBAL,
                    elide: 60,
                    prices: 22,
                    multi: 22,
                    meta: 45,
                    rich: 25,
                    style: 15,
                    curlists: 0,
                    unusual_nums: 15,
                    ..b()
                },
                7000,
                &["filled", "count", "order", "txn-head", "txn-posts", "txn-units", "txn-lots", "txn-cost", "txn-price", "missing:interp", "extra:interp", "loc:interp"],
                any,
                |s, m, _| m.faults.is_empty() && s.get("interp-units") > 0,
                "booking succeeds and at least one amount was left out and filled in",
            )
        },
        BookCheck {
            invariants: true,
            ..mk(
                "C03",
                Profile {
                    ops: (3, 30),
                    w: [1, 0, 30, 0, 0, 0, 0, 0, 0, 0, 0, 0],
                    costs: 80,
                    prices: 2,
                    multi: 2,
                    near_tol: 0,
                    fault: 7,
                    faults: f::LOT,
                    elide: 50,
                    curlists: 0,
                    meta: 3,
                    booking: 20,
                    opt_booking: 15,
                    tol_opts: 10,
                    preopen: (3, 6),
                    ..b()
                },
                6000,
                &["lots", "txn-lots", "txn-cost", "missing:lot", "extra:lot", "loc:lot"],
                // which lots are taken under a method of its own is another property's matter
                |d, m, b| {
                    d.class == "lots"
                        || (b.ledger.opts.booking.is_none() && m.st.get("open-booking") == 0)
                },
                |s, m, _| s.get("at-cost") > 1 || m.faults.iter().any(|f| f.class == "book"),
                "lots were held and reduced or a reduction was refused",
            )
        },
        mk(
            "C04",
            Profile {
                ops: (3, 30),
                w: [1, 0, 30, 0, 0, 0, 0, 0, 0, 0, 0, 0],
                costs: 88,
                prices: 1,
                multi: 1,
                near_tol: 0,
                fault: 2,
                faults: f::LOT,
                elide: 60,
                curlists: 0,
                meta: 2,
                booking: 60,
                opt_booking: 60,
                tol_opts: 5,
                preopen: (3, 6),
                ..b()
            },
            6000,
            &["txn-lots", "txn-cost", "missing:lot", "extra:lot", "loc:lot"],
            any,
            |s, m, l| {
                (l.opts.booking.is_some() || s.get("open-booking") > 0)
                    && (s.get("at-cost") > 1 || m.faults.iter().any(|f| f.class == "book"))
            },
            "a booking method is set and lots were held and reduced or a reduction was refused",
        ),
        mk(
            "C05",
            Profile {
                mend: 25,
                w: [6, 7, 25, 6, 4, 0, 0, 0, 0, 0, 0, 0],
                costs: 8,
                fault: 25,
                faults: f::NOTOPEN | f::OPEN | f::PADSRC,
                curlists: 0,
                near_tol: 0,
                samedate: 30,
                shuffle: 15,
                meta: 3,
                preopen: (3, 9),
                ..b()
            },
            8000,
            &["missing:acct", "extra:acct", "loc:acct", "related:acct", "missing:open", "extra:open", "loc:open", "related:open"],
            any,
            |s, m, _| s.get("close") > 0 || m.faults.iter().any(|f| f.class == "acct" || f.class == "open"),
            "an account was closed, or a use of one that was not open was refused",
        ),
        mk(
            "C06",
            Profile {
                w: [4, 1, 30, 8, 1, 0, 0, 0, 0, 0, 0, 0],
                costs: 15,
                fault: 25,
                faults: f::CUR,
                curlists: 70,
                near_tol: 0,
                multi: 25,
                elide: 55,
                meta: 3,
                samedate: 5,
                rollup_focus: true,
                ..b()
            },
            8000,
            &["missing:cur", "extra:cur", "loc:cur", "related:cur"],
            any,
            |_, m, _| m.accs.values().any(|a| !a.curs.is_empty()) && !m.booked.is_empty(),
            "an account opened with a list of currencies",
        ),
        mk(
            "C07",
            Profile {
                w: [3, 2, 20, 25, 0, 0, 0, 0, 0, 0, 0, 0],
                costs: 10,
                near_tol: 45,
                bal_fail: 4,
                fault: 0,
                tol_opts: 55,
                curlists: 0,
                meta: 2,
                multi: 15,
                samedate: 15,
                unusual_nums: 30,
                rollup_focus: true,
                ..b()
            },
            8000,
            &["missing:bal", "extra:bal", "loc:bal", "bal-margin"],
            |d, m, _| first_failed_balance(m).is_none_or(|i| d.at.is_none_or(|a| a <= i)),
            |s, _, _| s.get("bal-ok") + s.get("bal-fail") > 0,
            "at least one balance assertion judged",
        ),
        mk(
            "C08",
            Profile {
                w: [6, 2, 20, 25, 0, 0, 0, 0, 0, 0, 0, 0],
                costs: 5,
                near_tol: 0,
                bal_fail: 30,
                fault: 6,
                faults: f::OPEN,
                tol_opts: 10,
                curlists: 0,
                meta: 2,
                multi: 15,
                samedate: 5,
                unusual_nums: 3,
                rollup_focus: true,
                ..b()
            },
            8000,
            &["missing:bal", "extra:bal", "loc:bal", "bal-margin"],
            |d, m, _| first_failed_balance(m).is_some_and(|i| d.at.is_some_and(|a| a > i)),
            |s, _, _| s.get("bal-fail") > 0 && s.get("bal-ok") + s.get("bal-fail") > 1,
            "a failed balance assertion and another one",
        ),
        mk(
            "C09",
            Profile {
                mend: 40,
                w: [3, 2, 16, 16, 14, 1, 0, 0, 1, 0, 0, 0],
                costs: 6,
                near_tol: 6,
                bal_fail: 0,
                fault: 0,
                tol_opts: 15,
                curlists: 4,
                meta: 20,
                multi: 10,
                samedate: 15,
                shuffle: 25,
                pad_focus: true,
                rollup_focus: true,
                ..b()
            },
            8000,
            &["pad-txn", "count", "order", "missing:bal", "extra:bal", "bal-margin", "extra:pad"],
            any,
            |s, _, _| s.get("pad-fill") > 0,
            "at least one pad filled a gap",
        ),
        mk(
            "C10",
            Profile {
                w: [3, 1, 16, 16, 16, 1, 0, 0, 1, 0, 0, 0],
                costs: 6,
                near_tol: 15,
                bal_fail: 5,
                fault: 0,
                tol_opts: 15,
                curlists: 0,
                meta: 4,
                multi: 10,
                samedate: 25,
                pad_focus: true,
                rollup_focus: true,
                ..b()
            },
            8000,
            &["missing:pad", "extra:pad", "loc:pad", "related:pad"],
            any,
            |s, m, _| s.get("pad-fill") > 0 || m.faults.iter().any(|f| f.class == "pad"),
            "at least one pad was used or reported",
        ),
        BookCheck {
            params: true,
            ..mk(
                "C11",
                Profile {
                    mend: 25,
                    ops: (2, 30),
                    w: [5, 3, 25, 8, 5, 1, 1, 1, 1, 1, 1, 1],
                    costs: 20,
                    fault: 30,
                    faults: f::ALL,
                    curlists: 30,
                    near_tol: 4,
                    bal_fail: 15,
                    meta: 8,
                    rich: 10,
                    style: 12,
                    files: 25,
                    bulk: 3,
                    shuffle: 20,
                    ..b()
                },
                5000,
                &[
                    "missing:", "extra:", "loc:", "related:", "fault-span", "fault-msg", "fault-context", "fault-related",
                    "p:missing:", "p:extra:", "p:loc:", "p:related:", "p:annot", "p:bal-margin", "proto", "p:proto",
                ],
                any,
                |_, m, _| m.faults.len() > 1,
                "two or more faults",
            )
        },
        BookCheck {
            params: true,
            ..mk(
            "C26",
            Profile {
                mend: 25,
                w: [4, 1, 30, 18, 2, 0, 0, 0, 0, 0, 0, 0],
                costs: 12,
                near_tol: 5,
                bal_fail: 45,
                fault: 3,
                faults: f::UNBAL,
                tol_opts: 10,
                curlists: 0,
                meta: 2,
                multi: 20,
                rich: 8,
                samedate: 10,
                rollup_focus: true,
                ..b()
            },
            8000,
            &["annot", "p:annot"],
            any,
            |s, _, _| s.get("bal-fail") > 0,
            "at least one failed balance assertion",
        )
        },
        mk(
            "C29",
            Profile {
                mend: 70,
                w: [6, 3, 6, 6, 6, 8, 8, 8, 8, 8, 8, 8],
                costs: 5,
                near_tol: 0,
                bal_fail: 0,
                fault: 0,
                meta: 50,
                rich: 30,
                style: 15,
                curlists: 30,
                booking: 40,
                pad_focus: true,
                push: 15,
                shuffle: 20,
                ..b()
            },
            7000,
            &["pass", "pass-bp", "count", "order"],
            any,
            |_, m, _| m.faults.is_empty() && m.booked.iter().any(|b| !matches!(b.kind, "txn" | "open")),
            "a successful booking with directives other than opens and transactions",
        ),
    ];
    v.into_iter().map(|c| Box::new(c) as Box<dyn Check>).collect()
}
