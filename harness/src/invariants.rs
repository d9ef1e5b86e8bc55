//! Predicates on the pod's answer alone, independent of the model and of the booking crate.
use crate::ast::*;
use crate::compare::*;
use crate::model::Model;
use rust_decimal::Decimal;
use serde_json::Value;
use std::collections::BTreeMap;
use std::str::FromStr;

fn num(v: &Value) -> Option<Decimal> {
    let s = v.as_number()?.to_string();
    Decimal::from_str(&s).or_else(|_| Decimal::from_scientific(&s)).ok()
}

type LotKey = (String, String, String, Decimal, String, Option<String>, bool);

pub fn check(l: &Ledger, dirs: &[Dir], booked: &Value) -> Vec<Disc> {
    let mut out = vec![];
    let guide = Model::new(&l.opts);
    let mult = guide.tol.mult.unwrap_or(Decimal::new(5, 1));
    let empty = vec![];
    // units per lot: account, currency, date, per-unit, cost currency, label, merge
    let mut lots: BTreeMap<LotKey, Decimal> = BTreeMap::new();
    let mut methods: BTreeMap<String, String> = BTreeMap::new();
    let default_method = l.opts.booking.clone().unwrap_or("STRICT".into());
    for b in booked.as_array().unwrap_or(&empty) {
        let Some(idx) = b["idx"].as_u64() else { continue };
        let Some(d) = dirs.get(idx as usize) else {
            out.push(disc("order", format!("index {idx} out of range")));
            continue;
        };
        if let Var::Open { acc, booking, .. } = &d.var {
            methods.insert(acc.clone(), booking.clone().unwrap_or(default_method.clone()));
        }
        let Var::Txn { postings, .. } = &d.var else { continue };
        let at = |c: &str, s: String| disc(c, format!("directive {idx}: {s}")).at(idx as usize);
        let ps = b["postings"].as_array().unwrap_or(&empty);

        // each written posting appears, in order, and what was written is unchanged
        let mut by_idx: Vec<Vec<&Value>> = vec![vec![]; postings.len()];
        let mut last = 0;
        for p in ps {
            match p["idx"].as_u64() {
                Some(i) if (i as usize) < postings.len() => {
                    if (i as usize) < last {
                        out.push(at("filled", format!("posting {i} after {last}")));
                    }
                    last = i as usize;
                    by_idx[i as usize].push(p);
                }
                _ => out.push(at("filled", format!("posting index {}", p["idx"]))),
            }
        }
        // weights by currency; a looser bound than the model's, but of its own
        let mut weights: BTreeMap<String, (Decimal, Decimal, Option<u32>)> = BTreeMap::new();
        let mut known = false;
        for (i, (w, bs)) in postings.iter().zip(&by_idx).enumerate() {
            if bs.is_empty() {
                out.push(at("filled", format!("posting {i} is missing")));
                continue;
            }
            if bs.len() > 1 && w.cost.is_none() {
                out.push(at("filled", format!("posting {i} is there {} times", bs.len())));
            }
            let sum: Decimal = bs.iter().filter_map(|b| num(&b["units"])).sum();
            if let Some(u) = &w.units {
                if sum != u.v {
                    // selling everything within tolerance closes the lots with what they held
                    let within = w.cost.is_some() && bs.len() > 1;
                    if !within {
                        out.push(at("filled", format!("posting {i}: units {sum} instead of {}", u.v)));
                    }
                    let default = l.opts.tol_default.iter().map(|x| x.1.v).max().unwrap_or_default();
                    if within && (sum - u.v).abs() > default.max(Decimal::new(2, 1) * (mult + Decimal::ONE)) {
                        out.push(at("lots", format!("posting {i}: lots of {sum} for {}", u.v)));
                    }
                }
            }
            let wu = w.units.as_ref().map(|n| n.v).unwrap_or(sum);
            for b in bs {
                if b["acc"].as_str() != Some(&w.acc) {
                    out.push(at("filled", format!("posting {i}: account {}", b["acc"])));
                }
                if let Some(c) = &w.cur {
                    if b["cur"].as_str() != Some(c) {
                        out.push(at("filled", format!("posting {i}: currency {} instead of {c}", b["cur"])));
                    }
                }
                let Some(u) = num(&b["units"]) else {
                    out.push(at("filled", format!("posting {i}: units {}", b["units"])));
                    continue;
                };
                let cur = b["cur"].as_str().unwrap_or("").to_string();
                let (wcur, weight, slack);
                // known findings: a cost or price total, written or worked out, whose sign is not that of
                // the units (what is taken from a lot carries the lot's own total, and is judged)
                let signs = |c: &Value| num(&c["total"]).is_some_and(|t| t * u < Decimal::ZERO);
                if let Some(c) = b.get("cost") {
                    let per = num(&c["per-unit"]).unwrap_or_default();
                    wcur = c["cur"].as_str().unwrap_or("").to_string();
                    weight = per * u;
                    slack = Decimal::new(1, 0).max(u.abs() * Decimal::new(1, 6)) * Decimal::new(1, 2).max(if u.scale() > 0 { Decimal::new(6, u.scale() + 1) } else { Decimal::ZERO });
                    // the cost that was written
                    if let Some(cs) = &w.cost {
                        let total_given = cs.total.is_some();
                        if let Some(x) = &cs.per_unit {
                            if !total_given && per != x.v {
                                out.push(at("lots", format!("posting {i}: lot at {per} for a cost of {}", x.v)));
                            }
                        }
                        if let Some(x) = &cs.cur {
                            if *x != wcur {
                                out.push(at("lots", format!("posting {i}: lot in {wcur} for a cost in {x}")));
                            }
                        }
                        if let Some(x) = &cs.date {
                            if c["date"].as_str() != Some(&date_str(*x)) {
                                out.push(at("lots", format!("posting {i}: lot of {} for {}", c["date"], date_str(*x))));
                            }
                        }
                        if let Some(x) = &cs.label {
                            if c["label"].as_str() != Some(x) {
                                out.push(at("lots", format!("posting {i}: lot labelled {} for {x}", c["label"])));
                            }
                        }
                    }
                    let key = (
                        w.acc.clone(),
                        cur.clone(),
                        c["date"].as_str().unwrap_or("").to_string(),
                        per.normalize(),
                        wcur.clone(),
                        c["label"].as_str().map(|s| s.to_string()),
                        c["merge"].as_bool().unwrap_or(false),
                    );
                    let method = methods.get(&w.acc).cloned().unwrap_or(default_method.clone());
                    // known finding: a cost without a currency, in an account whose lots cost several, is
                    // weighed as if it cost the commodity itself
                    let in_several = w.price.as_ref().and_then(|p| p.cur.as_ref()).is_none()
                        && w.cost.as_ref().is_some_and(|x| x.cur.is_none())
                        && lots.iter().filter(|(k, v)| k.0 == w.acc && !v.is_zero()).map(|(k, _)| &k.4).collect::<std::collections::BTreeSet<_>>().len() > 1;
                    let held = lots.entry(key.clone()).or_default();
                    let before = *held;
                    *held += u;
                    let taken = method != "NONE" && before * u < Decimal::ZERO;
                    known |= !taken && signs(c);
                    known |= in_several;
                    if method != "NONE" && !before.is_zero() {
                        let crossed = (before.is_sign_negative() != held.is_sign_negative()) && !held.is_zero();
                        if crossed {
                            out.push(at("lots", format!("posting {i}: lot {key:?} goes from {before} to {held}")));
                        }
                    }
                } else if let Some(p) = b.get("price") {
                    let per = num(&p["per-unit"]).unwrap_or_default();
                    wcur = p["cur"].as_str().unwrap_or("").to_string();
                    weight = per * u;
                    slack = Decimal::new(1, 2).max(u.abs() * Decimal::new(1, 6)).max(if u.scale() > 0 { Decimal::new(6, u.scale() + 1) } else { Decimal::new(1, 0) });
                    known |= signs(p);
                    if let Some(ps) = &w.price {
                        if let (Some(x), None) = (&ps.per_unit, &ps.total) {
                            if per != x.v {
                                out.push(at("filled", format!("posting {i}: price {per} instead of {}", x.v)));
                            }
                        }
                        if let Some(x) = &ps.cur {
                            if *x != wcur {
                                out.push(at("filled", format!("posting {i}: price in {wcur} instead of {x}")));
                            }
                        }
                    }
                } else {
                    wcur = cur;
                    weight = u;
                    slack = Decimal::ZERO;
                }
                let e = weights.entry(wcur).or_insert((Decimal::ZERO, Decimal::ZERO, None));
                e.0 += weight;
                e.1 += slack;
                // the scales that set the tolerance are those of the weights, never finer than this
                let s = if b.get("cost").is_some() || b.get("price").is_some() { None } else { Some(u.scale()) };
                if let Some(s) = s {
                    if s > 0 {
                        e.2 = Some(e.2.map_or(s, |x: u32| x.min(s)));
                    }
                } else if wu.scale() > 0 {
                    e.2 = Some(e.2.map_or(wu.scale(), |x: u32| x.min(wu.scale())));
                }
            }
        }
        for (c, (sum, slack, scale)) in weights {
            let mut tol = match scale {
                Some(s) => Decimal::new(1, s) * mult,
                None => guide.tol.default.get(&c).copied().or(guide.tol.fallback).unwrap_or(Decimal::ZERO),
            };
            if !slack.is_zero() {
                // the scale may come from a cost or price instead
                tol = tol.max(Decimal::new(1, 1) * mult).max(guide.tol.default.get(&c).copied().or(guide.tol.fallback).unwrap_or(Decimal::ZERO));
            }
            if sum.abs() > tol + slack && !known {
                out.push(at("weights", format!("weights in {c} sum to {sum}, tolerance {tol} and {slack} for rounding")));
            }
        }
    }
    out
}
