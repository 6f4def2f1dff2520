//! C25: the other properties' checks on numbering plans other than the shipped one.
use crate::case::Case;
use crate::env::Env;
use crate::gens::*;
use crate::run::*;
use crate::worlds;
use std::cell::Cell;

/// properties whose checks decide by the rules alone, whatever the plan
pub const INNER: [&str; 13] = ["C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C20", "C21"];
const WEIGHTS: [u32; 13] = [22, 8, 10, 10, 8, 10, 10, 8, 8, 4, 4, 5, 6];
fn inner(id: &str) -> Prop {
    thread_local! {
        static ALL: Vec<Prop> = crate::props_parse::props().into_iter().chain(crate::props_num::props()).collect();
    }
    ALL.with(|a| *a.iter().find(|p| p.id == id).expect("inner property"))
}
fn c25_check(_: &Env, c: &Case, st: &mut Stats) -> Res {
    let e = worlds::world(c.i);
    let Some(o) = c.ops.first() else { return Ok(()) };
    st.class(&c.k);
    let mut own = Stats::default();
    let r = (inner(&c.k).check)(&e, o, &mut own);
    if own.is_hit() {
        st.hit();
    }
    r.map_err(|f| Fail { msg: format!("plan {}: {} {}", c.i, c.k, f.msg), ..f })
}
/// A plan of this seed's; every thread stays with one for a while.
pub fn next_plan(r: &mut R) -> i64 {
    const STAY: u32 = 4000;
    thread_local!(static AT: Cell<(i64, u32)> = const { Cell::new((0, 0)) });
    let (mut w, mut left) = AT.get();
    if left == 0 {
        let base = run_seed().rem_euclid(10_000) * 1_000_000 + 1;
        (w, left) = (base + below(r, 999_999) as i64, STAY);
    }
    AT.set((w, left - 1));
    w
}
fn c25_gen(_: &Env, r: &mut R) -> Case {
    let mut w = next_plan(r);
    if chance(r, 8) {
        w = 0;
    }
    let e = worlds::world(w);
    let id = INNER[weighted(r, &WEIGHTS)];
    let o = (inner(id).generate.unwrap())(&e, r);
    Case { ops: vec![o], ..Case::new(id).i(w) }
}
fn c25_sys(_: &Env, th: bool) -> Vec<Case> {
    // the testing plan, completely
    let e = worlds::world(0);
    let mut v = vec![];
    for id in INNER {
        for (i, o) in (inner(id).systematic)(&e, th).into_iter().enumerate() {
            if o.k != "chars" && (id != "C17" || o.k != "code" || i < 5000) {
                v.push(Case { ops: vec![o], ..Case::new(id) });
            }
        }
    }
    v
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        rule: "the testing plan of the repository, systematically, then plans generated from a seed (territories renamed, moved to other calling codes, prefixes, formats, lengths and types exchanged) x the generators of C07-C17, C20 and C21; non-trivial: as in those",
        assumptions: &["plans keep what the builder guarantees: patterns compile, general lengths are the union of the others, one main region"],
        quick: 1_500_000,
        thorough: 15_000_000,
        systematic: c25_sys,
        exhaustive: false,
        generate: Some(c25_gen),
        check: c25_check,
        threads: 8,
    }]
}
