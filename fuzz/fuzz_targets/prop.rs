//! Coverage-guided search: libFuzzer's bytes drive the generator of one property (RLPN_FUZZ), or
//! replace the text of a generated case, and the property's own check decides.
#![no_main]
#![allow(dead_code)]
use libfuzzer_sys::fuzz_target;
use proptest::test_runner::{RngAlgorithm, TestRng};
use std::sync::OnceLock;
#[path = "../../harness/src/call.rs"]
mod call;
#[path = "../../harness/src/case.rs"]
mod case;
#[path = "../../harness/src/compiled.rs"]
mod compiled;
#[path = "../../harness/src/env.rs"]
mod env;
#[path = "../../harness/src/gens.rs"]
mod gens;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/num.rs"]
mod num;
#[path = "../../harness/src/props_inner.rs"]
mod props_inner;
#[path = "../../harness/src/props_num.rs"]
mod props_num;
#[path = "../../harness/src/props_parse.rs"]
mod props_parse;
#[path = "../../harness/src/props_wire.rs"]
mod props_wire;
#[path = "../../harness/src/props_world.rs"]
mod props_world;
#[path = "../../harness/src/run.rs"]
mod run;
#[path = "../../harness/src/worlds.rs"]
mod worlds;
#[path = "../../harness/src/xmlmeta.rs"]
mod xmlmeta;

struct State {
    p: run::Prop,
    env: env::Env,
    tail: Vec<u8>,
    /// any text will do for this property
    free_text: bool,
    out: String,
}
static STATE: OnceLock<State> = OnceLock::new();
fn state() -> State {
    let id = std::env::var("RLPN_FUZZ").expect("RLPN_FUZZ");
    let mut v = props_parse::props();
    v.extend(props_num::props());
    v.extend(props_world::props());
    v.extend(props_inner::props());
    v.extend(props_wire::props());
    let mut r = gens::rng_of(7);
    State {
        p: v.into_iter().find(|p| p.id == id).expect("property"),
        env: env::Env::new(),
        // what a generator draws after the fuzzer's bytes are used up
        tail: (0..16384).map(|_| gens::below(&mut r, 256) as u8).collect(),
        free_text: ["C01", "C06", "C07", "C08", "C11", "C12", "C13", "C22"].contains(&id.as_str()),
        out: std::env::var("RLPN_FUZZ_OUT").expect("RLPN_FUZZ_OUT"),
    }
}
fuzz_target!(|data: &[u8]| {
    let s = STATE.get_or_init(state);
    let Some((how, data)) = data.split_first() else { return };
    let draw = |d: &[u8]| (s.p.generate.expect("generator"))(&s.env, &mut TestRng::from_seed(RngAlgorithm::PassThrough, &[d, &s.tail[..]].concat()));
    let c = if s.free_text && how & 1 == 0 && data.len() > 40 {
        let mut c = draw(&data[..32]);
        c.text = String::from_utf8_lossy(&data[32..]).to_string();
        c
    } else {
        draw(data)
    };
    let held = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.p.check)(&s.env, &c, &mut run::Stats::default())));
    if !matches!(held, Ok(Ok(()))) {
        std::fs::write(&s.out, serde_json::json!({"property": s.p.id, "case": c}).to_string()).expect("replay");
        std::process::abort();
    }
});
