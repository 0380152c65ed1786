//! Coverage-guided search for one property (VFUZZ_ID): the input's first byte chooses the part, the
//! rest is the stream of random choices of that part's generator (or, for parts over raw bytes, the
//! bytes themselves). A failing case is shrunk and written to VFUZZ_OUT, in the form `harness replay`
//! takes; VFUZZ_STATS receives what was covered.
#![no_main]
use harness::adapter::Mqtt;
use harness::peers::{failure_json, harness_error, Others};
use libfuzzer_sys::fuzz_target;
use serde_json::json;
use std::cell::RefCell;
use std::time::{Duration, Instant};
use vcore::props;
use vcore::props::c15::Peers;
use vcore::run::*;

struct State {
    id: String,
    out: String,
    stats_to: String,
    parts: Vec<Part>,
    env: Env<'static>,
    stats: Stats,
    written: Instant,
}

fn var(k: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| harness_error(&format!("{k} is not set")))
}

fn start() -> State {
    install_panic_hook();
    let id = var("VFUZZ_ID");
    let out = var("VFUZZ_OUT");
    let def = props::get(&id).unwrap_or_else(|| harness_error("unknown property"));
    let peers = std::env::var("VFUZZ_PEERS")
        .ok()
        .map(|p| &*Box::leak(Box::new(Others::start(&p))));
    if let Ok(t) = std::env::var("VFUZZ_TRACE") {
        trace_to(t.into());
    }
    {
        let (id, out) = (id.clone(), out.clone());
        watchdog(Duration::from_secs(60), 3 << 30, move |f| {
            let _ = std::fs::write(&out, failure_json(&id, &f).to_string());
            std::process::exit(1);
        });
    }
    State {
        parts: def
            .parts
            .into_iter()
            .filter(|p| p.from_bytes.is_some())
            .collect(),
        env: Env {
            codec: &Mqtt,
            thorough: true,
            shard: 0,
            shards: 1,
            peers: peers.map(|o| o as &dyn Peers),
        },
        id,
        out,
        stats_to: var("VFUZZ_STATS"),
        stats: Stats::default(),
        written: Instant::now(),
    }
}

fn report(s: &State) {
    let v = json!({
        "evaluations": s.stats.evaluations,
        "nontrivial": s.stats.nontrivial.len(),
        "parts": s.stats.parts,
    });
    let _ = std::fs::write(&s.stats_to, v.to_string());
}

thread_local! {
    static S: RefCell<Option<State>> = const { RefCell::new(None) };
}

fuzz_target!(|data: &[u8]| {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.get_or_insert_with(start);
        let Some((k, rest)) = data.split_first() else {
            return;
        };
        if s.parts.is_empty() {
            report(s);
            std::process::exit(0);
        }
        // half of the inputs for the parts that take bytes as they come
        let split = s.parts.iter().filter(|p| p.name.ends_with("bytes")).count();
        let k = *k as usize;
        let part = if split > 0 && (k % 2 == 0 || split == s.parts.len()) {
            &s.parts[k / 2 % split]
        } else {
            &s.parts[split + k / 2 % (s.parts.len() - split)]
        };
        let r = (part.from_bytes.as_ref().unwrap())(&s.env, &mut s.stats, rest);
        if let Err(f) = r {
            if f.message.contains("HARNESS") {
                harness_error(&format!("{}: {} ({})", f.part, f.message, f.shown));
            }
            let _ = std::fs::write(&s.out, failure_json(&s.id, &f).to_string());
            std::process::exit(1);
        }
        if s.written.elapsed() > Duration::from_secs(1) {
            report(s);
            s.written = Instant::now();
        }
    });
});
