//! Command line: run one property, replay one case, or answer C15 requests.
use harness::adapter::Mqtt;
use harness::peers::{failure_json, harness_error, Others};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::time::Duration;
use vcore::codec::Codec;
use vcore::props;
use vcore::props::c15::{answer, Peers, Req};
use vcore::run::*;

fn serve() {
    let c = Mqtt;
    println!("{}", json!([c.name(), c.text()]));
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let req: Req = serde_json::from_str(&line)
            .unwrap_or_else(|e| harness_error(&format!("bad request: {e}")));
        let mut o = serde_json::to_string(&answer(&c, &req)).unwrap();
        o.push('\n');
        let mut out = std::io::stdout().lock();
        if out.write_all(o.as_bytes()).is_err() || out.flush().is_err() {
            break;
        }
    }
}

struct Args(Vec<String>);
impl Args {
    fn opt(&self, k: &str) -> Option<&str> {
        let i = self.0.iter().position(|a| a == k)?;
        self.0.get(i + 1).map(String::as_str)
    }
    fn flag(&self, k: &str) -> bool {
        self.0.iter().any(|a| a == k)
    }
    fn num<T: std::str::FromStr>(&self, k: &str, d: T) -> T {
        match self.opt(k) {
            None => d,
            Some(v) => v
                .parse()
                .unwrap_or_else(|_| harness_error(&format!("bad value for {k}"))),
        }
    }
}

fn main() {
    let a = Args(std::env::args().collect());
    install_panic_hook();
    if let Err(m) = guard(|| {
        dispatch(&a);
        Ok(())
    }) {
        harness_error(&m);
    }
}

fn dispatch(a: &Args) {
    match a.0.get(1).map(String::as_str) {
        Some("serve") => serve(),
        Some("info") => println!("{}", Mqtt.name()),
        Some("run") => run(a),
        Some("replay") => replay(a),
        Some("parts") => {
            for id in props::IDS {
                let d = props::get(id).unwrap();
                for p in d.parts {
                    println!("{id} {} {}", p.name, p.cases);
                }
            }
        }
        _ => harness_error("usage: run|replay|serve|info|parts"),
    }
}

fn stuck_limit(a: &Args) -> Duration {
    Duration::from_secs(a.num("--stuck", 60))
}
const RSS: usize = 3 << 30;

fn run(a: &Args) {
    let id = a.0.get(2).cloned().unwrap_or_default();
    let def = props::get(&id).unwrap_or_else(|| harness_error("unknown property"));
    let seed: u64 = a.num("--seed", 1);
    let scale: f64 = a.num("--scale", 1.0);
    let out = a
        .opt("--out")
        .unwrap_or_else(|| harness_error("--out missing"))
        .to_string();
    let only = a.opt("--part");
    if let Some(t) = a.opt("--trace") {
        trace_to(t.into());
    }
    let others = a.opt("--peers").map(Others::start);
    let env = Env {
        codec: &Mqtt,
        thorough: a.flag("--thorough"),
        shard: a.num("--shard", 0),
        shards: a.num("--shards", 1),
        peers: others.as_ref().map(|o| o as &dyn Peers),
    };
    {
        let (id, out) = (id.clone(), out.clone());
        watchdog(stuck_limit(a), RSS, move |f| {
            let v = json!({"config": Mqtt.name(), "failure": failure_json(&id, &f)});
            let _ = std::fs::write(&out, v.to_string());
            std::process::exit(1);
        });
    }
    let mut stats = Stats::default();
    let mut failure = None;
    let mut times = serde_json::Map::new();
    for p in &def.parts {
        if only.is_some_and(|o| o != p.name) {
            continue;
        }
        let t = std::time::Instant::now();
        let s = derive_seed(seed, &id, p.name, Mqtt.name(), env.shard);
        let n = if p.cases == 0 {
            0
        } else {
            ((f64::from(p.cases) * scale) as u32).max(1)
        };
        let r = (p.run)(&env, &mut stats, s, n);
        times.insert(p.name.into(), json!(t.elapsed().as_secs_f64()));
        if let Err(f) = r {
            if f.message.contains("HARNESS") {
                harness_error(&format!("{id} {}: {} ({})", f.part, f.message, f.shown));
            }
            failure = Some(f);
            break;
        }
    }
    let hashes: Vec<u8> = stats
        .nontrivial
        .iter()
        .flat_map(|h| h.to_le_bytes())
        .collect();
    std::fs::write(format!("{out}.hashes"), hashes)
        .unwrap_or_else(|e| harness_error(&e.to_string()));
    let v = json!({
        "config": Mqtt.name(),
        "rule": def.rule,
        "evaluations": stats.evaluations,
        "labels": stats.labels,
        "parts": stats.parts,
        "times": times,
        "exhaustive_parts": stats.exhaustive_parts,
        "samples": stats.samples,
        "failure": failure.as_ref().map(|f| failure_json(&id, f)),
    });
    std::fs::write(&out, v.to_string()).unwrap_or_else(|e| harness_error(&e.to_string()));
    std::process::exit(i32::from(failure.is_some()));
}

fn replay(a: &Args) {
    let path = a.0.get(2).cloned().unwrap_or_default();
    let v: Value = std::fs::read_to_string(&path)
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or_else(|| harness_error("cannot read the replay file"));
    let id = v["property"].as_str().unwrap_or_default().to_string();
    let def = props::get(&id).unwrap_or_else(|| harness_error("unknown property"));
    let others = a.opt("--peers").map(Others::start);
    let env = Env {
        codec: &Mqtt,
        thorough: false,
        shard: 0,
        shards: 1,
        peers: others.as_ref().map(|o| o as &dyn Peers),
    };
    let part = def
        .parts
        .iter()
        .find(|p| Some(p.name) == v["part"].as_str())
        .unwrap_or_else(|| harness_error("unknown part"));
    watchdog(stuck_limit(a), RSS, |f| {
        println!("FAILS: {}", f.message);
        std::process::exit(1);
    });
    match (part.replay)(&env, v["case"].clone()) {
        Ok(()) => println!("HOLDS"),
        Err(m) if m.contains("HARNESS") || m.starts_with("bad case") => harness_error(&m),
        Err(m) => {
            println!("FAILS: {m}");
            std::process::exit(1);
        }
    }
}
