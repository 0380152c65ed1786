//! The other string configurations, one process each (C15).
use crate::adapter::Mqtt;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use vcore::codec::Codec;
use vcore::props::c15::{Peers, Req, Resp};
use vcore::run::Failure;

pub fn harness_error(m: &str) -> ! {
    eprintln!("HARNESS-ERROR {m}");
    std::process::exit(3)
}

pub fn failure_json(id: &str, f: &Failure) -> Value {
    json!({
        "property": id, "config": Mqtt.name(), "part": f.part,
        "message": f.message, "shown": f.shown, "case": f.case,
    })
}

pub struct Peer {
    name: String,
    text: bool,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
    child: Child,
}
impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
pub struct Others(RefCell<Vec<Peer>>);
impl Others {
    pub fn start(paths: &str) -> Others {
        Others(RefCell::new(
            paths
                .split(',')
                .filter(|p| !p.is_empty())
                .map(|p| {
                    let mut child = Command::new(p)
                        .arg("serve")
                        .stdin(Stdio::piped())
                        .stdout(Stdio::piped())
                        .spawn()
                        .unwrap_or_else(|e| harness_error(&format!("cannot start {p}: {e}")));
                    let stdin = child.stdin.take().unwrap();
                    let mut stdout = BufReader::new(child.stdout.take().unwrap());
                    let mut hello = String::new();
                    let _ = stdout.read_line(&mut hello);
                    let (name, text) = serde_json::from_str(&hello)
                        .unwrap_or_else(|e| harness_error(&format!("{p} does not answer: {e}")));
                    Peer {
                        name,
                        text,
                        stdin,
                        stdout,
                        child,
                    }
                })
                .collect(),
        ))
    }
}
impl Peers for Others {
    fn ask(&self, r: &Req) -> Vec<(String, bool, Resp)> {
        let line = serde_json::to_string(r).unwrap() + "\n";
        let mut peers = self.0.borrow_mut();
        for p in peers.iter_mut() {
            let _ = p.stdin.write_all(line.as_bytes());
            let _ = p.stdin.flush();
        }
        peers
            .iter_mut()
            .map(|p| {
                let mut s = String::new();
                let _ = p.stdout.read_line(&mut s);
                let resp = serde_json::from_str(&s)
                    .unwrap_or_else(|_| Resp::Panic("the process ended".into()));
                (p.name.clone(), p.text, resp)
            })
            .collect()
    }
}
