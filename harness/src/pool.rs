//! A pool of worker processes with a watchdog.
use crate::{family, make_case, merge};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::{Receiver, RecvTimeoutError, channel};
use std::sync::{Arc, Mutex};
use std::time::Duration;

struct W {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}

fn spawn(fam: &str, seed: u64, tier: &str) -> W {
    let me = std::env::current_exe().unwrap();
    // bounded address space: a runaway allocation ends the worker, not the machine
    let mut child = Command::new("/bin/sh")
        .arg("-c")
        .arg("ulimit -v 3500000; ulimit -c 0; exec \"$0\" worker \"$1\" \"$2\" \"$3\"")
        .arg(me)
        .arg(fam)
        .arg(seed.to_string())
        .arg(tier)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let stdin = child.stdin.take().unwrap();
    let out = child.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            match l {
                Ok(l) => {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
                Err(_) => break,
            }
        }
    });
    W { child, stdin, rx }
}

pub fn run(fam: &str, seed: u64, tier: &str, count: u64, cases: Option<Vec<Value>>, out: &str) {
    let f = family(fam);
    let given: Option<u64> = std::env::var("CASE_TIMEOUT").ok().and_then(|s| s.parse().ok());
    let timeout = given.unwrap_or(45);
    // slow code is not wrong code: the large cases stop being handed out after a while
    let large = ["_far", "_big", "_long"].iter().any(|x| fam.ends_with(x)) && tier == "quick" && cases.is_none();
    let start = std::time::Instant::now();
    let max_abnormal: u64 = std::env::var("MAX_ABNORMAL").ok().and_then(|s| s.parse().ok()).unwrap_or(3);
    let next = Arc::new(AtomicU64::new(0));
    let abnormal = Arc::new(AtomicU64::new(0));
    let results: Arc<Mutex<BTreeMap<u64, String>>> = Arc::default();
    let cases = Arc::new(cases);
    let threads: Vec<_> = (0..8)
        .map(|_| {
            let (next, abnormal, results, cases) = (next.clone(), abnormal.clone(), results.clone(), cases.clone());
            let (fam, tier) = (fam.to_string(), tier.to_string());
            std::thread::spawn(move || {
                let mut w = spawn(&fam, seed, &tier);
                loop {
                    if abnormal.load(Ordering::SeqCst) >= max_abnormal || large && start.elapsed().as_secs() > 100 {
                        break;
                    }
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= count {
                        break;
                    }
                    let msg = match &*cases {
                        Some(c) => format!("{}\n", c[k as usize]),
                        None => format!("k {k}\n"),
                    };
                    let sent = w.stdin.write_all(msg.as_bytes()).and_then(|_| w.stdin.flush());
                    let got = if sent.is_ok() {
                        w.rx.recv_timeout(Duration::from_secs(timeout))
                    } else {
                        Err(RecvTimeoutError::Disconnected)
                    };
                    let line = match got {
                        Ok(l) => l,
                        Err(e) => {
                            abnormal.fetch_add(1, Ordering::SeqCst);
                            let _ = w.child.kill();
                            let st = w.child.wait();
                            let case = match &*cases {
                                Some(c) => c[k as usize].clone(),
                                None => make_case(f, seed, &tier, k),
                            };
                            let o = match e {
                                RecvTimeoutError::Timeout => json!({"outcome": "hang", "detail": format!("no answer within {timeout} s")}),
                                RecvTimeoutError::Disconnected => json!({"outcome": "crash", "detail": format!("{st:?}")}),
                            };
                            w = spawn(&fam, seed, &tier);
                            merge(&case, o).to_string()
                        }
                    };
                    results.lock().unwrap().insert(k, line);
                }
                let _ = w.child.kill();
                let _ = w.child.wait();
            })
        })
        .collect();
    for t in threads {
        t.join().unwrap();
    }
    // a case without an answer gets a second, longer chance by itself
    if given.is_none() {
        let mut r = results.lock().unwrap();
        let again: Vec<(u64, Value)> = r
            .iter()
            .filter_map(|(k, l)| Some((*k, serde_json::from_str::<Value>(l).ok()?)))
            .filter(|(_, v)| v["outcome"] == "hang")
            .collect();
        let hs: Vec<_> = again
            .into_iter()
            .map(|(k, mut case)| {
                let (fam, tier) = (fam.to_string(), tier.to_string());
                std::thread::spawn(move || {
                    let c = case.as_object_mut().unwrap();
                    c.remove("outcome");
                    c.remove("detail");
                    let mut w = spawn(&fam, seed, &tier);
                    let _ = w.stdin.write_all(format!("{case}\n").as_bytes()).and_then(|_| w.stdin.flush());
                    let got = w.rx.recv_timeout(Duration::from_secs(120)).ok();
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                    (k, got)
                })
            })
            .collect();
        for h in hs {
            if let (k, Some(l)) = h.join().unwrap() {
                r.insert(k, l);
            }
        }
    }
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for l in results.lock().unwrap().values() {
        writeln!(o, "{l}").unwrap();
    }
}
