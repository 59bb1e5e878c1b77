//! Shared by the conformance harnesses: a small JSON value, the event log, wakers whose
//! wakes/clones are recorded, and the scenario loop (one fresh thread per scenario,
//! panics recorded as events, hangs cut off).
pub mod json;
pub mod waker;
pub use json::J;
use std::cell::RefCell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::Duration;

const LIMIT: usize = 60_000;
pub type Events = Arc<Mutex<Vec<J>>>;

thread_local! {
    static LOG: RefCell<Option<Events>> = const { RefCell::new(None) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Append one event to the current scenario's trace.
pub fn log(ev: J) {
    LOG.with(|l| {
        if let Some(l) = l.borrow().as_ref() {
            let mut l = l.lock().unwrap_or_else(|e| e.into_inner());
            // a scenario that does not come to an end ends here (as a hang, if panicking does not stop it)
            if l.len() == LIMIT {
                l.push(J::obj([("op", J::s("flood"))]));
            }
            if l.len() > LIMIT {
                drop(l);
                panic!("too many events");
            }
            l.push(ev);
        }
    });
}
pub fn log_len() -> usize {
    LOG.with(|l| l.borrow().as_ref().map(|l| l.lock().unwrap_or_else(|e| e.into_inner()).len()).unwrap_or(0))
}
/// Remove and return all events logged at or after position `from` (to nest them in one record).
pub fn take_from(from: usize) -> Vec<J> {
    LOG.with(|l| {
        l.borrow()
            .as_ref()
            .map(|l| l.lock().unwrap_or_else(|e| e.into_inner()).split_off(from))
            .unwrap_or_default()
    })
}

pub fn last_panic() -> String {
    PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_else(|| "?".into())
}

/// Run `f`; if it panics return Err(message).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit('/').take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/"), l.line()))
            .unwrap_or_default();
        let m = format!("{msg} @ {loc}");
        if std::env::var_os("VHARNESS_VERBOSE").is_some() {
            eprintln!("PANIC {m}");
        }
        let _ = PANIC_MSG.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                if p.is_none() {
                    *p = Some(m);
                }
            }
        });
    }));
}

/// State and CPU time (in ticks of 10 ms) of the thread `who` (as in /proc/thread-self).
fn usage(who: &std::path::Path) -> Option<(String, u64)> {
    let s = std::fs::read_to_string(std::path::Path::new("/proc").join(who).join("stat")).ok()?;
    let f: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect();
    Some((f.first()?.to_string(), f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?))
}

/// Wait for the scenario to end. It hangs if it has used the CPU for `limit` seconds, or is blocked
/// (not merely waiting for its turn on a busy machine) after that time.
fn wait(rx: &mpsc::Receiver<()>, limit: u64, who: Option<std::path::PathBuf>) -> Result<(), mpsc::RecvTimeoutError> {
    let mut res = rx.recv_timeout(Duration::from_secs(limit));
    let mut blocked = 0;
    let mut last = 0;
    for _ in 0..limit * 12 {
        if !matches!(res, Err(mpsc::RecvTimeoutError::Timeout)) {
            return res;
        }
        match who.as_deref().and_then(usage) {
            Some((state, cpu)) => {
                blocked = if state == "S" && cpu == last { blocked + 1 } else { 0 };
                last = cpu;
                if cpu >= limit * 100 || blocked >= 3 {
                    return res;
                }
            }
            None => return res,
        }
        res = rx.recv_timeout(Duration::from_secs(1));
    }
    res
}

/// usage: <bin> SCENARIOS.jsonl OUT.jsonl [START]
/// `f` executes one scenario, logging events. Every scenario has an "id".
pub fn run_main(f: fn(&J)) {
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).expect("scenario file");
    let start: usize = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
    let mut out = std::io::BufWriter::new(
        std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).expect("out file"),
    );
    install_panic_hook();
    let mut hangs = 0;
    for (i, line) in text.lines().enumerate().skip(start) {
        if line.trim().is_empty() {
            continue;
        }
        let sc = J::parse(line).expect("scenario json");
        let id = sc.get("id").clone();
        let events: Events = Arc::new(Mutex::new(Vec::new()));
        let ev2 = events.clone();
        let (tx, rx) = mpsc::channel();
        let (tx_who, rx_who) = mpsc::channel();
        std::fs::write(format!("{}.at", args[2]), i.to_string()).ok();
        let handle = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let _ = tx_who.send(std::fs::read_link("/proc/thread-self").ok());
                LOG.with(|l| *l.borrow_mut() = Some(ev2));
                if let Err(msg) = guarded(|| f(&sc)) {
                    // a panic outside of a guarded operation (f normally guards each one)
                    log(J::obj([("op", J::s("panic")), ("during", J::s("scenario")), ("msg", J::s(&msg))]));
                }
                let _ = tx.send(());
            })
            .expect("spawn");
        let limit = std::env::var("VHARNESS_TIMEOUT").ok().and_then(|s| s.parse().ok()).unwrap_or(10);
        let mut hung = false;
        match wait(&rx, limit, rx_who.recv().ok().flatten()) {
            Ok(()) => {
                // thread-local destructors run code under test too; a panic there aborts (seen by the runner)
                let _ = handle.join();
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => {
                let _ = handle.join();
                events.lock().unwrap_or_else(|e| e.into_inner()).push(J::obj([("op", J::s("panic")), ("msg", J::s("thread died"))]));
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {
                hung = true;
                events.lock().unwrap_or_else(|e| e.into_inner()).push(J::obj([("op", J::s("hang"))]));
            }
        }
        let evs = std::mem::take(&mut *events.lock().unwrap_or_else(|e| e.into_inner()));
        let tr = J::obj([("id", id), ("ev", J::Arr(evs))]);
        writeln!(out, "{}", tr.to_string()).unwrap();
        if hung {
            out.flush().unwrap();
            hangs += 1;
            if hangs >= 2 {
                std::process::exit(3);
            }
        }
        if i % 64 == 0 {
            out.flush().unwrap();
        }
    }
    out.flush().unwrap();
    // skip destructors of leaked/hung threads
    std::process::exit(0);
}

/// Run one operation of a scenario. `body` returns the fields of its event; a panic becomes
/// an event of kind "panic" and ends the scenario (returns false).
pub fn step(op: &str, body: impl FnOnce() -> Vec<(&'static str, J)>) -> bool {
    match guarded(body) {
        Ok(fields) => {
            let mut v = vec![("op".to_string(), J::s(op))];
            v.extend(fields.into_iter().map(|(k, x)| (k.to_string(), x)));
            log(J::Obj(v));
            true
        }
        Err(msg) => {
            log(J::obj([("op", J::s("panic")), ("during", J::s(op)), ("msg", J::s(&msg))]));
            false
        }
    }
}
