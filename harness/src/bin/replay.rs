//! Native replay: lines `entry|p,p,..|v,v,..` on stdin; one result line each:
//! `ok obs..` | `assert id` | `panic message@location` | `expected-panic` | `infeasible`.
use std::io::BufRead;
use std::panic;
use std::cell::RefCell;
use vh::rt::imp::{AssertFailed, Infeasible, Run, RUN};
fn nums(s: &str) -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() }
thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }
fn main() {
    panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".to_string() };
        let l = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        LAST.with(|g| *g.borrow_mut() = format!("{} @ {}", m.replace('\n', " "), l));
    }));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split('|').collect();
        if p.len() < 3 { continue; }
        let f = match vh::tables().iter().flat_map(|t| t.iter()).find(|e| e.0 == p[0]) { Some(e) => e.1, None => { println!("noentry"); continue; } };
        let (params, inputs) = (nums(p[1]), nums(p[2]));
        // a fresh thread per replay, as thread-local and lazily initialised state is fresh in the symbolic run
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            RUN.with(|r| *r.borrow_mut() = Run { inputs, params, ..Run::default() });
            let res = panic::catch_unwind(f);
            let run = RUN.with(|r| std::mem::take(&mut *r.borrow_mut()));
            match res {
                Ok(()) => format!("ok {}", run.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")),
                Err(e) => {
                    if e.is::<Infeasible>() { "infeasible".to_string() }
                    else if e.is::<AssertFailed>() { format!("assert {}", run.failed.last().unwrap()) }
                    else if run.expect_panic { "expected-panic".to_string() }
                    else { format!("panic {}", LAST.with(|g| g.borrow().clone())) }
                }
            }
        }).unwrap();
        println!("{}", h.join().unwrap_or_else(|_| "panic in replay".to_string()));
    }
}
