//! Native replay: replay ENTRY PREFIX FILE — runs the harness entry on the values in FILE.
use hnative::sym::imp::{End, ST};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[3]).expect("replay file");
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.only = a[2].clone();
        for l in text.lines() {
            if let Some((k, v)) = l.split_once('=') {
                s.vals.insert(k.trim().into(), v.trim().into());
            }
        }
    });
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| hnative::run(&a[1]));
    let mut end = "finished".to_string();
    if let Err(e) = r {
        match e.downcast_ref::<End>() {
            Some(End::Halt) => end = "reverted".into(),
            Some(End::Mismatch(m)) => end = format!("mismatch: {}", m),
            None => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                end = format!("mismatch: panic outside contract code: {}", m)
            }
        }
    }
    ST.with(|s| {
        let s = s.borrow();
        for l in &s.log {
            println!("{}", l);
        }
        for (k, v) in &s.observed {
            println!("observe {} = {}", k, v);
        }
        for r in &s.reached {
            println!("reach {}", r);
        }
        println!("end {}", end);
        println!("passed {}", s.passed);
        for f in &s.failed {
            println!("FAILED {}", f);
        }
        std::process::exit(if end.starts_with("mismatch") {
            2
        } else if s.failed.is_empty() {
            0
        } else {
            1
        })
    })
}
