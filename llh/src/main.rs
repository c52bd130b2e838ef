#![allow(dead_code)]
mod sx;
mod h_keep;
mod h_leaf;
mod h_read;
mod h_split;
mod h_tagged;
mod h_tape;
mod h_text;
use sx::*;

#[no_mangle] #[inline(never)]
pub fn sx_entry(case: u32, twin: u32) {
    set_twin(twin != 0);
    let k = case % 100000;
    match case / 100000 {
        7 => h_leaf::c07(k),
        8 => h_leaf::c08(k),
        11 => h_tape::run(k),
        12 => h_split::run(k),
        15 => h_tagged::run(k),
        17 => h_read::run(k),
        18 => h_text::c18(k),
        19 => h_text::c19(k),
        23 => h_keep::run(k),
        _ => panic!("case"),
    }
}

fn list(prop: &str, tier: &str) -> Vec<(u32, String)> {
    let mut v = vec![];
    match prop {
        "C07" | "C08" => h_leaf::list(prop, &mut v),
        "C11" => h_tape::list(tier, &mut v),
        "C12" => h_split::list(tier, &mut v),
        "C15" => h_tagged::list(tier, &mut v),
        "C18" | "C19" => h_text::list(prop, tier, &mut v),
        "C23" => h_keep::list(tier, &mut v),
        "C17" => h_read::list(tier, &mut v),
        _ => {}
    }
    v
}
fn one(case: u32, twin: u32, vals: &str) -> String {
    let v: Vec<u64> = vals.split(',').filter_map(|x| x.parse().ok()).collect();
    N.with(|n| *n.borrow_mut() = Native { vals: v, ..Native::default() });
    let r = std::panic::catch_unwind(|| sx_entry(case, twin));
    N.with(|n| {
        let n = n.borrow();
        match (r, &n.special) {
            (_, Some(s)) => s.clone(),
            (Ok(()), _) => format!("ok {}", if n.trace.is_empty() { "-".into() } else { n.trace.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }),
            (Err(e), _) => format!("violated: panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        }
    })
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => for (n, t) in list(&a[2], &a[3]) { println!("{} {}", n, t); },
        Some("batch") => {
            std::panic::set_hook(Box::new(|_| {}));
            let mut out = String::new();
            for l in std::fs::read_to_string(&a[2]).unwrap().lines() { let (c, v) = l.split_once(' ').unwrap(); out.push_str(&one(c.parse().unwrap(), 0, v)); out.push('\n'); }
            print!("{}", out);
        }
        Some("native") => {
            let r = one(a[2].parse().unwrap(), 0, &a[3]);
            println!("RESULT: {}", r);
            std::process::exit(if r.starts_with("violated") { 3 } else { 0 });
        }
        _ => std::process::exit(2),
    }
}
