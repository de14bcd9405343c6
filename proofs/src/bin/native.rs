//! Native side of the contract harnesses.
//!   native run <seed> <millis-per-harness> [kani|bounded|all]
//!   native replay <harness> <hex,hex,...>
//! Prints one JSON line per harness.
#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    use hexo_proofs::sym;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::sync::{Arc, Mutex};
    use std::time::{Duration, Instant};

    fn hex(v: &[Vec<u8>]) -> String {
        v.iter()
            .map(|b| b.iter().map(|x| format!("{:02x}", x)).collect::<String>())
            .collect::<Vec<_>>()
            .join(",")
    }
    fn esc(s: &str) -> String {
        let mut o = String::new();
        for c in s.chars() {
            match c {
                '"' => o += "\\\"",
                '\\' => o += "\\\\",
                '\n' => o += "\\n",
                c if (c as u32) < 32 => o += " ",
                c => o.push(c),
            }
        }
        o
    }
    thread_local! { static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<sym::Rejected>() {
            return;
        }
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|x| *x.borrow_mut() = format!("{} at {}", m, l));
    }));

    #[derive(PartialEq)]
    enum R {
        Ok,
        Rej,
        Fail(String),
    }
    fn once(f: fn()) -> R {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(()) => R::Ok,
            Err(e) if e.is::<sym::Rejected>() => R::Rej,
            Err(_) => R::Fail(LAST.with(|x| x.borrow().clone())),
        }
    }

    let a: Vec<String> = std::env::args().collect();
    let table = hexo_proofs::table();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for (p, n, k, i, _) in table {
                println!("{{\"property\":\"{}\",\"harness\":\"{}\",\"kind\":\"{}\",\"iters\":{}}}", p, n, k, i);
            }
        }
        Some("run") => {
            let seed: u64 = a[2].parse().unwrap();
            let ms: u64 = a[3].parse().unwrap();
            let kind = a.get(4).map(|s| s.as_str()).unwrap_or("all").to_string();
            let mult: usize = a.get(5).map(|s| s.parse().unwrap()).unwrap_or(1);
            let trace = std::env::var("NATIVE_TRACE").ok();
            // a bounded harness is split into shards: most of its time is spent waiting
            // for the helper threads of the engine to end
            let shards = |iters: usize| if iters > 0 { 128usize } else { 1 };
            struct Acc {
                left: usize,
                ran: usize,
                rej: usize,
                ms: u128,
                fail: Option<(u64, String, String)>,
            }
            let mut work = vec![];
            let acc: Arc<Mutex<Vec<Acc>>> = Arc::new(Mutex::new(vec![]));
            for (i, t) in table.iter().enumerate() {
                let on = kind == "all" || t.2 == kind || t.1 == kind;
                let n = if on { shards(t.3) } else { 0 };
                acc.lock().unwrap().push(Acc { left: n, ran: 0, rej: 0, ms: 0, fail: None });
                for k in 0..n {
                    work.push((i, k, n));
                }
            }
            work.reverse();
            let q = Arc::new(Mutex::new(work));
            let table = Arc::new(table);
            let mut th = vec![];
            let threads = std::env::var("NATIVE_THREADS").ok().and_then(|t| t.parse().ok()).unwrap_or(80usize);
            for tn in 0..threads {
                let (q, acc, table, trace) = (q.clone(), acc.clone(), table.clone(), trace.clone());
                th.push(
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn(move || loop {
                            let t = q.lock().unwrap().pop();
                            let (ti, shard, nsh) = match t {
                                Some(t) => t,
                                None => return,
                            };
                            let (p, n, k, iters, f) = table[ti];
                            let start = Instant::now();
                            let (mut ran, mut rej) = (0usize, 0usize);
                            let mut s = shard as u64;
                            let todo = (iters * mult + nsh - 1 - shard) / nsh;
                            let mut fail = None;
                            loop {
                                if iters > 0 {
                                    // fixed budget: deterministic number of cases
                                    if ran >= todo || rej > 50 * todo + 1000 {
                                        break;
                                    }
                                    if acc.lock().unwrap()[ti].fail.is_some() {
                                        break;
                                    }
                                } else if start.elapsed() > Duration::from_millis(ms) {
                                    break;
                                }
                                s += nsh as u64;
                                let sd = seed.wrapping_mul(1_000_003).wrapping_add(s);
                                if let Some(p) = &trace {
                                    let _ = std::fs::write(format!("{}.{}", p, tn), format!("{}", sd));
                                }
                                sym::seed(sd);
                                match once(f) {
                                    R::Ok => ran += 1,
                                    R::Rej => rej += 1,
                                    R::Fail(m) => {
                                        fail = Some((sd, m, hex(&sym::log())));
                                        ran += 1;
                                        break;
                                    }
                                }
                            }
                            if let Some(p) = &trace {
                                let _ = std::fs::remove_file(format!("{}.{}", p, tn));
                            }
                            let mut l = acc.lock().unwrap();
                            let a = &mut l[ti];
                            a.left -= 1;
                            a.ran += ran;
                            a.rej += rej;
                            a.ms = a.ms.max(start.elapsed().as_millis());
                            if let Some(x) = fail {
                                if a.fail.as_ref().map(|y| x.0 < y.0).unwrap_or(true) {
                                    a.fail = Some(x);
                                }
                            }
                            if a.left == 0 {
                                let (st, m, inp) = match &a.fail {
                                    Some((_, m, i)) => ("FAIL", m.clone(), i.clone()),
                                    None => ("OK", String::new(), String::new()),
                                };
                                println!("{{\"property\":\"{}\",\"harness\":\"{}\",\"kind\":\"{}\",\"status\":\"{}\",\"ran\":{},\"rejected\":{},\"ms\":{},\"message\":\"{}\",\"input\":\"{}\"}}",
                                    p, n, k, st, a.ran, a.rej, a.ms, esc(&m), inp);
                            }
                        })
                        .unwrap(),
                );
            }
            for t in th {
                let _ = t.join();
            }
        }
        Some("replay") => {
            let name = a[2].clone();
            let seed: Option<u64> =
                a.get(3).and_then(|s| s.strip_prefix("seed:")).and_then(|s| s.parse().ok());
            let vals: Vec<Vec<u8>> = a
                .get(3)
                .map(|s| s.as_str())
                .unwrap_or("")
                .split(',')
                .filter(|s| !s.is_empty() && !s.starts_with("seed"))
                .map(|h| {
                    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
                })
                .collect();
            let f = table.iter().find(|t| t.1 == name).map(|t| t.4);
            let f = match f {
                Some(f) => f,
                None => {
                    println!("{{\"harness\":\"{}\",\"status\":\"UNKNOWN\"}}", name);
                    return;
                }
            };
            let h = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    match seed {
                        Some(s) => sym::seed(s),
                        None => sym::replay(vals),
                    }
                    once(f)
                })
                .unwrap();
            let r = h.join().unwrap();
            let (st, m) = match r {
                R::Ok => ("OK", String::new()),
                R::Rej => ("REJECTED", String::new()),
                R::Fail(m) => ("FAIL", m),
            };
            println!("{{\"harness\":\"{}\",\"status\":\"{}\",\"message\":\"{}\"}}", name, st, esc(&m));
            if st == "FAIL" {
                std::process::exit(1);
            }
        }
        _ => std::process::exit(2),
    }
}
