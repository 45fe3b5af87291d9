use proofs::vk::{AssumeFailed, CTX};
use std::collections::HashMap;

struct Outcome {
    inputs: Vec<(String, f64)>,
    fails: Vec<proofs::vk::Fail>,
    rejected: bool,
    checks: u64,
}

fn run(f: fn(), seed: u64, replay: Option<HashMap<String, f64>>) -> Outcome {
    CTX.with(|c| {
        let c = &mut *c.borrow_mut();
        c.rng = seed;
        c.replay = replay;
        c.inputs.clear();
        c.fails.clear();
        c.checks = 0;
    });
    let r = std::panic::catch_unwind(f);
    let mut rejected = false;
    let mut extra = None;
    if let Err(e) = r {
        if e.is::<AssumeFailed>() {
            rejected = true;
        } else {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            extra = Some(m);
        }
    }
    CTX.with(|c| {
        let c = &mut *c.borrow_mut();
        let mut fails = std::mem::take(&mut c.fails);
        if let Some(m) = extra {
            fails.push(proofs::vk::Fail { id: format!("panic: {}", m), got: f64::NAN, want: 0.0, tol: 0.0 });
        }
        Outcome { inputs: std::mem::take(&mut c.inputs), fails, rejected, checks: c.checks }
    })
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "'").replace('\n', " ")
}

fn show(o: &Outcome) -> String {
    let i: Vec<String> = o.inputs.iter().map(|(n, v)| format!("[\"{}\",\"{:016x}\",\"{:e}\"]", n, v.to_bits(), v)).collect();
    let f: Vec<String> = o
        .fails
        .iter()
        .map(|x| format!("{{\"id\":\"{}\",\"got\":\"{:e}\",\"want\":\"{:e}\",\"tol\":\"{:e}\"}}", esc(&x.id), x.got, x.want, x.tol))
        .collect();
    format!("{{\"inputs\":[{}],\"fails\":[{}],\"rejected\":{}}}", i.join(","), f.join(","), o.rejected)
}

unsafe extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
static OUT: std::sync::OnceLock<i32> = std::sync::OnceLock::new();
/// what the code under test prints is dropped; results go to the original standard output
fn silence() {
    use std::os::fd::IntoRawFd;
    let n = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap().into_raw_fd();
    unsafe {
        let o = dup(1);
        dup2(n, 1);
        let _ = OUT.set(o);
    }
}
fn say(s: String) {
    use std::io::Write;
    use std::os::fd::FromRawFd;
    let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(*OUT.get().unwrap()) });
    let _ = f.write_all((s + "\n").as_bytes());
}

fn find(name: &str) -> fn() {
    for (m, l) in proofs::registry() {
        for (n, f) in l {
            if format!("{}::{}", m, n) == name {
                return *f;
            }
        }
    }
    eprintln!("no harness {}", name);
    std::process::exit(3);
}

fn main() {
    silence();
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "list" => {
            for (m, l) in proofs::registry() {
                for (n, _) in l {
                    say(format!("{}::{}", m, n));
                }
            }
        }
        "sample" => {
            // sample <harness> <n> <seed> <millis>
            let f = find(&a[2]);
            let n: u64 = a[3].parse().unwrap();
            let seed: u64 = a[4].parse().unwrap();
            let ms: u64 = a[5].parse().unwrap();
            // a run that does not come back is reported by the watchdog
            let (tx, rx) = std::sync::mpsc::channel::<(u64, bool)>();
            let h = std::thread::spawn(move || {
                let t0 = std::time::Instant::now();
                let mut rej = 0u64;
                let mut done = 0u64;
                let mut checks = 0u64;
                let mut found: Vec<String> = vec![];
                let mut ids: std::collections::BTreeSet<String> = Default::default();
                for i in 0..n {
                    if i % 64 == 0 {
                        let _ = tx.send((i, false));
                        if t0.elapsed().as_millis() as u64 > ms {
                            break;
                        }
                    }
                    let o = run(f, seed.wrapping_mul(0x1234567).wrapping_add(i.wrapping_mul(0x9E3779B97F4A7C15)), None);
                    done += 1;
                    checks += o.checks;
                    if o.rejected {
                        rej += 1;
                        continue;
                    }
                    if !o.fails.is_empty() {
                        let mut newid = false;
                        for x in &o.fails {
                            newid |= ids.insert(x.id.clone());
                        }
                        if newid {
                            found.push(show(&o));
                        }
                        if found.len() >= 8 {
                            break;
                        }
                    }
                }
                let _ = tx.send((done, true));
                say(format!("{{\"n\":{},\"rejected\":{},\"checks\":{},\"found\":[{}]}}", done, rej, checks, found.join(",")));
            });
            let mut last = 0;
            loop {
                match rx.recv_timeout(std::time::Duration::from_millis(20000)) {
                    Ok((_, true)) => break,
                    Ok((i, false)) => last = i,
                    Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                        // find the stuck sample: replay them one at a time in a watched thread
                        for i in last..last + 64 {
                            let s = seed.wrapping_mul(0x1234567).wrapping_add(i.wrapping_mul(0x9E3779B97F4A7C15));
                            let shared = std::sync::Arc::new(std::sync::Mutex::new(false));
                            let s2 = shared.clone();
                            std::thread::spawn(move || {
                                run(f, s, None);
                                *s2.lock().unwrap() = true;
                            });
                            std::thread::sleep(std::time::Duration::from_millis(if i == last { 3000 } else { 200 }));
                            if !*shared.lock().unwrap() {
                                std::thread::sleep(std::time::Duration::from_millis(3000));
                            }
                            if !*shared.lock().unwrap() {
                                say(format!("{{\"n\":{},\"rejected\":0,\"checks\":0,\"found\":[{{\"inputs\":[],\"seed\":\"{}\",\"fails\":[{{\"id\":\"hang\",\"got\":\"nan\",\"want\":\"0\",\"tol\":\"0\"}}],\"rejected\":false}}]}}", last, s));
                                std::process::exit(0);
                            }
                        }
                        say(format!("{{\"n\":{},\"rejected\":0,\"checks\":0,\"found\":[]}}", last));
                        std::process::exit(0);
                    }
                    Err(_) => break,
                }
            }
            let _ = h.join();
        }
        "replay" => {
            let f = find(&a[2]);
            let mut m = HashMap::new();
            let mut seed = 1;
            for x in &a[3..] {
                let (n, v) = x.rsplit_once('=').unwrap();
                if n == "seed" {
                    seed = v.parse().unwrap();
                    continue;
                }
                m.insert(n.to_string(), f64::from_bits(u64::from_str_radix(v, 16).unwrap()));
            }
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                let o = run(f, seed, if m.is_empty() { None } else { Some(m) });
                let _ = tx.send(show(&o));
            });
            match rx.recv_timeout(std::time::Duration::from_secs(10)) {
                Ok(s) => say(format!("{}", s)),
                Err(_) => say(format!("{{\"inputs\":[],\"fails\":[{{\"id\":\"hang\",\"got\":\"nan\",\"want\":\"0\",\"tol\":\"0\"}}],\"rejected\":false}}")),
            }
            std::process::exit(0);
        }
        "batch" => {
            // batch <harness>: one replay per stdin line, `name=hexbits ...`
            let f = find(&a[2]);
            let mut text = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
            let lines: Vec<HashMap<String, f64>> = text
                .lines()
                .map(|l| {
                    l.split_whitespace()
                        .map(|x| {
                            let (n, v) = x.rsplit_once('=').unwrap();
                            (n.replace('~', " "), f64::from_bits(u64::from_str_radix(v, 16).unwrap()))
                        })
                        .collect()
                })
                .collect();
            let total = lines.len();
            let (tx, rx) = std::sync::mpsc::channel::<(usize, Option<String>, bool)>();
            std::thread::spawn(move || {
                for (i, m) in lines.into_iter().enumerate() {
                    let o = run(f, 1 + i as u64, Some(m));
                    let _ = tx.send((i, if o.fails.is_empty() || o.rejected { None } else { Some(show(&o)) }, o.rejected));
                }
            });
            let (mut done, mut rej) = (0, 0);
            let mut found = vec![];
            while done < total {
                match rx.recv_timeout(std::time::Duration::from_secs(10)) {
                    Ok((_, s, r)) => {
                        done += 1;
                        rej += r as usize;
                        if let Some(s) = s {
                            if found.len() < 8 {
                                found.push(s);
                            }
                        }
                    }
                    Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                        found.push(format!("{{\"inputs\":[],\"line\":{},\"fails\":[{{\"id\":\"hang\",\"got\":\"nan\",\"want\":\"0\",\"tol\":\"0\"}}],\"rejected\":false}}", done));
                        break;
                    }
                    Err(_) => break,
                }
            }
            say(format!("{{\"n\":{},\"rejected\":{},\"found\":[{}]}}", done, rej, found.join(",")));
            std::process::exit(0);
        }
        _ => std::process::exit(3),
    }
}
