mod alloc;
mod arch;
mod comps;
mod res;
mod world;
use std::io::{BufRead, BufReader, Read, Write};
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};
use world::*;

#[global_allocator]
static A: alloc::Strict = alloc::Strict;

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: usize) -> usize { (self.next() >> 20) as usize % n.max(1) }
    fn pick<T: Copy>(&mut self, l: &[T]) -> T { l[self.below(l.len())] }
}
#[derive(Clone)]
enum Hist { World(usize, usize, Vec<Op>), Res(usize, usize, Vec<res::ROp>), Arch(Vec<arch::Case>) }

fn gen_mask(r: &mut Rng, palette: &[u32], c05: bool) -> u32 {
    if c05 && r.below(6) == 0 { let mut m = 0; for _ in 0..1 + r.below(6) { m |= 1 << r.below(comps::NSMALL); } return m; }
    // sets whose columns, with their padding, just fill a page or just do not
    if c05 && r.below(8) == 0 { let mut m = 0; for _ in 0..2 + r.below(3) { m |= 1 << r.pick(&[16, 17, 18, 19, 20, 22, 23, 24, 25, 26, 10, 11, 8, 7]); } if r.below(12) == 0 { m = 1 << 21 | m & 1; } return m; }
    palette[r.below(palette.len())]
}
fn generate(prop: &str, seed: u64) -> Hist {
    let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) | 1);
    for _ in 0..4 { r.next(); }
    if prop == "C12" {
        let mut v = vec![];
        for _ in 0..60 {
            let sub = |r: &mut Rng, max: usize| { let n = r.below(max + 1); let mut l = vec![]; for _ in 0..n { let x = r.below(comps::NC); if !l.contains(&x) { l.push(x) } } l };
            let a = sub(&mut r, 6);
            let b = match r.below(4) { 0 => { let mut b = a.clone(); b.reverse(); b } 1 => { let mut b = a.clone(); b.truncate(1 + r.below(a.len().max(1))); b } _ => sub(&mut r, 6) };
            v.push(arch::Case { b, c: sub(&mut r, 4), ta: r.below(64), tb: r.below(64), a });
        }
        return Hist::Arch(v);
    }
    if prop == "C11" || (prop == "C13" && r.below(3) == 0) {
        let n = r.pick(&[3, 6, 10, 20, 60, 150]);
        let (pc, pr) = (2 + r.below(6), 1 + r.below(4));
        let mut ops = vec![];
        for _ in 0..n {
            let k = r.below(pc + pr + 2);
            ops.push(if k < pc { res::ROp::Create } else if k < pc + pr { res::ROp::Release(r.below(1000)) } else if k == pc + pr { res::ROp::Write(r.below(1000)) } else { res::ROp::Check });
        }
        ops.push(res::ROp::Check);
        return Hist::Res(r.below(4), r.pick(&[0, 1, 2, 3, 4, 8, 33]), ops);
    }
    let cap = r.pick(&[1, 1, 2, 3, 5, 10, 16, 31, 32, 33, 64, 100]);
    // A small palette of component sets makes slots and pages collide and be recycled
    let mut pal: Vec<u32> = vec![];
    let np = if r.below(24) == 0 { 40 + r.below(200) } else { 1 + r.below(7) };
    let big = r.below(3) == 0;
    while pal.len() < np {
        let mut m = 0u32;
        for _ in 0..1 + r.below(4) { let mut c = r.below(comps::NSMALL); if !big && (9..=11).contains(&c) { c = r.below(9) } m |= 1 << c; }
        if fits(m) { pal.push(m) }
    }
    let tup: Vec<usize> = (0..4 + r.below(5)).map(|_| r.below(30)).collect();
    let c05 = prop == "C05";
    let (nt, ng) = (r.pick(&[1, 3, 6, 6, 20]), r.pick(&[1, 2, 4, 4, 10]));
    // weights: bare arch destroy destroyevery add rem write tag+ tag- tagevery oadd oaddall onext oprev orem obad stale check
    let w: [usize; 18] = match prop {
        "C01" => [8, 4, 9, 1, 1, 1, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 2],
        "C02" => [3, 4, 6, 1, 4, 2, 1, 4, 1, 1, 4, 1, 2, 2, 1, 0, 12, 2],
        "C03" | "C04" => [2, 6, 5, 1, 8, 5, 3, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 3],
        "C05" => [1, 8, 5, 1, 6, 4, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2],
        "C06" => [1, 8, 5, 1, 5, 3, 1, 4, 2, 2, 0, 0, 0, 0, 0, 0, 0, 2],
        "C07" => [5, 3, 5, 1, 1, 1, 0, 10, 5, 2, 0, 0, 0, 0, 0, 0, 0, 2],
        "C08" => [5, 2, 3, 1, 1, 1, 0, 1, 0, 0, 8, 1, 6, 6, 4, 2, 0, 2],
        "C09" => [2, 6, 3, 1, 4, 3, 1, 0, 0, 0, 5, 2, 4, 4, 2, 0, 0, 2],
        "C10" => [2, 7, 5, 1, 4, 3, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2],
        _ => [4, 4, 4, 1, 4, 3, 1, 3, 2, 1, 4, 1, 2, 2, 2, 0, 0, 1],
    };
    let total: usize = w.iter().sum();
    let long = np > 7 || r.below(5) == 0;
    let len = if long { 60 + r.below(140) } else { 4 + r.below(40) };
    let burst = r.below(8) == 0;
    let mut ops = vec![];
    for _ in 0..len {
        let mut k = r.below(total);
        let mut i = 0;
        while k >= w[i] { k -= w[i]; i += 1; }
        let h = r.below(5000);
        let n = if burst && r.below(6) == 0 { r.pick(&[20, 33, 33, 70, 70, 130, 130, 300, 300, 600, 1100]) } else { 1 + r.below(3) };
        let t = tup[r.below(tup.len())];
        ops.push(match i {
            0 => Op::Bare(n),
            1 => Op::Arch(gen_mask(&mut r, &pal, c05), n),
            2 => Op::Destroy(h),
            3 => Op::DestroyEvery(r.below(3), 1 + r.below(4)),
            4 => Op::Add(h, t, r.below(100000) as u64),
            5 => Op::Rem(h, t),
            6 => Op::Write(h, r.below(16), r.below(100000) as u64),
            7 => Op::TagAdd(h, r.below(nt)),
            8 => Op::TagRem(h, r.below(nt)),
            9 => Op::TagEvery(r.below(nt), r.below(3), 1 + r.below(3)),
            10 => Op::OAdd(r.below(ng), h),
            11 => Op::OAddAll(r.below(ng)),
            12 => Op::ONext(r.below(ng), h, r.below(50)),
            13 => Op::OPrev(r.below(ng), h, r.below(50)),
            14 => Op::ORem(r.below(ng), h),
            15 => Op::OBad(r.below(ng), r.below(50), r.below(3)),
            16 => Op::Stale(r.below(10), h, r.below(60)),
            _ => Op::Check,
        });
    }
    // a large population now and then: numbers above 2^16 entities, above 2^8 and 2^12 rows in a page, above 2^8 pages
    if seed % 61 == 17 {
        ops.truncate(24);
        let big = match r.below(4) {
            0 => Op::Bare(r.pick(&[33000, 66000, 66000, 70000])),
            1 => Op::Arch(1 << r.pick(&[0, 1, 2, 3]), r.pick(&[5000, 9000, 17000])),
            2 => Op::Arch(1 << r.pick(&[9, 10, 11, 12]), r.pick(&[800, 1500, 5000])),
            _ => Op::Arch(r.pick(&[1 << 3 | 1 << 5, 1 << 13, 1 << 5 | 1 << 8]), r.pick(&[3000, 12000, 40000])),
        };
        let at = r.below(ops.len().min(4) + 1);
        ops.insert(at, big);
        for o in &mut ops { if let Op::DestroyEvery(_, s) = o { *s += 60 } }
        if prop == "C09" && r.below(2) == 0 { ops[at] = Op::Arch(1 << r.pick(&[0, 1, 2, 3]), 66000); ops.truncate(at + 6); }
        if prop == "C08" || prop == "C09" { ops.insert(at + 1, Op::OAddAll(r.below(ng))); }
    }
    if prop == "C06" && seed % 97 == 3 { ops = vec![Op::Arch(1 << 3, 30000), Op::TagAdd(29998, 0), Op::TagAdd(1, 0), Op::Check]; }
    if matches!(prop, "C01" | "C02") && seed % 61 == 7 { let n = r.pick(&[260, 1030, 32800, 65600, 65600, 131100]); ops.insert(ops.len() * 2 / 3, Op::Churn(r.below(5000), n)); ops.insert(0, Op::Bare(1)); }
    // an id that is used more than 2^24 times (executed by the optimised build only)
    if matches!(prop, "C01" | "C02") && seed % 1009 == 7 { ops.truncate(6); ops.push(Op::Bare(2)); ops.push(Op::Churn(r.below(5000), 16_777_600)); }
    ops.push(Op::Check);
    Hist::World(cap, [0xCD, 0xFF, 0x00, 0x01, 0x7F][seed as usize / 3 % 5], ops)
}

/// A few fixed histories aimed at boundaries that random generation reaches slowly.
fn exec(prop: &str, h: &Hist) -> Result<usize, String> {
    let strict = prop == "C13" || prop == "C05";
    alloc::flush();
    alloc::take_problem();
    let before = alloc::LIVE.load(SeqCst);
    alloc::TRACK.store(true, SeqCst);
    let mut n = 0;
    alloc::FRESH.store(0xCD, SeqCst);
    let mut stopped = false;
    let r = (|| -> Result<(), String> {
        match h {
            Hist::Arch(v) => for c in v { n += 1; arch::run(c)? },
            Hist::Res(k, cap, ops) => { n = ops.len(); res::run(*k, *cap, ops, prop == "C11")? }
            Hist::World(cap, fresh, ops) => {
                alloc::FRESH.store(*fresh, SeqCst);
                let mut w = World::new(prop, *cap);
                let r = (|| -> Result<(), String> {
                    for (i, op) in ops.iter().enumerate() {
                        w.step(op).map_err(|m| format!("after operation {} ({}): {}", i, op.show(), m))?;
                        if w.stop { stopped = true; break; }
                        // small histories are checked after every operation
                        if ops.len() <= 12 && w.alive_count() < 30 && *op != Op::Check { w.check().map_err(|m| format!("after operation {} ({}): {}", i, op.show(), m))?; }
                    }
                    Ok(())
                })();
                n = w.effective;
                if stopped { std::mem::forget(w) } else { drop(w) }
                r?
            }
        }
        Ok(())
    })();
    alloc::TRACK.store(false, SeqCst);
    alloc::flush();
    let p = alloc::take_problem();
    let after = alloc::LIVE.load(SeqCst);
    r?;
    if strict && !stopped {
        if let Some(p) = p { return Err(format!("memory: {p}")); }
        if prop == "C13" && after != before { return Err(format!("memory: {} allocation(s) never released", after as i64 - before as i64)); }
    }
    Ok(n)
}
fn exec_caught(prop: &str, h: &Hist) -> Result<usize, String> {
    let (p, h) = (prop.to_string(), h.clone());
    // the stack size Rust gives to a thread (and to a test) by default
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let r = std::panic::catch_unwind(|| exec(&p, &h));
        alloc::TRACK.store(false, SeqCst);
        r.unwrap_or_else(|e| {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into());
            Err(format!("panic: {m}"))
        })
    }).unwrap();
    t.join().unwrap_or(Err("thread died".into()))
}
fn lines(h: &Hist) -> Vec<String> {
    match h { Hist::World(_, _, o) => o.iter().map(|x| x.show()).collect(), Hist::Res(_, _, o) => o.iter().map(|x| x.show()).collect(), Hist::Arch(v) => v.iter().map(|x| x.show()).collect() }
}
fn head(h: &Hist) -> String { match h { Hist::World(c, f, _) => format!("world {c} {f}"), Hist::Res(k, c, _) => format!("resource {k} {c}"), Hist::Arch(_) => "archetypes".into() } }
fn build(head: &str, ls: &[String]) -> Option<Hist> {
    let p: Vec<&str> = head.split_whitespace().collect();
    Some(match p[0] {
        "world" => Hist::World(p[1].parse().ok()?, p.get(2).and_then(|x| x.parse().ok()).unwrap_or(0xCD), ls.iter().filter_map(|l| Op::parse(l)).collect()),
        "resource" => Hist::Res(p[1].parse().ok()?, p[2].parse().ok()?, ls.iter().filter_map(|l| res::ROp::parse(l)).collect()),
        _ => Hist::Arch(ls.iter().filter_map(|l| arch::Case::parse(l)).collect()),
    })
}
fn text(prop: &str, h: &Hist, msg: &str) -> String {
    format!("# failing input for property {prop}; re-run: replay run FILE\n# observed: {}\nproperty {prop}\nhistory {}\n{}\nend\n", msg.replace('\n', " "), head(h), lines(h).join("\n"))
}
fn parse(s: &str) -> Option<(String, Hist)> {
    let mut prop = None;
    let mut hd = None;
    let mut ls = vec![];
    for l in s.lines() {
        if l.starts_with('#') || l.trim().is_empty() { continue; }
        if let Some(p) = l.strip_prefix("property ") { prop = Some(p.trim().to_string()); } else if let Some(h) = l.strip_prefix("history ") { hd = Some(h.to_string()); } else if l == "end" { break; } else if hd.is_some() { ls.push(l.to_string()); }
    }
    Some((prop?, build(&hd?, &ls)?))
}
/// The build of this program that showed the failure: histories are tried on a checked and on an optimised build.
static EXE: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
fn exe() -> std::path::PathBuf { EXE.lock().unwrap().clone().map(Into::into).unwrap_or(std::env::current_exe().unwrap()) }
/// Runs one history in a child process, so that an abort or a hang is an observation too.
fn run_child(prop: &str, h: &Hist, t: Duration) -> Result<(), String> {
    let mut c = std::process::Command::new(exe()).arg("child").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn().unwrap();
    c.stdin.take().unwrap().write_all(text(prop, h, "").as_bytes()).unwrap();
    let start = Instant::now();
    let st = loop {
        if let Some(s) = c.try_wait().unwrap() { break s; }
        if start.elapsed() > t { let _ = c.kill(); let _ = c.wait(); return Err("no answer (endless loop?)".into()); }
        std::thread::sleep(Duration::from_millis(2));
    };
    let mut o = String::new();
    let _ = c.stdout.take().unwrap().read_to_string(&mut o);
    let mut e = String::new();
    let _ = c.stderr.take().unwrap().read_to_string(&mut e);
    match st.code() { Some(0) => Ok(()), Some(1) => Err(o.trim().to_string()), _ => Err(format!("process ended abnormally: {}", e.lines().find(|l| !l.trim().is_empty()).unwrap_or("signal"))) }
}
fn shrink(prop: &str, h: &Hist, budget: Duration) -> (Hist, String) {
    let start = Instant::now();
    let t = Duration::from_secs(5);
    let mut best = h.clone();
    let mut msg = match run_child(prop, h, Duration::from_secs(20)) { Err(m) => m, Ok(()) => return (best, String::new()) };
    let hd = head(h);
    let mut ls = lines(h);
    let mut chunk = ls.len().div_ceil(2);
    while chunk >= 1 && start.elapsed() < budget {
        let mut i = 0;
        let mut cut = false;
        while i < ls.len() && start.elapsed() < budget {
            let mut c = ls.clone();
            c.drain(i..(i + chunk).min(c.len()));
            let b = build(&hd, &c).unwrap();
            if let Err(m) = run_child(prop, &b, t) { ls = c; best = b; msg = m; cut = true; } else { i += chunk; }
        }
        if chunk == 1 { if !cut { break; } } else { chunk = chunk.div_ceil(2); }
    }
    (best, msg)
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("child") => {
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            std::panic::set_hook(Box::new(|_| {}));
            let (p, h) = parse(&s).expect("history");
            match exec_caught(&p, &h) { Ok(_) => {} Err(m) => { println!("{m}"); std::process::exit(1) } }
        }
        Some("worker") => { // worker PROP START COUNT
            std::panic::set_hook(Box::new(|_| {}));
            let (s, n): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let out = std::io::stdout();
            for seed in s..s + n {
                let _ = writeln!(out.lock(), "S {seed}");
                let _ = out.lock().flush();
                let h = generate(&a[2], seed);
                match exec_caught(&a[2], &h) { Ok(k) => { let _ = writeln!(out.lock(), "N {k}"); } Err(m) => { let _ = writeln!(out.lock(), "F {seed} {}", m.replace('\n', " ")); std::process::exit(1) } }
            }
        }
        Some("run") => {
            let s = std::fs::read_to_string(&a[2]).unwrap();
            let (p, h) = parse(&s).expect("no history in the file");
            match run_child(&p, &h, Duration::from_secs(60)) { Ok(()) => println!("property {p}: holds on this input"), Err(m) => { println!("property {p}: VIOLATED: {m}"); std::process::exit(1) } }
        }
        Some("search") => { // search PROP SEED SECONDS OUT [MAXHIST]
            let (prop, seed, secs, out) = (&a[2], a[3].parse::<u64>().unwrap(), a[4].parse::<f64>().unwrap(), &a[5]);
            let maxh: u64 = a.get(6).map_or(u64::MAX, |x| x.parse().unwrap());
            let start = Instant::now();
            let nthreads = std::thread::available_parallelism().map_or(4, |x| x.get()).min(8) as u64;
            let next = std::sync::atomic::AtomicU64::new(0);
            let (hist, opsn) = (std::sync::atomic::AtomicU64::new(0), std::sync::atomic::AtomicU64::new(0));
            let found = std::sync::Mutex::new(None::<(u64, String, Option<String>)>);
            let alt = std::env::var("REPLAY_ALT").ok().filter(|p| std::path::Path::new(p).exists());
            std::thread::scope(|sc| for _ in 0..nthreads { sc.spawn(|| loop {
                if start.elapsed().as_secs_f64() > secs || found.lock().unwrap().is_some() { break; }
                let chunk = next.fetch_add(1, SeqCst);
                if chunk * 50 >= maxh { break; }
                let base = seed.wrapping_mul(1_000_000_007) % (1 << 40) + chunk * 50;
                let mine = if chunk % 3 == 2 { alt.clone() } else { None };
                let mut c = std::process::Command::new(mine.clone().map(Into::into).unwrap_or(std::env::current_exe().unwrap())).args(["worker", prop, &base.to_string(), "50"]).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap();
                let o = c.stdout.take().unwrap();
                let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
                let d2 = done.clone();
                let last = std::sync::Arc::new(std::sync::Mutex::new((base, Instant::now())));
                let l2 = last.clone();
                let rd = std::thread::spawn(move || {
                    let (mut n, mut k, mut fail) = (0u64, 0u64, None);
                    for l in BufReader::new(o).lines().map_while(Result::ok) {
                        if let Some(s) = l.strip_prefix("S ") { *l2.lock().unwrap() = (s.parse().unwrap(), Instant::now()); }
                        if let Some(s) = l.strip_prefix("N ") { n += 1; k += s.parse::<u64>().unwrap_or(0); }
                        if let Some(s) = l.strip_prefix("F ") { fail = s.split_once(' ').map(|(a, b)| (a.parse::<u64>().unwrap(), b.to_string())); }
                    }
                    d2.store(true, SeqCst);
                    (n, k, fail)
                });
                let st = loop {
                    if let Some(s) = c.try_wait().unwrap() { break Some(s); }
                    if last.lock().unwrap().1.elapsed() > Duration::from_secs(40) { let _ = c.kill(); let _ = c.wait(); break None; }
                    if start.elapsed().as_secs_f64() > secs + 45.0 { let _ = c.kill(); let _ = c.wait(); return; }
                    std::thread::sleep(Duration::from_millis(3));
                };
                let (n, k, fail) = rd.join().unwrap();
                hist.fetch_add(n, SeqCst);
                opsn.fetch_add(k, SeqCst);
                let bad = match (st, fail) {
                    (_, Some(f)) => Some(f),
                    (None, None) => Some((last.lock().unwrap().0, "no answer (endless loop?)".to_string())),
                    (Some(s), None) if !s.success() => Some((last.lock().unwrap().0, format!("process ended abnormally ({s})"))),
                    _ => None,
                };
                if let Some(b) = bad { let mut f = found.lock().unwrap(); if f.is_none() { *f = Some((b.0, b.1, mine)); } }
            }); });
            println!("histories={} operations={} seconds={:.1}", hist.load(SeqCst), opsn.load(SeqCst), start.elapsed().as_secs_f64());
            let found = found.lock().unwrap().take();
            if let Some((s, m, e)) = found {
                *EXE.lock().unwrap() = e.clone();
                let h = generate(prop, s);
                let (h, msg) = shrink(prop, &h, Duration::from_secs(20));
                let msg = if msg.is_empty() { m } else { msg };
                let note = if e.is_some() { "# seen in the optimised build: run with target/replay-opt/release/replay\n" } else { "" };
                std::fs::write(out, note.to_string() + &text(prop, &h, &msg)).unwrap();
                println!("FOUND {msg}");
                std::process::exit(1);
            }
        }
        _ => { eprintln!("usage: replay search PROP SEED SECONDS OUT [MAXHIST] | run FILE"); std::process::exit(2) }
    }
}
