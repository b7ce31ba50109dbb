//! Runs the crate against the model: exhaustively where that is possible, otherwise on random
//! inputs, and replays inputs that failed.
//!
//! vnative PROPERTY SEED SECONDS SCRATCH SYSTEM-LEAP-FILE DICTIONARY REPORT [REPLAY-FILE]
mod rng;
#[macro_use]
mod model;
#[cfg(momentous_verify)]
mod cal;
#[cfg(momentous_verify)]
mod cursor;
mod dt;
mod time;
mod zone;

use model::Table;
use momentous::iso8601::{load_chronology, Chronology};
use rng::Rng;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Args = [i128; 12];
pub type Res = Result<(), String>;
pub type Exhaustive = fn(&Env, u64, u64) -> Result<u64, (Args, String)>;

#[macro_export]
macro_rules! fail { ($($x:tt)*) => { return Err(format!($($x)*)) } }
#[macro_export]
macro_rules! ck { ($c:expr, $($x:tt)*) => { if !$c { return Err(format!($($x)*)) } } }

#[derive(Clone, Copy)]
pub struct Op {
    pub name: &'static str,
    pub args: &'static [&'static str],
    pub gen: fn(&mut Rng, &Env) -> Args,
    pub run: fn(&Args, &Env) -> Res,
}

pub struct Env {
    pub tables: Vec<(Table, Chronology)>,
    pub dict: Vec<i128>,
    /// the table that is installed
    pub cur: usize,
}

impl Env {
    pub fn some_table(&self, r: &mut Rng) -> usize {
        if r.chance(3) {
            0
        } else {
            r.below(self.tables.len() as u64) as usize
        }
    }
}

pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(|| drop(f()))).is_err()
}

/// panics in the harness itself
static HARNESS: AtomicU64 = AtomicU64::new(0);
thread_local! {
    /// where this thread last panicked
    static WHERE: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn guarded(run: &dyn Fn(&Args, &Env) -> Res, a: &Args, env: &Env) -> Res {
    catch_unwind(AssertUnwindSafe(|| run(a, env))).unwrap_or_else(|e| {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
        let at = WHERE.with(|w| w.borrow().clone());
        if at.starts_with("src/") {
            // this harness is wrong, not the crate
            HARNESS.fetch_add(1, Ordering::SeqCst);
            return Ok(());
        }
        Err(format!("panics: {} ({at})", m.unwrap_or_default()))
    })
}

/// the operations that decide a property, and what is enumerated in full for it
fn plan(p: &str) -> (Vec<Op>, Vec<(Op, &'static str, Exhaustive)>) {
    #[cfg(momentous_verify)]
    match p {
        "C01" => {
            return (
                vec![cal::DAY, cal::FROM_DATE, cal::ORDER],
                vec![
                    (cal::DAY, "every day of the internal calendar (37400832 days): from_day, to_day, fields, order of neighbours", cal::all_days),
                    (cal::FROM_DATE, "from_date for every year from -49202 to 53202, months 0-13, days 0-32", cal::all_from_dates),
                ],
            )
        }
        "C03" => return (vec![dt::PACK, dt::EQUAL, dt::BUILD], vec![]),
        "C04" => return (vec![dt::DAYS, cal::ADD_DAYS], vec![]),
        "C05" => return (vec![dt::MONTHS, cal::ADD_MONTHS], vec![]),
        "C06" => return (vec![dt::YEARS, cal::ADD_YEARS], vec![]),
        "C16" => {
            return (
                vec![zone::SEGMENTS, zone::BY_DAY, zone::BY_INSTANT, zone::SEEN],
                vec![
                    (zone::BY_DAY, "segments and the lookup of every day around them, for every table of the run", zone::all_lookups),
                    (zone::PLACE, "every kind of $TZDIR, for every table of the run: two tables one after the other", zone::all_places),
                ],
            )
        }
        "C17" => {
            return (
                vec![zone::CONVERT, zone::ADJUSTMENT, zone::TIME_T, zone::UNIX],
                vec![(zone::UNIX, "Julian day and Unix time of every date of the years -4799 to 12000", zone::all_unix)],
            )
        }
        "C18" => return (vec![cursor::WALK], vec![]),
        _ => {}
    }
    match p {
        "C01" | "C02" => (
            vec![dt::BUILD],
            vec![
                (dt::BUILD, "every year from 0 to 10001, months 0-13, days 0-33", dt::all_dates),
                (dt::BUILD, "every hour 0-24, minute 0-60, second 0-62 on days with and without a leap second", dt::all_times),
            ],
        ),
        "C03" => (vec![dt::EQUAL, dt::BUILD], vec![]),
        "C04" => (vec![dt::DAYS], vec![]),
        "C05" => (vec![dt::MONTHS], vec![]),
        "C06" => (vec![dt::YEARS], vec![]),
        "C07" => (vec![dt::MINUTES, dt::HOURS], vec![]),
        "C08" => (vec![dt::SECONDS], vec![]),
        "C09" => (vec![dt::HISTORY, dt::CARRY], vec![]),
        "C10" => (vec![dt::CARRY, dt::HISTORY], vec![]),
        "C11" => (vec![time::COMPARE], vec![(time::COMPARE, "all pairs of 8-bit ticks for several pairs of units", time::ALL_SMALL)]),
        "C12" => (vec![time::ROUND, time::RESCALE], vec![]),
        "C13" => (vec![time::WIDTH, time::WIDEN], vec![]),
        "C14" => (vec![time::ARITH], vec![]),
        "C15" => (vec![time::DIVIDE], vec![]),
        "C16" => (vec![zone::SEEN], vec![]),
        "C17" => (vec![zone::CONVERT], vec![]),
        _ => (vec![], vec![]),
    }
}

const ALL: &[Op] = &[
    dt::BUILD, dt::EQUAL, dt::DAYS, dt::MONTHS, dt::YEARS, dt::MINUTES, dt::HOURS, dt::SECONDS, dt::HISTORY, dt::CARRY,
    time::COMPARE, time::ROUND, time::RESCALE, time::WIDTH, time::WIDEN, time::ARITH, time::DIVIDE, zone::CONVERT, zone::SEEN,
    #[cfg(momentous_verify)] dt::PACK,
    #[cfg(momentous_verify)] cal::DAY,
    #[cfg(momentous_verify)] cal::FROM_DATE,
    #[cfg(momentous_verify)] cal::ORDER,
    #[cfg(momentous_verify)] cal::ADD_YEARS,
    #[cfg(momentous_verify)] cal::ADD_MONTHS,
    #[cfg(momentous_verify)] cal::ADD_DAYS,
    #[cfg(momentous_verify)] zone::PLACE,
    #[cfg(momentous_verify)] zone::SEGMENTS,
    #[cfg(momentous_verify)] zone::BY_DAY,
    #[cfg(momentous_verify)] zone::BY_INSTANT,
    #[cfg(momentous_verify)] zone::ADJUSTMENT,
    #[cfg(momentous_verify)] zone::TIME_T,
    #[cfg(momentous_verify)] zone::UNIX,
    #[cfg(momentous_verify)] cursor::WALK,
];

fn tables(system: Option<Table>, r: &mut Rng) -> Vec<Table> {
    let t = |l: Vec<(i64, i64)>| Table { leaps: l };
    let mut v = vec![
        system.unwrap_or(t(vec![(912, 1)])),
        t(vec![(1, 1)]),
        t(vec![(4018, 1), (8035, 0), (12053, 1)]),
        // leap days, century years and year ends
        t(vec![(59, 1), (10957, 2), (11016, 1), (11017, 2), (11323, 1)]),
        t((100..150).map(|d| (d, (d - 100) % 2 + 1)).collect()),
        t((1..51).map(|i| (31 * i + 5, i)).collect()),
        t(vec![(24855, 1)]),
        t((1..=50).map(|i| (24855 - 3 * (50 - i), (i / 2) % 9)).collect()),
    ];
    for _ in 0..6 {
        let n = match r.below(3) {
            0 => r.range(1, 4),
            1 => r.range(5, 40),
            _ => r.range(41, 50),
        };
        let (mut d, mut c) = (0, 0);
        let mut l = vec![];
        for _ in 0..n {
            d += match r.below(4) {
                0 => r.range(1, 3),
                1 => r.range(27, 32),
                2 => r.range(180, 370),
                _ => r.range(1, 1000),
            };
            c += if c == 0 || r.chance(2) { r.range(0, 1).max((c == 0) as i64) } else { r.range(-1, 1) };
            if 86400 * d + c > i32::MAX as i64 - 86400 {
                break;
            }
            l.push((d, c));
        }
        v.push(t(l));
    }
    v.retain(|t| t.well_formed());
    v
}

fn install(dir: &str, k: usize) {
    // no other thread runs
    std::env::set_var("TZDIR", format!("{dir}/{k}"));
}

/// the tables that load, and one that does not
fn load(dir: &str, tables: Vec<Table>) -> (Vec<(Table, Chronology)>, Option<Table>) {
    let mut v = vec![];
    let mut bad = None;
    for t in tables {
        let k = v.len();
        let d = format!("{dir}/{k}/right");
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(format!("{d}/UTC"), t.file()).unwrap();
        install(dir, k);
        match catch_unwind(|| load_chronology("UTC")) {
            Ok(c) => v.push((t, c)),
            Err(_) => bad = Some(t),
        }
    }
    (v, bad)
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o + "\""
}

fn show(op: &Op, a: &Args) -> String {
    let l: Vec<_> = op.args.iter().zip(a).filter(|(n, _)| !n.is_empty()).map(|(n, v)| format!("{n}={v}")).collect();
    format!("{}({})", op.name, l.join(", "))
}

fn leaps(t: &Table) -> String {
    let l: Vec<_> = t.leaps.iter().map(|l| format!("[{},{}]", l.0, l.1)).collect();
    format!("[{}]", l.join(","))
}

fn failure(op: &Op, a: &Args, env: &Env, what: &str) -> String {
    let mut a = *a;
    let t = if op.args.first() == Some(&"table") { std::mem::take(&mut a[0]) as usize } else { env.cur };
    let args: Vec<_> = a.iter().map(|x| format!("\"{x}\"")).collect();
    format!(
        "{{\"op\": {}, \"args\": [{}], \"call\": {}, \"leaps\": {}, \"what\": {}}}",
        json(op.name),
        args.join(", "),
        json(&show(op, &a)),
        leaps(&env.tables[t].0),
        json(what)
    )
}

fn between<'a>(s: &'a str, key: &str, open: char, close: char) -> &'a str {
    let i = s.find(&format!("\"{key}\":")).expect(key) + key.len() + 3;
    let i = i + s[i..].find(open).expect(key) + 1;
    &s[i..i + s[i..].find(close).expect(key)]
}

fn replay(file: &str, dir: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let name = between(&s, "op", '"', '"');
    let op = ALL.iter().find(|o| o.name == name).expect("operation");
    let mut a = [0; 12];
    for (x, v) in a.iter_mut().zip(between(&s, "args", '[', ']').split(',')) {
        *x = v.trim().trim_matches('"').parse().expect("argument");
    }
    let i = s.find("\"leaps\":").expect("leaps");
    let l: String = s[i..].chars().filter(|c| !c.is_whitespace()).collect();
    let l = &l[l.find('[').unwrap() + 1..l.find("]]").unwrap()];
    let n: Vec<i64> = l.split(|c: char| !c.is_ascii_digit() && c != '-').filter_map(|x| x.parse().ok()).collect();
    let table = Table { leaps: n.chunks(2).map(|c| (c[0], c[1])).collect() };
    let (tables, bad) = load(dir, vec![table]);
    if bad.is_some() {
        println!("loading the leap-second table panics");
        return 1;
    }
    let env = Env { tables, dict: vec![], cur: 0 };
    match guarded(&op.run, &a, &env) {
        Ok(()) => {
            println!("{}: as it should be", show(op, &a));
            0
        }
        Err(e) => {
            println!("{}: {e}", show(op, &a));
            1
        }
    }
}

fn main() {
    let v: Vec<String> = std::env::args().skip(1).collect();
    let [p, seed, secs, dir, system, dict, report] = &v[..7] else { panic!("arguments") };
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        WHERE.with(|w| *w.borrow_mut() = at);
    }));
    if let Some(f) = v.get(7) {
        std::process::exit(replay(f, dir));
    }
    let (seed, secs): (u64, f64) = (seed.parse().unwrap(), secs.parse().unwrap());
    let mut r = Rng(seed ^ 0x5eed);
    let dict: Vec<i128> = std::fs::read_to_string(dict).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let system = std::fs::read(system).ok().and_then(|b| Table::parse(&b)).filter(|t| t.well_formed());
    let has_system = system.is_some();
    let (ops, exhaustive) = plan(p);

    let evals = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let failed: Mutex<Option<String>> = Mutex::new(None);
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let counts: Vec<AtomicU64> = ops.iter().map(|_| AtomicU64::new(0)).collect();
    let mut domains = vec![];
    let mut table_count = 0;
    const THREADS: u64 = 8;
    const ROUNDS: u64 = 4;
    let begin = Instant::now();
    for round in 0..ROUNDS {
        let (t, bad) = load(dir, tables(system.clone(), &mut r));
        if let (Some(t), "C16") = (bad, p.as_str()) {
            let f = format!(
                "{{\"op\": \"day-length\", \"args\": [\"0\"], \"call\": \"load_chronology\", \"leaps\": {}, \"what\": \"loading the table panics\"}}",
                leaps(&t)
            );
            *failed.lock().unwrap() = Some(f);
            break;
        }
        if t.len() < 3 {
            break;
        }
        table_count += t.len();
        let cur = if round == 0 { 0 } else { 1 + r.below(t.len() as u64 - 1) as usize };
        install(dir, cur);
        let env = Env { tables: t, dict: dict.clone(), cur };
        let found = |op: &Op, a: &Args, e: &str| {
            let mut f = failed.lock().unwrap();
            if f.is_none() {
                *f = Some(failure(op, a, &env, e));
            }
            stop.store(true, Ordering::SeqCst);
        };
        if round == 0 {
            for (op, name, all) in &exhaustive {
                let n = AtomicU64::new(0);
                std::thread::scope(|s| {
                    for k in 0..THREADS {
                        let (env, n, found) = (&env, &n, &found);
                        s.spawn(move || match all(env, k, THREADS) {
                            Ok(c) => drop(n.fetch_add(c, Ordering::SeqCst)),
                            Err((a, e)) => found(op, &a, &e),
                        });
                    }
                });
                let n = n.into_inner();
                evals.fetch_add(n, Ordering::SeqCst);
                if !stop.load(Ordering::SeqCst) {
                    domains.push(format!("{{\"domain\": {}, \"cases\": {n}}}", json(name)));
                }
            }
        }
        if stop.load(Ordering::SeqCst) || ops.is_empty() {
            break;
        }
        let now = Instant::now();
        let until = now + Duration::from_secs_f64((secs - begin.elapsed().as_secs_f64()).max(1.0) / (ROUNDS - round) as f64);
        std::thread::scope(|s| {
            for k in 0..THREADS {
                let (env, ops, counts, evals, stop, samples, found) = (&env, &ops, &counts, &evals, &stop, &samples, &found);
                let mut r = Rng(seed.wrapping_mul(0x9e37).wrapping_add(round * 1000 + k).wrapping_mul(0xD1B54A32D192ED03));
                s.spawn(move || {
                    let mut n = 0u64;
                    while !stop.load(Ordering::Relaxed) {
                        if n % 64 == 0 && Instant::now() > until {
                            break;
                        }
                        let i = r.below(ops.len() as u64) as usize;
                        let op = &ops[i];
                        let a = (op.gen)(&mut r, env);
                        if n < 2 && k < 2 && round == 0 {
                            samples.lock().unwrap().push(show(op, &a));
                        }
                        n += 1;
                        counts[i].fetch_add(1, Ordering::Relaxed);
                        if let Err(e) = guarded(&op.run, &a, env) {
                            found(op, &a, &e);
                        }
                    }
                    evals.fetch_add(n, Ordering::SeqCst);
                });
            }
        });
        if stop.load(Ordering::SeqCst) {
            break;
        }
    }
    let per: Vec<_> = ops.iter().zip(&counts).map(|(o, c)| format!("{}: {}", json(o.name), c.load(Ordering::SeqCst))).collect();
    let s: Vec<_> = samples.into_inner().unwrap().iter().map(|s| json(s)).collect();
    let f = failed.into_inner().unwrap();
    let out = format!(
        "{{\"property\": {}, \"hooks\": {}, \"evaluations\": {}, \"per_operation\": {{{}}}, \"exhaustive\": [{}], \"samples\": [{}], \"tables\": {table_count}, \"system_table\": {has_system}, \"harness_panics\": {}, \"seconds\": {:.1}, \"failure\": {}}}\n",
        json(p),
        cfg!(momentous_verify),
        evals.load(Ordering::SeqCst),
        per.join(", "),
        domains.join(", "),
        s.join(", "),
        HARNESS.load(Ordering::SeqCst),
        begin.elapsed().as_secs_f64(),
        f.as_deref().unwrap_or("null")
    );
    std::fs::write(report, &out).unwrap();
    std::process::exit(f.is_some() as i32);
}
