//! The worker side of a check: runs one mode over a range of case numbers and
//! reports what its monitor saw.  One worker is one process, so a crash or a
//! hang is attributed to the case in the journal.
use crate::case::Case;
use crate::rng::Rng;
use crate::run;
use std::collections::{BTreeMap, HashSet};
use std::fs::OpenOptions;
use std::io::Write;
use std::time::Instant;

pub enum V {
    /// held; true if the case counts as non-trivial by the mode's rule
    Held(bool),
    /// violated: what was observed
    Bad(String),
    /// the oracle could not decide
    Unknown(String),
}

/// counters of what the monitors observed
#[derive(Default)]
pub struct Ctx {
    pub counts: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub tier_thorough: bool,
    pub scratch: String,
    /// what makes the case worth a look under the interpreter, bit by bit
    pub suspect: u32,
}
impl Ctx {
    pub fn add(&mut self, k: &'static str, n: usize) {
        *self.counts.entry(k).or_default() += n as u64;
    }
    pub fn max(&mut self, k: &'static str, n: usize) {
        let e = self.maxima.entry(k).or_default();
        *e = (*e).max(n as u64);
    }
}

pub struct Mode {
    pub name: &'static str,
    /// the case with this number
    pub gen: fn(&mut Rng, u64) -> Case,
    /// deterministic in (case, aux)
    pub check: fn(&mut Ctx, &Case, u64) -> V,
    /// whether the shrinker has to stay inside the supported domain
    pub valid: bool,
    pub rule: &'static str,
}

pub fn hash(c: &Case) -> u64 {
    // FNV-1a over the coordinates and the structure
    let mut h = 0xcbf29ce484222325u64;
    let mut eat = |x: u64| {
        for b in x.to_le_bytes() {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
    };
    let mut ring = |v: &Vec<crate::exact::P>, tag: u64| {
        eat(tag);
        for p in v {
            eat(p.0.to_bits());
            eat(p.1.to_bits());
        }
    };
    ring(&c.outer, 1);
    for x in &c.holes {
        ring(x, 2);
    }
    ring(&c.steiner, 3);
    h
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push(' '),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

#[cfg(not(miri))]
mod limit {
    #[repr(C)]
    struct Tv {
        s: i64,
        us: i64,
    }
    #[repr(C)]
    struct It {
        i: Tv,
        v: Tv,
    }
    #[repr(C)]
    struct Rl {
        c: u64,
        m: u64,
    }
    extern "C" {
        fn setitimer(w: i32, n: *const It, o: *mut It) -> i32;
        fn setrlimit(r: i32, l: *const Rl) -> i32;
    }
    /// SIGVTALRM after this much CPU time of this process
    pub fn cpu(ms: u64) {
        let it = It { i: Tv { s: 0, us: 0 }, v: Tv { s: (ms / 1000) as i64, us: (ms % 1000 * 1000) as i64 } };
        unsafe { setitimer(1, &it, std::ptr::null_mut()) };
    }
    pub fn mem(bytes: u64) {
        unsafe { setrlimit(9, &Rl { c: bytes, m: bytes }) };
    }
    pub fn nocore() {
        unsafe { setrlimit(4, &Rl { c: 0, m: 0 }) };
    }
}
#[cfg(miri)]
mod limit {
    pub fn cpu(_: u64) {}
    pub fn mem(_: u64) {}
    pub fn nocore() {}
}

fn env(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn aux_of(seed: u64, i: u64) -> u64 {
    Rng::new(seed ^ 0x5bd1e995, i).u64()
}

pub fn main(modes: Vec<Mode>) {
    let a: Vec<String> = std::env::args().collect();
    run::install_hook();
    limit::nocore();
    let mem = env("P2T_MEM_MB", 3000);
    if mem > 0 {
        limit::mem(mem << 20);
    }
    let stack = env("P2T_STACK_KB", 8192) as usize * 1024;
    let h = std::thread::Builder::new().stack_size(stack).spawn(move || real_main(&a, &modes)).unwrap();
    let code = h.join().unwrap_or_else(|_| {
        eprintln!("harness panicked");
        70
    });
    std::process::exit(code);
}

fn find<'a>(modes: &'a [Mode], n: &str) -> &'a Mode {
    modes.iter().find(|m| m.name == n).unwrap_or_else(|| panic!("no mode {n}"))
}

/// replay text: "# aux N" line plus the case
pub fn replay_text(mode: &str, aux: u64, c: &Case, note: &str) -> String {
    format!("# mode {mode}\n# aux {aux}\n# {}\n{}", note.replace('\n', " "), c.to_text())
}
fn load(path: &str) -> (u64, Case) {
    let t = std::fs::read_to_string(path).unwrap();
    let aux = t.lines().find_map(|l| l.strip_prefix("# aux ")).map_or(0, |s| s.trim().parse().unwrap());
    (aux, Case::from_text(&t))
}

fn real_main(a: &[String], modes: &[Mode]) -> i32 {
    let cpu = env("P2T_CPU_MS", 30000);
    let mut ctx = Ctx {
        tier_thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
        scratch: std::env::var("P2T_SCRATCH").unwrap_or("/tmp".into()),
        ..Default::default()
    };
    match a[1].as_str() {
        // gen MODE SEED INDEX: print the case
        "gen" => {
            let m = find(modes, &a[2]);
            let (s, i): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let c = (m.gen)(&mut Rng::new(s, i), i);
            print!("{}", replay_text(m.name, aux_of(s, i), &c, "generated"));
            0
        }
        // find MODE SEED AUX END: print the case that has this aux
        "find" => {
            let m = find(modes, &a[2]);
            let n: Vec<u64> = a[3..6].iter().map(|s| s.parse().unwrap()).collect();
            let Some(i) = (0..n[2]).find(|&i| aux_of(n[0], i) == n[1]) else { return 1 };
            let c = (m.gen)(&mut Rng::new(n[0], i), i);
            print!("{}", replay_text(m.name, n[1], &c, "generated"));
            0
        }
        // one MODE FILE...
        "one" => {
            let m = find(modes, &a[2]);
            let mut rc = 0;
            for f in &a[3..] {
                let (aux, c) = load(f);
                limit::cpu(cpu);
                let began = Instant::now();
                let v = (m.check)(&mut ctx, &c, aux);
                println!("TIME {}", began.elapsed().as_micros());
                match v {
                    V::Held(b) => println!("HELD {b}"),
                    V::Unknown(s) => println!("UNKNOWN {s}"),
                    V::Bad(s) => {
                        println!("BAD {s}");
                        rc = 1;
                    }
                }
            }
            rc
        }
        // shrink MODE FILE OUT SECONDS: in-process
        "shrink" => {
            let m = find(modes, &a[2]);
            let (aux, c) = load(&a[3]);
            let secs: u64 = a[5].parse().unwrap();
            let t0 = Instant::now();
            let mut bad = |d: &Case| {
                limit::cpu(cpu);
                if t0.elapsed().as_secs() > secs {
                    return false;
                }
                matches!((m.check)(&mut ctx, d, aux), V::Bad(_))
            };
            let s = if m.valid && bad(&c) { crate::shrink::shrink(&c, 20000, &mut bad) } else { c };
            let note = match (m.check)(&mut ctx, &s, aux) {
                V::Bad(s) => s,
                _ => "?".into(),
            };
            std::fs::write(&a[4], replay_text(m.name, aux, &s, &note)).unwrap();
            println!("{note}");
            0
        }
        // run MODE SEED START END STEP DIR DEADLINE_S: cases START, START+STEP, ...
        "run" => {
            let m = find(modes, &a[2]);
            let n: Vec<u64> = a[3..7].iter().map(|s| s.parse().unwrap()).collect();
            let (seed, start, end, step) = (n[0], n[1], n[2], n[3]);
            let dir = &a[7];
            let deadline: f64 = a[8].parse().unwrap();
            let t0 = Instant::now();
            let mut journal = OpenOptions::new()
                .create(true)
                .write(true)
                .truncate(true)
                .open(format!("{dir}/journal"))
                .unwrap();
            let (mut evals, mut nontrivial, mut unknown, mut bad) = (0u64, 0u64, 0u64, 0u64);
            let mut seen: HashSet<u64> = HashSet::new();
            let mut fam: BTreeMap<String, u64> = BTreeMap::new();
            let mut samples: Vec<String> = vec![];
            let mut unknown_why = String::new();
            let mut i = start;
            let mut suspects: Option<std::fs::File> = None;
            // written to files every now and then, so that a crash loses little
            macro_rules! stats {
                () => {{
                    let mut buf = vec![];
                    for h in &seen {
                        buf.extend_from_slice(&h.to_le_bytes());
                    }
                    std::fs::write(format!("{dir}/hashes"), buf).unwrap();
                    let j = |m: &BTreeMap<&'static str, u64>| {
                        m.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",")
                    };
                    let s = format!(
                        "{{\"evals\":{evals},\"nontrivial\":{nontrivial},\"unknown\":{unknown},\"unknown_why\":\"{}\",\"bad\":{bad},\"next\":{i},\"counts\":{{{}}},\"maxima\":{{{}}},\"families\":{{{}}},\"samples\":[{}],\"rule\":\"{}\"}}",
                        esc(&unknown_why),
                        j(&ctx.counts),
                        j(&ctx.maxima),
                        fam.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect::<Vec<_>>().join(","),
                        samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
                        esc(m.rule),
                    );
                    std::fs::write(format!("{dir}/stats.tmp"), s).unwrap();
                    std::fs::rename(format!("{dir}/stats.tmp"), format!("{dir}/stats.json")).unwrap();
                }};
            }
            while i < end && t0.elapsed().as_secs_f64() < deadline {
                use std::io::Seek;
                journal.rewind().unwrap();
                journal.write_all(format!("{i:020}\n").as_bytes()).unwrap();
                limit::cpu(cpu);
                let c = (m.gen)(&mut Rng::new(seed, i), i);
                let aux = aux_of(seed, i);
                ctx.suspect = 0;
                let began = Instant::now();
                let v = (m.check)(&mut ctx, &c, aux);
                if ctx.suspect != 0 && c.n() <= 24 && began.elapsed().as_micros() < 1500 {
                    use std::io::Write as _;
                    if suspects.is_none() {
                        suspects = std::fs::File::create(format!("{dir}/suspects")).ok();
                    }
                    if let Some(f) = &mut suspects {
                        let _ = writeln!(f, "{i} {} {}", c.n(), ctx.suspect);
                    }
                }
                evals += 1;
                *fam.entry(c.family.clone()).or_default() += 1;
                ctx.max("largest_case_points", c.n());
                ctx.max("largest_outline", c.outer.len());
                ctx.max("largest_hole", c.holes.iter().map(Vec::len).max().unwrap_or(0));
                ctx.max("most_holes", c.holes.len());
                ctx.max("most_free_points", c.steiner.len());
                match v {
                    V::Held(nt) => {
                        if nt && seen.insert(hash(&c)) {
                            nontrivial += 1;
                            if samples.len() < 1 && c.n() >= 4 && c.n() < 16 {
                                samples.push(c.to_text());
                            }
                        }
                    }
                    V::Unknown(s) => {
                        unknown += 1;
                        unknown_why = s;
                    }
                    V::Bad(s) => {
                        bad += 1;
                        let f = format!("{dir}/bad-{i}.txt");
                        std::fs::write(&f, replay_text(m.name, aux, &c, &s)).unwrap();
                        println!("BAD\t{i}\t{f}\t{}", s.replace(['\n', '\t'], " "));
                        if bad >= 3 {
                            break;
                        }
                    }
                }
                i += step;
                if !m.valid && (evals % 100 == 0 || evals < 100 && evals % 4 == 0) {
                    stats!();
                }
            }
            stats!();
            0
        }
        x => panic!("unknown command {x}"),
    }
}
