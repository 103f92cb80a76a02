//! Runs the facets of one property: cases are generated in child processes (so that a crash of the
//! code under test is an observation, not the end of the run), failures are shrunk on the recorded
//! choice sequence and written as replay files.
use crate::src::{Src, hash_choices};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg })
}
#[macro_export]
macro_rules! bail {
    ($sig:expr, $($a:tt)*) => { return Err($crate::runner::Fail { sig: $sig.to_string(), msg: format!($($a)*) }) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { return Err($crate::runner::Fail { sig: $sig.to_string(), msg: format!($($a)*) }); } };
}

pub struct Obs<'a> {
    known: &'a HashSet<String>,
    pub known_hits: BTreeMap<String, u64>,
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub note: String,
    pub want_note: bool,
    pub thorough: bool,
}
impl<'a> Obs<'a> {
    pub fn new(known: &'a HashSet<String>, thorough: bool) -> Self {
        Obs {
            known,
            known_hits: BTreeMap::new(),
            labels: BTreeMap::new(),
            nontrivial: false,
            note: String::new(),
            want_note: true,
            thorough,
        }
    }
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l);
        }
    }
    /// Marks the case non-trivial (by the facet's stated rule).
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_note {
            let s = f();
            if !self.note.is_empty() {
                self.note.push_str("; ");
            }
            self.note.push_str(&s);
        }
    }
    /// A deviation whose value is exactly the documented wrong one: if listed, record it and go on.
    pub fn known(&mut self, sig: &str, msg: impl FnOnce() -> String) -> R {
        if self.known.contains(sig) {
            *self.known_hits.entry(sig.to_string()).or_insert(0) += 1;
            Ok(())
        } else {
            Err(Fail { sig: sig.to_string(), msg: msg() })
        }
    }
}

pub struct Facet {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// cases are exactly 0..n of a finite space: the first choice is the index
    pub enumerated: bool,
    pub rule: &'static str,
    pub run: fn(&mut Src, &mut Obs) -> R,
    /// most cases one process runs (compiled code is never unmapped)
    pub chunk: u64,
}
impl Facet {
    pub fn chunked(mut self, n: u64) -> Facet {
        self.chunk = n;
        self
    }
}
pub const fn facet(
    name: &'static str,
    quick: u64,
    thorough: u64,
    rule: &'static str,
    run: fn(&mut Src, &mut Obs) -> R,
) -> Facet {
    Facet { name, quick, thorough, enumerated: false, rule, run, chunk: 200_000 }
}
pub struct Prop {
    pub id: &'static str,
    pub facets: Vec<Facet>,
    pub assumptions: &'static [&'static str],
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| (*s).to_string()))
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// Runs code that may legitimately panic; Err carries the panic message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn run_case(f: &Facet, s: &mut Src, o: &mut Obs) -> R {
    match catch_unwind(AssertUnwindSafe(|| (f.run)(s, o))) {
        Ok(r) => r,
        Err(_) => Err(Fail { sig: "panic".into(), msg: format!("the call panicked: {}", last_panic()) }),
    }
}

fn case_seed(seed: u64, prop: &str, facet: &str, i: u64) -> u64 {
    hash_choices(&format!("{prop}/{facet}"), &[seed, i])
}
fn make_src(f: &Facet, prop: &str, seed: u64, i: u64) -> Src {
    if f.enumerated { Src::replay(vec![i]) } else { Src::random(case_seed(seed, prop, f.name, i)) }
}

/// Generic shrinking on the choice vector. `test` says whether a candidate still fails.
fn shrink(mut cur: Vec<u64>, budget: usize, mut test: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut left = budget;
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let before = cur.clone();
        // delete blocks
        for size in [32usize, 16, 8, 4, 2, 1] {
            let mut i = cur.len();
            while i > 0 {
                i = i.saturating_sub(size);
                if i >= cur.len() {
                    continue;
                }
                if left == 0 {
                    return cur;
                }
                let mut c = cur.clone();
                let e = (i + size).min(c.len());
                c.drain(i..e);
                left -= 1;
                if let Some(n) = test(&c) {
                    if better(&n, &cur) {
                        cur = n;
                    }
                }
            }
        }
        // zero, then reduce each choice
        let mut i = 0;
        while i < cur.len() {
            if cur[i] != 0 {
                if left == 0 {
                    return cur;
                }
                let mut c = cur.clone();
                c[i] = 0;
                left -= 1;
                match test(&c) {
                    Some(n) if better(&n, &cur) => cur = n,
                    _ => {
                        let (mut lo, mut hi) = (0u64, cur[i]);
                        while hi - lo > 1 && left > 0 && i < cur.len() {
                            let mid = lo + (hi - lo) / 2;
                            let mut c = cur.clone();
                            c[i] = mid;
                            left -= 1;
                            match test(&c) {
                                Some(n) if better(&n, &cur) => {
                                    cur = n;
                                    if i < cur.len() {
                                        hi = cur[i];
                                    }
                                }
                                _ => lo = mid,
                            }
                            if lo >= hi {
                                break;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        if cur == before || left == 0 {
            return cur;
        }
    }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', " ")
}
fn fmt_choices(c: &[u64]) -> String {
    c.iter().map(u64::to_string).collect::<Vec<_>>().join(",")
}
fn parse_choices(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().expect("choice")).collect()
}

/// Child process: cases start..end of one facet.
#[allow(clippy::too_many_arguments)]
pub fn worker(
    p: &Prop,
    f: &Facet,
    seed: u64,
    start: u64,
    end: u64,
    known: &HashSet<String>,
    thorough: bool,
    out: &Path,
) {
    let prog = std::fs::File::create(out.with_extension("prog")).expect("prog");
    let mut evals = 0u64;
    let mut nontriv: BTreeSet<u64> = BTreeSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut txt = String::new();
    for i in start..end {
        prog.write_at(&i.to_le_bytes(), 0).expect("prog");
        let mut s = make_src(f, p.id, seed, i);
        let mut o = Obs::new(known, thorough);
        o.want_note = samples.len() < 2;
        let r = run_case(f, &mut s, &mut o);
        evals += 1;
        for (k, v) in &o.labels {
            *labels.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.known_hits {
            *known_hits.entry(k.clone()).or_insert(0) += v;
        }
        match r {
            Ok(()) => {
                if o.nontrivial {
                    nontriv.insert(hash_choices(f.name, &s.rec));
                    if samples.len() < 2 {
                        samples.push(o.note.clone());
                    }
                }
            }
            Err(e) if known.contains(&e.sig) => {
                *known_hits.entry(e.sig).or_insert(0) += 1;
            }
            Err(e) => {
                let first = s.rec.clone();
                // record before shrinking, in case shrinking crashes
                let _ = std::fs::write(
                    out.with_extension("fail"),
                    format!("{}\t{}\t{}\n", e.sig, esc(&e.msg), fmt_choices(&first)),
                );
                let shrunk = shrink(first, 1500, |c| {
                    let mut s = Src::replay(c.to_vec());
                    let mut o = Obs::new(known, thorough);
                    o.want_note = false;
                    match run_case(f, &mut s, &mut o) {
                        Err(e2) if e2.sig == e.sig => Some(s.rec),
                        _ => None,
                    }
                });
                let mut s = Src::replay(shrunk);
                let mut o = Obs::new(known, thorough);
                let m = match run_case(f, &mut s, &mut o) {
                    Err(e2) => e2,
                    Ok(()) => e,
                };
                let _ = writeln!(txt, "F\t{}\t{} [case: {}]\t{}", m.sig, esc(&m.msg), esc(&o.note), fmt_choices(&s.rec));
                break;
            }
        }
    }
    let _ = writeln!(txt, "E\t{evals}");
    for h in nontriv {
        let _ = writeln!(txt, "H\t{h}");
    }
    for (k, v) in labels {
        let _ = writeln!(txt, "L\t{k}\t{v}");
    }
    for (k, v) in known_hits {
        let _ = writeln!(txt, "K\t{k}\t{v}");
    }
    for s in samples {
        let _ = writeln!(txt, "S\t{}", esc(&s));
    }
    txt.push_str("DONE\n");
    std::fs::write(out, txt).expect("worker output");
}

/// Child process: one case given by its choices. Exit 0 pass, 3 fail (message on stderr).
pub fn exec(p: &Prop, facet: &str, choices: &str, known: &HashSet<String>, thorough: bool, show: bool) -> i32 {
    let f = p.facets.iter().find(|f| f.name == facet).expect("facet");
    let mut s = Src::replay(parse_choices(choices));
    let mut o = Obs::new(known, thorough);
    let r = run_case(f, &mut s, &mut o);
    if show {
        eprintln!("case: {}", o.note);
    }
    match r {
        Ok(()) => {
            if show {
                for k in o.known_hits.keys() {
                    eprintln!("known finding signature: {k}");
                }
            }
            0
        }
        Err(e) => {
            eprintln!("FAIL [{}] {}", e.sig, e.msg);
            3
        }
    }
}

struct Task {
    facet: usize,
    start: u64,
    end: u64,
}
enum Outcome {
    Text(String),
    Crash { status: String, index: u64 },
    CrashAfterFail(String),
    Timeout,
}

fn spawn(args: &[String], timeout: Duration) -> Result<std::process::ExitStatus, &'static str> {
    let mut ch = Command::new(std::env::current_exe().expect("exe"))
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let t = Instant::now();
    let mut nap = 1;
    loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            return Ok(st);
        }
        if t.elapsed() > timeout {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err("timeout");
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(20);
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub verif: PathBuf,
    pub only: Option<String>,
    pub scale: f64,
}

pub fn load_known(verif: &Path, prop: &str) -> Vec<(String, String)> {
    let mut v = Vec::new();
    if let Ok(t) = std::fs::read_to_string(verif.join("KNOWN_FINDINGS.txt")) {
        for l in t.lines() {
            let Some(rest) = l.strip_prefix("finding: ") else { continue };
            let mut it = rest.splitn(3, ' ');
            let pr = it.next().unwrap_or("");
            let sg = it.next().unwrap_or("");
            let d = it.next().unwrap_or("");
            if pr == format!("property={prop}") {
                if let Some(s) = sg.strip_prefix("signature=") {
                    v.push((s.to_string(), d.to_string()));
                }
            }
        }
    }
    v
}

pub fn run(p: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let thorough = o.tier == "thorough";
    let known = load_known(&o.verif, p.id);
    let work = o.verif.join(".work").join(format!("{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&work).expect("work dir");
    let ncpu = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    let mut tasks: Vec<Task> = Vec::new();
    let mut ncases = vec![0u64; p.facets.len()];
    for (fi, f) in p.facets.iter().enumerate() {
        if o.only.as_ref().is_some_and(|x| x != f.name) {
            continue;
        }
        let mut n = if thorough { f.thorough } else { f.quick };
        if !f.enumerated {
            n = ((n as f64) * o.scale).ceil() as u64;
        }
        ncases[fi] = n;
        let chunks = (if thorough { 32 } else { 8 }).max(n / f.chunk).min(n.max(1));
        for c in 0..chunks {
            let (s, e) = (n * c / chunks, n * (c + 1) / chunks);
            if s < e {
                tasks.push(Task { facet: fi, start: s, end: e });
            }
        }
    }
    // interleave so that long facets do not end up last
    tasks.sort_by_key(|t| (t.start * 64 / ncases[t.facet].max(1), t.facet));
    let next = AtomicUsize::new(0);
    let results: Mutex<Vec<(usize, Outcome)>> = Mutex::new(Vec::new());
    let limit = Duration::from_secs(if thorough { 6 * 3600 } else { 840 });
    std::thread::scope(|sc| {
        for _ in 0..ncpu {
            sc.spawn(|| {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= tasks.len() {
                        break;
                    }
                    let t = &tasks[i];
                    let out = work.join(format!("t{i}"));
                    let args: Vec<String> = vec![
                        "worker".into(),
                        p.id.into(),
                        p.facets[t.facet].name.into(),
                        o.seed.to_string(),
                        t.start.to_string(),
                        t.end.to_string(),
                        o.tier.clone(),
                        out.to_string_lossy().into_owned(),
                    ];
                    let left = limit.saturating_sub(t0.elapsed());
                    let st = spawn(&args, left);
                    let oc = match st {
                        Err(_) => Outcome::Timeout,
                        Ok(st) => {
                            let txt = std::fs::read_to_string(&out).unwrap_or_default();
                            if txt.ends_with("DONE\n") {
                                Outcome::Text(txt)
                            } else if let Ok(fl) = std::fs::read_to_string(out.with_extension("fail")) {
                                Outcome::CrashAfterFail(fl)
                            } else {
                                let b = std::fs::read(out.with_extension("prog")).unwrap_or_default();
                                let idx = if b.len() == 8 {
                                    u64::from_le_bytes(b.try_into().expect("8 bytes"))
                                } else {
                                    t.start
                                };
                                Outcome::Crash { status: format!("{st}"), index: idx }
                            }
                        }
                    };
                    results.lock().expect("lock").push((i, oc));
                }
            });
        }
    });
    let mut evals = vec![0u64; p.facets.len()];
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut fnt = vec![0u64; p.facets.len()];
    let mut labels: Vec<BTreeMap<String, u64>> = vec![BTreeMap::new(); p.facets.len()];
    let mut samples: Vec<Vec<String>> = vec![Vec::new(); p.facets.len()];
    let mut khits: BTreeMap<String, u64> = BTreeMap::new();
    let mut viol: BTreeMap<(usize, String), (String, Vec<u64>)> = BTreeMap::new();
    let mut inconclusive = 0;
    let mut results = results.into_inner().expect("lock");
    results.sort_by_key(|(i, _)| *i);
    for (i, oc) in results {
        let t = &tasks[i];
        let f = &p.facets[t.facet];
        let mut add = |sig: String, msg: String, ch: Vec<u64>| {
            let e = viol.entry((t.facet, sig)).or_insert_with(|| (msg.clone(), ch.clone()));
            if (ch.len(), &ch) < (e.1.len(), &e.1) {
                *e = (msg, ch);
            }
        };
        match oc {
            Outcome::Timeout => inconclusive += 1,
            Outcome::CrashAfterFail(l) => {
                let v: Vec<&str> = l.trim_end().splitn(3, '\t').collect();
                if v.len() == 3 {
                    add(v[0].into(), v[1].into(), parse_choices(v[2]));
                }
            }
            Outcome::Crash { status, index } => {
                // a crash (signal or abort) of the code under test
                let mut s = make_src(f, p.id, o.seed, index);
                // the choices made before the crash are only known to the crashed process; re-run it
                // recording them through `trace`
                let tr = work.join(format!("trace{i}"));
                let targs: Vec<String> = vec![
                    "trace".into(),
                    p.id.into(),
                    f.name.into(),
                    o.seed.to_string(),
                    index.to_string(),
                    o.tier.clone(),
                    tr.to_string_lossy().into_owned(),
                ];
                let again = spawn(&targs, Duration::from_secs(60));
                let crashed = matches!(&again, Ok(st) if st.code().is_none());
                if !crashed {
                    inconclusive += 1;
                    eprintln!("note: worker ended with {status} at case {index} of {} and it did not repeat", f.name);
                    continue;
                }
                let ch = std::fs::read_to_string(&tr).map(|t| parse_choices(t.trim())).unwrap_or_default();
                let _ = &mut s;
                let mut budget_t = Instant::now();
                let shr = shrink(ch, 300, |c| {
                    if budget_t.elapsed() > Duration::from_secs(60) {
                        return None;
                    }
                    let a: Vec<String> =
                        vec!["exec".into(), p.id.into(), f.name.into(), o.tier.clone(), fmt_choices(c)];
                    match spawn(&a, Duration::from_secs(20)) {
                        Ok(st) if st.code().is_none() => Some(c.to_vec()),
                        _ => None,
                    }
                });
                budget_t = Instant::now();
                let _ = budget_t;
                add("crash".into(), format!("the process running the case was killed: {status}"), shr);
            }
            Outcome::Text(txt) => {
                for l in txt.lines() {
                    let v: Vec<&str> = l.split('\t').collect();
                    match v[0] {
                        "E" => evals[t.facet] += v[1].parse::<u64>().expect("n"),
                        "H" => {
                            if hashes.insert(v[1].parse().expect("h")) {
                                fnt[t.facet] += 1;
                            }
                        }
                        "L" => *labels[t.facet].entry(v[1].into()).or_insert(0) += v[2].parse::<u64>().expect("n"),
                        "K" => *khits.entry(v[1].into()).or_insert(0) += v[2].parse::<u64>().expect("n"),
                        "S" => {
                            if samples[t.facet].len() < 2 {
                                samples[t.facet].push(v[1].to_string());
                            }
                        }
                        "F" => add(v[1].into(), v[2].into(), parse_choices(v[3])),
                        _ => {}
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&work);
    for (sig, d) in &known {
        if let Some(n) = khits.get(sig) {
            println!("KNOWN-FINDING: property={} {} [{} cases]", p.id, d, n);
        } else {
            println!("note: listed finding {sig} was not observed in this run");
        }
    }
    let rdir = o.verif.join("replays");
    for ((fi, sig), (msg, ch)) in &viol {
        std::fs::create_dir_all(&rdir).expect("replays");
        let f = &p.facets[*fi];
        let path = rdir.join(format!("{}-{}-{:08x}.replay", p.id, f.name, hash_choices(sig, ch) as u32));
        let mut fh = std::fs::File::create(&path).expect("replay");
        let _ = write!(
            fh,
            "property={}\nfacet={}\ntier={}\nsignature={}\nchoices={}\nmessage={}\nreplay with: bash /verif/check.sh --replay {}\n",
            p.id,
            f.name,
            o.tier,
            sig,
            fmt_choices(ch),
            msg,
            path.display()
        );
        println!("  {}: [{}] {}", f.name, sig, msg);
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    let tot: u64 = evals.iter().sum();
    let mut ev = String::new();
    let _ = write!(
        ev,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n",
        json_str(p.id),
        json_str(&o.tier),
        o.seed,
        tot,
        hashes.len()
    );
    let rules: Vec<String> = p
        .facets
        .iter()
        .enumerate()
        .filter(|(i, _)| ncases[*i] > 0)
        .map(|(_, f)| format!("{}: {}", f.name, f.rule))
        .collect();
    let _ = writeln!(
        ev,
        "  \"rule\": {},",
        json_str(&format!(
            "Cases are choice sequences drawn from VERIF_SEED; distinct = different (facet, choice sequence). Non-trivial per facet: {}",
            rules.join(" | ")
        ))
    );
    let mut sm: Vec<String> = Vec::new();
    for (i, s) in samples.iter().enumerate() {
        for x in s {
            sm.push(json_str(&format!("{}: {}", p.facets[i].name, x)));
        }
    }
    let _ = writeln!(ev, "  \"samples\": [\n   {}\n  ],", sm.join(",\n   "));
    let fs: Vec<String> = p
        .facets
        .iter()
        .enumerate()
        .filter(|(i, _)| ncases[*i] > 0)
        .map(|(i, f)| {
            let l: Vec<String> = labels[i].iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
            format!(
                "{}: {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"enumerated\": {}, \"classes\": {{{}}}}}",
                json_str(f.name),
                evals[i],
                fnt[i],
                f.enumerated,
                l.join(", ")
            )
        })
        .collect();
    let _ = writeln!(ev, "  \"facets\": {{\n   {}\n  }},", fs.join(",\n   "));
    let kf: Vec<String> = khits.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let _ = writeln!(ev, "  \"known_findings_observed\": {{{}}},", kf.join(", "));
    let _ = writeln!(ev, "  \"inconclusive_chunks\": {inconclusive}\n }},");
    let asm: Vec<String> = p.assumptions.iter().map(|a| json_str(a)).collect();
    let _ = write!(
        ev,
        " \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.3}\n}}\n",
        asm.join(", "),
        viol.len(),
        t0.elapsed().as_secs_f64()
    );
    if o.only.is_none() {
        let edir = o.verif.join("evidence");
        std::fs::create_dir_all(&edir).expect("evidence");
        std::fs::write(edir.join(format!("{}.json", p.id)), ev).expect("evidence");
    }
    println!(
        "{} tier={} seed={}: {} cases, {} distinct non-trivial, {} violations, {:.1}s",
        p.id,
        o.tier,
        o.seed,
        tot,
        hashes.len(),
        viol.len(),
        t0.elapsed().as_secs_f64()
    );
    if std::env::var("VH_STATS").is_ok() {
        for (i, f) in p.facets.iter().enumerate() {
            println!("  {}: {} evals, {} nontrivial, {:?}", f.name, evals[i], fnt[i], labels[i]);
            for s in &samples[i] {
                println!("     e.g. {s}");
            }
        }
    }
    if !viol.is_empty() {
        1
    } else if inconclusive > 0 {
        println!("INCONCLUSIVE: {inconclusive} chunks did not finish");
        2
    } else {
        0
    }
}

/// Child: regenerate one case, writing each choice as it is made (for crashes).
pub fn trace(p: &Prop, facet: &str, seed: u64, index: u64, known: &HashSet<String>, thorough: bool, out: &Path) {
    let f = p.facets.iter().find(|f| f.name == facet).expect("facet");
    // The choices before a crash: run with a drop-in Src whose record is mirrored to the file.
    let mut s = make_src(f, p.id, seed, index);
    s.mirror = Some(std::fs::File::create(out).expect("trace"));
    let mut o = Obs::new(known, thorough);
    let _ = run_case(f, &mut s, &mut o);
}
