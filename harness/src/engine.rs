//! Orchestration: a parent process that survives crashes of the code under test, a child
//! process with sharded worker threads, evidence files and replays.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut W, Tier),
    /// how the space is described in the evidence
    pub space: &'static str,
    pub assumptions: &'static [&'static str],
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub idx: u64,
    pub key: String,
    pub desc: String,
}

pub struct Shared {
    pub nviol: AtomicUsize,
    pub beats: Vec<AtomicU64>,
    pub viols: Mutex<Vec<Viol>>,
}

pub struct W {
    pub tid: usize,
    pub n: usize,
    pub idx: u64,
    only: Option<u64>,
    slot: Option<fs::File>,
    shared: Arc<Shared>,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<(u64, String)>,
    cur: u64,
    beat: u64,
}

const MAXVIOL: usize = 40;

impl W {
    /// Advance to the next case of the enumeration; true when this worker has to run it.
    pub fn next(&mut self) -> bool {
        let i = self.idx;
        self.idx += 1;
        if let Some(o) = self.only {
            if i != o {
                return false;
            }
        } else if i % self.n as u64 != self.tid as u64 {
            return false;
        }
        if self.shared.nviol.load(Ordering::Relaxed) > MAXVIOL {
            return false;
        }
        self.cur = i;
        self.beat += 1;
        if let Some(f) = &self.slot {
            let _ = f.write_at(&i.to_le_bytes(), 0);
        }
        self.shared.beats[self.tid].store(self.beat * 2 + 1, Ordering::Relaxed);
        true
    }
    /// Signal progress inside one long case.
    pub fn tick(&mut self) {
        self.beat += 1;
        self.shared.beats[self.tid].store(self.beat * 2 + 1, Ordering::Relaxed);
    }
    /// the single case to run (replays)
    pub fn only(&self) -> Option<u64> {
        self.only
    }
    pub fn current(&self) -> u64 {
        self.cur
    }
    /// a worker outside of a check: shard `tid` of `n`, or one case
    pub fn bare(tid: usize, n: usize, only: Option<u64>) -> W {
        hook();
        W {
            tid,
            n,
            idx: 0,
            only,
            slot: None,
            shared: Arc::new(Shared {
                nviol: AtomicUsize::new(0),
                beats: (0..n).map(|_| AtomicU64::new(0)).collect(),
                viols: Mutex::new(vec![]),
            }),
            states: 0,
            transitions: 0,
            traces: 0,
            counters: BTreeMap::new(),
            samples: vec![],
            cur: 0,
            beat: 0,
        }
    }
    /// keys of what was reported so far
    pub fn found(&self) -> Vec<String> {
        self.shared.viols.lock().unwrap().iter().map(|v| v.key.clone()).collect()
    }
    pub fn stop(&self) -> bool {
        self.shared.nviol.load(Ordering::Relaxed) > MAXVIOL
    }
    pub fn verbose(&self) -> bool {
        self.only.is_some()
    }
    pub fn viol(&mut self, key: impl Into<String>, desc: impl Into<String>) {
        let v = Viol { idx: self.cur, key: key.into(), desc: desc.into() };
        self.shared.nviol.fetch_add(1, Ordering::Relaxed);
        let mut l = self.shared.viols.lock().unwrap();
        if l.len() < 400 {
            l.push(v);
        }
    }
    pub fn count(&mut self, name: &str, k: u64) {
        if let Some(v) = self.counters.get_mut(name) {
            *v += k;
        } else {
            self.counters.insert(name.to_string(), k);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        let c = self.cur;
        if self.samples.len() < 3 || (c.is_power_of_two() && self.samples.len() < 14) {
            let s = f();
            self.samples.push((c, s));
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Run `f`, turning a panic into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    crate::real::reset_guard();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|l| l.borrow().clone())),
    }
}

fn hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let loc = loc.strip_prefix("/repo/").unwrap_or(&loc).to_string();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{} ({})", msg, loc));
    }));
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}
pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Body of the child process: runs all workers, writes `dir/result`.
pub fn child(p: &Prop, tier: Tier, dir: &Path, only: Option<u64>, threads: usize) -> i32 {
    hook();
    let n = if only.is_some() { 1 } else { threads };
    let shared = Arc::new(Shared {
        nviol: AtomicUsize::new(0),
        beats: (0..n).map(|_| AtomicU64::new(0)).collect(),
        viols: Mutex::new(vec![]),
    });
    let run = p.run;
    let mut hs = vec![];
    for t in 0..n {
        let sh = shared.clone();
        let d = dir.to_path_buf();
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let slot = fs::File::create(d.join(format!("slot{}", t))).ok();
                    if let Some(f) = &slot {
                        let _ = f.write_at(&u64::MAX.to_le_bytes(), 0);
                    }
                    let mut w = W {
                        tid: t,
                        n,
                        idx: 0,
                        only,
                        slot,
                        shared: sh,
                        states: 0,
                        transitions: 0,
                        traces: 0,
                        counters: BTreeMap::new(),
                        samples: vec![],
                        cur: 0,
                        beat: 0,
                    };
                    let r = catch_unwind(AssertUnwindSafe(|| run(&mut w, tier)));
                    if r.is_err() {
                        let m = LAST_PANIC.with(|l| l.borrow().clone());
                        w.viol("harness-panic", format!("uncaught panic while running a case: {}", m));
                    }
                    w.shared.beats[t].store(0, Ordering::Relaxed);
                    w
                })
                .unwrap(),
        );
    }
    let mut last: Vec<(u64, Instant)> = (0..n).map(|_| (0, Instant::now())).collect();
    let limit = Duration::from_secs(if tier == Tier::Quick { 40 } else { 90 });
    let mut hang: Option<usize> = None;
    let mut nap = 5;
    loop {
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(200);
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        for t in 0..n {
            let b = shared.beats[t].load(Ordering::Relaxed);
            if b != last[t].0 || b == 0 {
                last[t] = (b, Instant::now());
            } else if last[t].1.elapsed() > limit {
                hang = Some(t);
            }
        }
        if hang.is_some() {
            break;
        }
    }
    let mut out = String::new();
    if let Some(t) = hang {
        let b = fs::read(dir.join(format!("slot{}", t))).unwrap_or_default();
        let i = if b.len() >= 8 { u64::from_le_bytes(b[..8].try_into().unwrap()) } else { 0 };
        out.push_str(&format!("viol\t{}\thang\tno result within {} s in this case\n", i, limit.as_secs()));
        out.push_str("partial\n");
    } else {
        let mut st = (0u64, 0u64, 0u64);
        let mut cnt: BTreeMap<String, u64> = BTreeMap::new();
        let mut smp = vec![];
        let mut total = 0;
        for h in hs {
            let w = h.join().unwrap();
            st.0 += w.states;
            st.1 += w.transitions;
            st.2 += w.traces;
            total = w.idx;
            for (k, v) in w.counters {
                *cnt.entry(k).or_insert(0) += v;
            }
            smp.extend(w.samples);
        }
        out.push_str(&format!("stat\tstates\t{}\nstat\ttransitions\t{}\nstat\ttraces\t{}\nstat\tcases\t{}\n", st.0, st.1, st.2, total));
        for (k, v) in cnt {
            out.push_str(&format!("count\t{}\t{}\n", esc(&k), v));
        }
        smp.sort();
        smp.dedup();
        let step = (smp.len() / 12).max(1);
        for (i, (_, s)) in smp.iter().enumerate() {
            if i % step == 0 && i / step < 14 {
                out.push_str(&format!("sample\t{}\n", esc(s)));
            }
        }
    }
    let mut v = shared.viols.lock().map(|v| v.clone()).unwrap_or_default();
    v.sort_by(|a, b| a.idx.cmp(&b.idx));
    for x in v {
        out.push_str(&format!("viol\t{}\t{}\t{}\n", x.idx, esc(&x.key), esc(&x.desc)));
    }
    fs::write(dir.join("result"), out).unwrap();
    std::process::exit(0)
}

struct Outcome {
    viols: Vec<Viol>,
    stats: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    samples: Vec<String>,
    partial: bool,
}
fn parse(s: &str) -> Outcome {
    let mut o = Outcome { viols: vec![], stats: BTreeMap::new(), counts: BTreeMap::new(), samples: vec![], partial: false };
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "stat" => {
                o.stats.insert(f[1].into(), f[2].parse().unwrap());
            }
            "count" => {
                o.counts.insert(unesc(f[1]), f[2].parse().unwrap());
            }
            "sample" => o.samples.push(unesc(f[1])),
            "viol" => o.viols.push(Viol { idx: f[1].parse().unwrap(), key: unesc(f[2]), desc: unesc(f[3]) }),
            "partial" => o.partial = true,
            _ => {}
        }
    }
    o
}

/// Run the exploration of `id` with another build of this program; its violations, and the
/// number of executions it compared.
pub fn foreign(exe: &Path, id: &str, tier: Tier, dir: &Path) -> Result<(Vec<Viol>, u64), String> {
    let _ = fs::create_dir_all(dir);
    let st = Command::new(exe)
        .arg("child")
        .arg(id)
        .arg(if tier == Tier::Quick { "quick" } else { "thorough" })
        .arg(dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .map_err(|e| e.to_string())?;
    let r = fs::read_to_string(dir.join("result")).map_err(|_| format!("the process ended with {:?}", st));
    let _ = fs::remove_dir_all(dir);
    let o = parse(&r?);
    Ok((o.viols, o.stats.get("traces").copied().unwrap_or(0)))
}

fn spawn(id: &str, tier: Tier, dir: &Path, only: Option<u64>, show: bool) -> std::process::ExitStatus {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.arg("child").arg(id).arg(if tier == Tier::Quick { "quick" } else { "thorough" }).arg(dir);
    if let Some(i) = only {
        c.arg(i.to_string());
    }
    if !show {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    c.stdin(Stdio::null());
    c.status().expect("cannot start child")
}

/// Parent side of a check. Returns the process exit code.
pub fn check(p: &Prop, tier: Tier, verif: &Path) -> i32 {
    let t0 = Instant::now();
    let dir = verif.join("evidence").join("work").join(format!("{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let st = spawn(p.id, tier, &dir, None, false);
    let res = dir.join("result");
    let mut o = if let Ok(s) = fs::read_to_string(&res) {
        parse(&s)
    } else if st.signal() == Some(9) {
        eprintln!("{}: the exploring process was killed (out of memory?); no verdict", p.id);
        let _ = fs::remove_dir_all(&dir);
        return 2;
    } else {
        // The code under test took the process down. Find the case.
        let mut idxs = vec![];
        for t in 0..64 {
            if let Ok(b) = fs::read(dir.join(format!("slot{}", t))) {
                if b.len() >= 8 {
                    let i = u64::from_le_bytes(b[..8].try_into().unwrap());
                    if i != u64::MAX {
                        idxs.push(i);
                    }
                }
            }
        }
        idxs.sort();
        let mut v = vec![];
        for i in idxs {
            let d2 = dir.join(format!("only{}", i));
            fs::create_dir_all(&d2).unwrap();
            let s2 = spawn(p.id, tier, &d2, Some(i), false);
            if let Some(sig) = s2.signal() {
                v.push(Viol { idx: i, key: "crash".into(), desc: format!("the process dies with signal {} in this case", sig) });
            } else if let Ok(s) = fs::read_to_string(d2.join("result")) {
                v.extend(parse(&s).viols);
            }
        }
        if v.is_empty() {
            v.push(Viol {
                idx: 0,
                key: "crash".into(),
                desc: format!("the exploring process died ({:?}), not reproducible from a single case", st),
            });
        }
        Outcome { viols: v, stats: BTreeMap::new(), counts: BTreeMap::new(), samples: vec![], partial: true }
    };
    let _ = fs::remove_dir_all(&dir);

    // recorded findings
    let mut known: Vec<(String, String)> = vec![];
    if let Ok(s) = fs::read_to_string(verif.join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={} key=", p.id)) {
                if let Some((k, w)) = r.split_once(" what=") {
                    known.push((k.to_string(), w.to_string()));
                }
            }
        }
    }
    let mut fresh: Vec<Viol> = vec![];
    let mut hit = 0;
    for v in o.viols.drain(..) {
        if known.iter().any(|(k, _)| *k == v.key) {
            hit += 1;
        } else {
            fresh.push(v);
        }
    }
    for (_, w) in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, w);
    }
    let g = |k: &str| o.stats.get(k).copied().unwrap_or(0);
    println!(
        "{} {:?}: {} cases, {} states, {} transitions, {} executions of the library compared, {:.1} s",
        p.id,
        tier,
        g("cases"),
        g("states"),
        g("transitions"),
        g("traces"),
        t0.elapsed().as_secs_f64()
    );
    for (k, v) in &o.counts {
        println!("  {}: {}", k, v);
    }
    let mut code = 0;
    let rdir = verif.join("evidence").join("replays");
    fs::create_dir_all(&rdir).unwrap();
    for (k, v) in fresh.iter().enumerate().take(5) {
        code = 1;
        let path = rdir.join(format!("{}-{}.txt", p.id, k));
        let tn = if tier == Tier::Quick { "quick" } else { "thorough" };
        let mut f = fs::File::create(&path).unwrap();
        let _ = writeln!(f, "property={}\ntier={}\ncase={}\nkey={}\nreproduce: ./check.sh replay {}\n\n{}", p.id, tn, v.idx, v.key, path.display(), v.desc);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        println!("  case {}: [{}] {}", v.idx, v.key, v.desc.replace('\n', "\n    "));
    }
    if fresh.len() > 5 {
        println!("  ... and {} more violations", fresh.len() - 5);
    }
    if g("traces") == 0 && fresh.is_empty() {
        println!("{}: nothing was explored; no verdict", p.id);
        code = 2;
    }
    // evidence
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    let counts: Vec<String> = o.counts.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect();
    let samples: Vec<String> = o.samples.iter().map(|s| json(s)).collect();
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| json(s)).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"cases\": {},\n  \"exhaustive\": {},\n  \"space\": {},\n  \"breakdown\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {},\n \"known_findings_hit\": {}\n}}\n",
        json(p.id),
        json(if tier == Tier::Quick { "quick" } else { "thorough" }),
        seed,
        g("states"),
        g("transitions"),
        g("traces"),
        g("cases"),
        if o.partial || fresh.len() > MAXVIOL { "false" } else { "true" },
        json(p.space),
        counts.join(", "),
        samples.join(",\n   "),
        assumptions.join(", "),
        t0.elapsed().as_secs_f64(),
        fresh.len(),
        hit
    );
    fs::write(verif.join("evidence").join(format!("{}.json", p.id)), ev).unwrap();
    code
}

pub fn replay(file: &Path, find: &dyn Fn(&str) -> Option<&'static Prop>, verif: &Path) -> i32 {
    let s = fs::read_to_string(file).expect("replay file");
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
    let id = get("property=");
    let tier = if get("tier=") == "quick" { Tier::Quick } else { Tier::Thorough };
    let idx: u64 = get("case=").parse().expect("case number");
    let p = find(&id).expect("unknown property");
    let dir: PathBuf = verif.join("evidence").join("work").join(format!("replay-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let st = spawn(p.id, tier, &dir, Some(idx), false);
    let r = match fs::read_to_string(dir.join("result")) {
        Ok(s) => {
            let o = parse(&s);
            for v in &o.viols {
                println!("VIOLATION property={} replay={}\n  case {}: [{}] {}", id, file.display(), v.idx, v.key, v.desc);
            }
            if o.viols.is_empty() {
                println!("case {} passes", idx);
                0
            } else {
                1
            }
        }
        Err(_) => {
            println!("VIOLATION property={} replay={}\n  case {}: process ended with {:?}", id, file.display(), idx, st);
            1
        }
    };
    let _ = fs::remove_dir_all(&dir);
    r
}
