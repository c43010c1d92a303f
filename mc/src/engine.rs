//! The exploration engine.
//!
//! A property enumerates its cases in a fixed order. Eight worker processes walk the same
//! enumeration, each executing every eighth case. Worker processes, rather than threads, are used
//! because the code under test may hang, abort, overflow its stack or call `exit`: the parent sees
//! which case a worker was at, confirms the case on its own and reports it as a violation.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::{self, File};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = format!("{info}").replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

/// Runs the code under test; a panic comes back as an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| PANIC.with(|p| format!("panicked: {}", p.borrow())))
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

const MAX_OUTCOMES: usize = 400_000;

/// One worker's view of the exploration.
pub struct Cx {
    pub tier: Tier,
    pub scratch: PathBuf,
    property: String,
    next: u64,
    current: u64,
    workers: u64,
    worker: u64,
    from: u64,
    only: Option<u64>,
    space: &'static str,
    spaces: BTreeMap<&'static str, (u64, u64)>,
    execs: u64,
    outcomes: HashSet<u64>,
    hits: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    progress: Option<File>,
    known: Vec<Known>,
    known_hit: HashSet<usize>,
    verbose: bool,
    show: bool,
    fail_to: Option<PathBuf>,
}

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub input: String,
    pub what: String,
}

/// What a single case reports back.
#[derive(Default)]
pub struct Obs {
    execs: u64,
    outcome: Option<u64>,
    hits: Vec<&'static str>,
    verbose: bool,
}

impl Obs {
    /// Notes that the code under test was run once more.
    pub fn ran(&mut self) {
        self.execs += 1;
    }
    /// Notes what came out, to count how many distinct results the exploration saw.
    pub fn saw<T: Hash + ?Sized>(&mut self, t: &T) {
        self.outcome = Some(hash(&(self.outcome, hash(t))));
    }
    /// Notes that a situation of interest was reached.
    pub fn hit(&mut self, name: &'static str) {
        self.hits.push(name);
    }
    pub fn say(&self, s: impl FnOnce() -> String) {
        if self.verbose {
            println!("{}", s());
        }
    }
}

/// Fails with both renderings when they differ.
pub fn same(what: &str, want: &str, got: &str) -> Result<(), String> {
    if want == got {
        return Ok(());
    }
    Err(format!("{what}\n--- expected\n{want}\n--- got\n{got}"))
}

impl Cx {
    pub fn space(&mut self, name: &'static str) {
        self.space = name;
        self.spaces.entry(name).or_default();
    }

    /// Steps to the next case of the enumeration; true if it is for this worker to execute.
    pub fn mine(&mut self) -> bool {
        let i = self.next;
        self.next += 1;
        self.current = i;
        match self.only {
            Some(o) => i == o,
            None => i % self.workers == self.worker && i >= self.from,
        }
    }

    /// Executes the current case. `steps` is how many productions built the input.
    pub fn check(
        &mut self,
        steps: usize,
        input: &str,
        f: impl FnOnce(&mut Obs) -> Result<(), String>,
    ) {
        if self.show {
            print!("{input}");
            return;
        }
        if let Some(p) = &self.progress {
            let _ = p.write_all_at(&self.current.to_le_bytes(), 0);
        }
        let e = self.spaces.entry(self.space).or_default();
        e.0 += 1;
        e.1 += steps as u64;
        let mut obs = Obs { verbose: self.verbose, ..Obs::default() };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut obs)))
            .unwrap_or_else(|_| Err(PANIC.with(|p| format!("panicked: {}", p.borrow()))));
        self.execs += obs.execs.max(1);
        if let Some(o) = obs.outcome {
            if self.outcomes.len() < MAX_OUTCOMES {
                self.outcomes.insert(o);
            }
        }
        for h in obs.hits {
            *self.hits.entry(h).or_default() += 1;
        }
        let seen = self.spaces[self.space].0;
        if self.samples.len() < 400 && (seen == 2 || seen.is_power_of_two() && seen > 64) {
            let s: String = input.chars().take(300).collect();
            self.samples.push(json!({"space": self.space, "case": self.current, "input": s}));
        }
        if let Err(m) = r {
            if let Some(k) = self
                .known
                .iter()
                .position(|k| k.property == self.property && k.input == input)
            {
                self.known_hit.insert(k);
                return;
            }
            self.fail(input, &m);
        }
    }

    fn fail(&mut self, input: &str, message: &str) {
        let v = json!({
            "property": self.property, "tier": self.tier.name(), "case": self.current,
            "space": self.space, "input": input, "message": message,
        });
        match &self.fail_to {
            Some(p) => {
                let tmp = p.with_extension("tmp");
                let _ = fs::write(&tmp, v.to_string());
                let _ = fs::rename(&tmp, p);
                std::process::exit(3)
            }
            None => {
                println!("FAILED case {} in {}\ninput:\n{input}\n{message}", self.current, self.space);
                if std::env::var_os("KEEP_GOING").is_none() {
                    std::process::exit(1)
                }
            }
        }
    }
}

pub type Prop = (&'static str, fn(&mut Cx));

const WORKERS: u64 = 8;
const STUCK: Duration = Duration::from_secs(20);
const STUCK_ALONE: Duration = Duration::from_secs(60);
const MEM_KB: u64 = 3_500_000;

fn known_findings(root: &Path) -> Vec<Known> {
    let mut out = vec![];
    for l in fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default().lines() {
        let Some(l) = l.strip_prefix("known: property=") else { continue };
        let Some((p, rest)) = l.split_once(" input=") else { continue };
        let mut de = serde_json::Deserializer::from_str(rest).into_iter::<String>();
        if let Some(Ok(input)) = de.next() {
            let what = rest[de.byte_offset()..].trim().to_string();
            out.push(Known { property: p.trim().into(), input, what });
        }
    }
    out
}

fn scratch_base() -> PathBuf {
    let d = std::env::temp_dir();
    d.join(format!("asciidocr-mc-{}", std::process::id()))
}

fn new_cx(property: &str, tier: Tier, root: &Path, scratch: PathBuf) -> Cx {
    Cx {
        tier,
        scratch,
        property: property.into(),
        next: 0,
        current: 0,
        workers: 1,
        worker: 0,
        from: 0,
        only: None,
        space: "",
        spaces: BTreeMap::new(),
        execs: 0,
        outcomes: HashSet::new(),
        hits: BTreeMap::new(),
        samples: vec![],
        progress: None,
        known: known_findings(root),
        known_hit: HashSet::new(),
        verbose: false,
        show: false,
        fail_to: None,
    }
}

/// `mc worker PROPERTY TIER ROOT WORKER WORKERS FROM DIR`
pub fn worker(props: &[Prop], a: &[String]) -> i32 {
    hook();
    let tier = if a[1] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let dir = PathBuf::from(&a[6]);
    let w: u64 = a[3].parse().unwrap();
    let scratch = dir.join(format!("scratch{w}"));
    fs::create_dir_all(&scratch).unwrap();
    let mut cx = new_cx(&a[0], tier, Path::new(&a[2]), scratch);
    cx.worker = w;
    cx.workers = a[4].parse().unwrap();
    cx.from = a[5].parse().unwrap();
    cx.progress =
        Some(File::options().write(true).create(true).open(dir.join(format!("progress{w}"))).unwrap());
    cx.fail_to = Some(dir.join(format!("fail{w}.json")));
    let f = props.iter().find(|p| p.0 == a[0]).expect("no such property").1;
    f(&mut cx);
    let spaces: Value = cx
        .spaces
        .iter()
        .map(|(k, v)| (k.to_string(), json!([v.0, v.1])))
        .collect::<serde_json::Map<_, _>>()
        .into();
    let mut known: Vec<_> = cx.known_hit.iter().copied().collect();
    known.sort();
    let v = json!({
        "total": cx.next, "spaces": spaces, "execs": cx.execs, "samples": cx.samples,
        "hits": cx.hits, "known": known, "outcomes": cx.outcomes.iter().collect::<Vec<_>>(),
    });
    // appended, because a worker that was restarted adds to what it did before
    let mut out =
        File::options().append(true).create(true).open(dir.join(format!("done{w}.jsonl"))).unwrap();
    writeln!(out, "{v}").unwrap();
    0
}

/// `mc case PROPERTY TIER ROOT INDEX`
pub fn case(props: &[Prop], a: &[String]) -> i32 {
    hook();
    let tier = if a[1] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let scratch = scratch_base().join("case");
    fs::create_dir_all(&scratch).unwrap();
    let mut cx = new_cx(&a[0], tier, Path::new(&a[2]), scratch.clone());
    match a.get(3).map(|s| s.as_str()) {
        None | Some("all") => cx.workers = 1,
        Some(n) => {
            cx.only = Some(n.parse().unwrap());
            cx.verbose = true;
        }
    }
    cx.known.clear();
    cx.show = a.get(4).map(|s| s.as_str()) == Some("show");
    let f = props.iter().find(|p| p.0 == a[0]).expect("no such property").1;
    f(&mut cx);
    let _ = fs::remove_dir_all(scratch_base());
    if cx.show {
        return 0;
    }
    println!("held: {} cases, {} distinct, {:?} {:?}", cx.execs, cx.outcomes.len(), cx.spaces, cx.hits);
    0
}

fn limited(exe: &Path, mem_kb: u64) -> Command {
    let mut c = Command::new("/bin/sh");
    c.arg("-c")
        .arg(format!("ulimit -v {mem_kb}; ulimit -c 0; exec \"$0\" \"$@\""))
        .arg(exe)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    c
}

struct Slot {
    child: Option<Child>,
    at: u64,
    since: Instant,
}

fn read_progress(dir: &Path, w: u64) -> u64 {
    fs::read(dir.join(format!("progress{w}")))
        .ok()
        .and_then(|b| b.try_into().ok())
        .map(u64::from_le_bytes)
        .unwrap_or(0)
}

fn describe(s: Option<ExitStatus>) -> String {
    match s {
        None => format!("did not finish within {} s", STUCK_ALONE.as_secs()),
        Some(s) => match s.signal() {
            Some(n) => format!("the process was killed by signal {n} (crash, stack overflow or out of memory)"),
            None => format!("the process exited with status {}", s.code().unwrap_or(-1)),
        },
    }
}

/// Runs one case in a process of its own. Ok(Some(..)) if it fails there too.
fn confirm(exe: &Path, prop: &str, tier: Tier, root: &Path, idx: u64, dir: &Path) -> Option<String> {
    let out = dir.join("confirm.txt");
    let mut c = limited(exe, MEM_KB);
    c.args(["case", prop, tier.name(), &root.to_string_lossy(), &idx.to_string()]);
    c.stdout(File::create(&out).ok()?);
    let mut child = c.spawn().ok()?;
    let start = Instant::now();
    let status = loop {
        if let Ok(Some(s)) = child.try_wait() {
            break Some(s);
        }
        if start.elapsed() > STUCK_ALONE {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    match status {
        Some(s) if s.success() => None,
        Some(s) if s.code() == Some(1) => Some(fs::read_to_string(&out).unwrap_or_default()),
        s => Some(describe(s)),
    }
}

/// `mc check PROPERTY TIER ROOT`: exit 0 held, 1 violation, 2 the engine itself failed.
pub fn check(props: &[Prop], a: &[String]) -> i32 {
    let start = Instant::now();
    let prop = a[0].clone();
    let tier = if a[1] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let root = PathBuf::from(&a[2]);
    if !props.iter().any(|p| p.0 == prop) {
        eprintln!("no such property: {prop}");
        return 2;
    }
    let exe = std::env::current_exe().unwrap();
    let base = scratch_base();
    fs::create_dir_all(&base).unwrap();
    let evid = root.join("evidence");
    fs::create_dir_all(&evid).unwrap();
    let replay = evid.join(format!("{prop}.replay.json"));
    let _ = fs::remove_file(&replay);
    let budget = tier.pick(Duration::from_secs(600), Duration::from_secs(3 * 3600));

    let spawn = |w: u64, from: u64| -> Child {
        limited(&exe, MEM_KB)
            .args(["worker", &prop, tier.name(), &root.to_string_lossy()])
            .args([w.to_string(), WORKERS.to_string(), from.to_string()])
            .arg(&base)
            .spawn()
            .expect("cannot start a worker")
    };
    let mut slots: Vec<Slot> = (0..WORKERS)
        .map(|w| Slot { child: Some(spawn(w, 0)), at: 0, since: Instant::now() })
        .collect();
    let mut fails: Vec<Value> = vec![];
    let mut error: Option<String> = None;
    let mut restarts = 0;
    'outer: while slots.iter().any(|s| s.child.is_some()) {
        std::thread::sleep(Duration::from_millis(20));
        if start.elapsed() > budget {
            error = Some("the exploration did not finish within its time budget".into());
            break;
        }
        for w in 0..WORKERS {
            let s = &mut slots[w as usize];
            let Some(child) = &mut s.child else { continue };
            let status = child.try_wait().unwrap();
            let at = read_progress(&base, w);
            if at != s.at {
                s.at = at;
                s.since = Instant::now();
            }
            let stuck = s.since.elapsed() > STUCK;
            match status {
                None if !stuck => continue,
                Some(st) if st.success() => {
                    s.child = None;
                    continue;
                }
                Some(st) if st.code() == Some(3) => {
                    s.child = None;
                    let f = fs::read_to_string(base.join(format!("fail{w}.json")))
                        .ok()
                        .and_then(|t| serde_json::from_str(&t).ok());
                    match f {
                        Some(v) => fails.push(v),
                        None => error = Some("a worker's report was lost".into()),
                    }
                    break 'outer;
                }
                _ => {}
            }
            // stuck, killed, or exited: is that the case it was at?
            let _ = child.kill();
            let _ = child.wait();
            s.child = None;
            match confirm(&exe, &prop, tier, &root, at, &base) {
                Some(m) => {
                    fails.push(json!({"property": prop, "tier": tier.name(), "case": at,
                        "space": "", "input": input_of(&exe, &prop, tier, &root, at), "message": m}));
                    break 'outer;
                }
                None => {
                    restarts += 1;
                    if restarts > 20 {
                        error = Some(format!("workers keep dying near case {at}: {}", describe(status)));
                        break 'outer;
                    }
                    s.child = Some(spawn(w, 0));
                    s.since = Instant::now();
                }
            }
        }
    }
    for s in &mut slots {
        if let Some(c) = &mut s.child {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    // workers stopped by another's violation may have found one as well
    for w in 0..WORKERS {
        if let Some(v) = fs::read_to_string(base.join(format!("fail{w}.json")))
            .ok()
            .and_then(|t| serde_json::from_str::<Value>(&t).ok())
        {
            fails.push(v);
        }
    }
    fails.sort_by_key(|f| f["case"].as_u64().unwrap_or(u64::MAX));

    let known = known_findings(&root);
    let mut spaces: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let (mut execs, mut total) = (0u64, 0u64);
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut known_hit: HashSet<u64> = HashSet::new();
    for w in 0..WORKERS {
        for l in fs::read_to_string(base.join(format!("done{w}.jsonl"))).unwrap_or_default().lines() {
            let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
            total = v["total"].as_u64().unwrap_or(0);
            execs += v["execs"].as_u64().unwrap_or(0);
            for (k, n) in v["spaces"].as_object().into_iter().flatten() {
                let e = spaces.entry(k.clone()).or_default();
                e.0 += n[0].as_u64().unwrap_or(0);
                e.1 += n[1].as_u64().unwrap_or(0);
            }
            for (k, n) in v["hits"].as_object().into_iter().flatten() {
                *hits.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
            }
            outcomes.extend(v["outcomes"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
            known_hit.extend(v["known"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
            samples.extend(v["samples"].as_array().into_iter().flatten().cloned());
        }
    }
    let _ = fs::remove_dir_all(&base);
    let states: u64 = spaces.values().map(|v| v.0).sum();
    let transitions: u64 = spaces.values().map(|v| v.1).sum();
    samples.sort_by_key(|s| s["case"].as_u64());
    samples.truncate(24);
    let complete = error.is_none() && fails.is_empty() && states == total && total > 0;
    let evidence = json!({
        "property": prop, "tier": tier.name(),
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": states, "transitions": transitions, "traces_validated_against_impl": execs,
            "samples": samples, "exhaustive": complete, "distinct_outcomes": outcomes.len(),
            "spaces": spaces.iter().map(|(k, v)| (k.clone(), json!({"states": v.0, "transitions": v.1}))).collect::<serde_json::Map<_, _>>(),
            "witnesses": hits,
        },
        "assumptions": ["exhaustive within the bounds that DESIGN.md states for this property and tier"],
        "violations": fails.len(),
        "wall_s": start.elapsed().as_secs_f64(),
    });
    let text = serde_json::to_string_pretty(&evidence).unwrap() + "\n";
    if fs::write(evid.join(format!("{prop}.json")), text).is_err() {
        eprintln!("cannot write the evidence file");
        return 2;
    }
    let mut ks: Vec<_> = known_hit.into_iter().collect();
    ks.sort();
    for k in ks {
        if let Some(k) = known.get(k as usize) {
            println!("KNOWN-FINDING: property={} {}", k.property, k.what);
        }
    }
    if let Some(f) = fails.first() {
        let _ = fs::write(&replay, serde_json::to_string_pretty(f).unwrap() + "\n");
        println!("input:\n{}", f["input"].as_str().unwrap_or("?"));
        println!("{}", f["message"].as_str().unwrap_or("?"));
        println!("VIOLATION property={prop} replay={}", replay.display());
        return 1;
    }
    if let Some(e) = error {
        eprintln!("ENGINE ERROR: {e}");
        return 2;
    }
    if !complete {
        eprintln!("ENGINE ERROR: {states} of {total} cases were executed");
        return 2;
    }
    println!(
        "held: property={prop} tier={} states={states} transitions={transitions} executions={execs} outcomes={} wall={:.1}s",
        tier.name(),
        outcomes.len(),
        start.elapsed().as_secs_f64()
    );
    0
}

/// The input of a case that cannot be executed without taking its process down.
fn input_of(exe: &Path, prop: &str, tier: Tier, root: &Path, idx: u64) -> String {
    let out = Command::new(exe)
        .args(["case", prop, tier.name(), &root.to_string_lossy(), &idx.to_string(), "show"])
        .output();
    out.map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default()
}

