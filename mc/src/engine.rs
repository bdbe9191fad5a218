//! Explicit enumeration engine.
//!
//! A property is a list of finite `Space`s. A space has a size and a function that
//! decodes an index into one execution (an input, a layout, an operation sequence ...),
//! runs it on the real code and compares it with the reference model. The engine runs
//! every index of every space (simplest space first, lowest index first) on all cores,
//! inside a child process, so that aborts, stack overflows and hangs of the code under
//! test are seen as well: the parent then re-runs the cases that were in flight one by
//! one and reports those that fail on their own.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;
const STACK: usize = 16 << 20;

#[derive(Debug, Clone)]
pub struct Violation {
    /// identifies the failing case (input, history); this is what known findings match on
    pub key: String,
    pub msg: String,
}

pub type Res = Result<(), Violation>;

pub fn viol<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation {
        key: key.into(),
        msg: msg.into(),
    })
}

/// Per thread statistics
#[derive(Default)]
pub struct Ctx {
    pub calls: u64,
    pub compared: u64,
    pub states: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
}

impl Ctx {
    /// Count operations executed on the real code
    pub fn call(&mut self, n: u64) {
        self.calls += n;
    }
    /// Count an execution whose outcome was compared with the reference model
    pub fn compared(&mut self) {
        self.compared += 1;
    }
    pub fn class(&mut self, c: &'static str) {
        *self.classes.entry(c).or_default() += 1;
    }
    /// Record an observed (canonical) state
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        if self.states.len() < 8_000_000 {
            self.states.insert(h.finish());
        }
    }
}

type Run = Box<dyn Fn(u64, &mut Ctx) -> Res + Send + Sync>;

pub struct Space {
    pub name: String,
    pub size: u64,
    pub run: Run,
    pub describe: Box<dyn Fn(u64) -> String + Send + Sync>,
}

impl Space {
    pub fn new(
        name: impl Into<String>,
        size: u64,
        describe: impl Fn(u64) -> String + Send + Sync + 'static,
        run: impl Fn(u64, &mut Ctx) -> Res + Send + Sync + 'static,
    ) -> Space {
        Space {
            name: name.into(),
            size,
            run: Box::new(run),
            describe: Box::new(describe),
        }
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub spaces: fn(thorough: bool) -> Vec<Space>,
}

/// Mixed radix decoder
pub struct Dec(pub u64);
impl Dec {
    pub fn pick(&mut self, n: usize) -> usize {
        let r = self.0 % n as u64;
        self.0 /= n as u64;
        r as usize
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.pick(xs.len())]
    }
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".to_string());
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
    }));
}

pub fn run_case(space: &Space, i: u64, ctx: &mut Ctx) -> Res {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (space.run)(i, ctx))) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow().clone());
            viol(
                format!("panic {}", (space.describe)(i)),
                format!("panic: {m}"),
            )
        }
    }
}

// ---------------------------------------------------------------------------------------
// shared memory slots: (space + 1, index, heartbeat) per thread
extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

pub struct Slots(*const AtomicU64);
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
impl Slots {
    pub fn open(path: &std::path::Path) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("slot file");
        f.set_len(4096).expect("slot file size");
        let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        Slots(p as *const AtomicU64)
    }
    fn at(&self, thread: usize, field: usize) -> &AtomicU64 {
        assert!(thread < THREADS && field < 8);
        unsafe { &*self.0.add(thread * 8 + field) }
    }
}

pub fn limit_memory(bytes: u64) {
    unsafe {
        setrlimit(9, &[bytes, bytes]);
    }
}

#[derive(Default)]
pub struct SpaceReport {
    pub name: String,
    pub size: u64,
    pub done: u64,
    pub classes: BTreeMap<&'static str, u64>,
    pub wall: f64,
}

#[derive(Default)]
pub struct Report {
    pub spaces: Vec<SpaceReport>,
    pub states: u64,
    pub calls: u64,
    pub compared: u64,
    pub samples: Vec<String>,
    pub violation: Option<(usize, u64, Violation)>,
    pub known: BTreeMap<String, u64>,
    pub exhaustive: bool,
}

pub fn explore(
    spaces: &[Space],
    known: &HashSet<String>,
    slots: Option<&Slots>,
    deadline: Instant,
) -> Report {
    let mut rep = Report {
        exhaustive: true,
        ..Default::default()
    };
    let slow_log = std::env::var("MC_SLOW").is_ok();
    let mut all_states: HashSet<u64> = HashSet::new();
    for (si, space) in spaces.iter().enumerate() {
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let min_fail = AtomicU64::new(u64::MAX);
        let fails: Mutex<BTreeMap<u64, Violation>> = Mutex::new(BTreeMap::new());
        let knowns: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
        let chunk = (space.size / (THREADS as u64 * 64)).clamp(1, 2048);
        let merged: Mutex<Vec<Ctx>> = Mutex::new(Vec::new());
        std::thread::scope(|sc| {
            for t in 0..THREADS {
                let (next, done, stop, min_fail, fails, knowns, merged) =
                    (&next, &done, &stop, &min_fail, &fails, &knowns, &merged);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, move || {
                        let mut ctx = Ctx::default();
                        let mut beat = 1u64;
                        loop {
                            let start = next.fetch_add(chunk, Ordering::Relaxed);
                            if start >= space.size || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if Instant::now() > deadline {
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                            let mut n = 0;
                            for i in start..(start + chunk).min(space.size) {
                                if i > min_fail.load(Ordering::Relaxed) {
                                    break;
                                }
                                if let Some(s) = slots {
                                    s.at(t, 1).store(i, Ordering::Relaxed);
                                    s.at(t, 0).store(si as u64 + 1, Ordering::Relaxed);
                                    beat += 1;
                                    s.at(t, 2).store(beat, Ordering::Relaxed);
                                }
                                let t1 = slow_log.then(Instant::now);
                                let res = run_case(space, i, &mut ctx);
                                if let Some(t1) = t1 {
                                    if t1.elapsed().as_secs_f64() > 0.5 {
                                        eprintln!("slow {:?} {} {i} {:.80}", t1.elapsed(), space.name, json_str(&(space.describe)(i)));
                                    }
                                }
                                if let Err(v) = res {
                                    if known.contains(&v.key) {
                                        *knowns.lock().unwrap().entry(v.key).or_default() += 1;
                                    } else {
                                        min_fail.fetch_min(i, Ordering::Relaxed);
                                        fails.lock().unwrap().insert(i, v);
                                    }
                                }
                                n += 1;
                            }
                            done.fetch_add(n, Ordering::Relaxed);
                        }
                        if let Some(s) = slots {
                            s.at(t, 0).store(0, Ordering::Relaxed);
                        }
                        merged.lock().unwrap().push(ctx);
                    })
                    .expect("thread");
            }
        });
        let mut sr = SpaceReport {
            name: space.name.clone(),
            size: space.size,
            done: done.load(Ordering::Relaxed),
            wall: t0.elapsed().as_secs_f64(),
            ..Default::default()
        };
        for c in merged.into_inner().unwrap() {
            rep.calls += c.calls;
            rep.compared += c.compared;
            all_states.extend(c.states);
            for (k, v) in c.classes {
                *sr.classes.entry(k).or_default() += v;
            }
        }
        for (k, v) in knowns.into_inner().unwrap() {
            *rep.known.entry(k).or_default() += v;
        }
        if sr.done < sr.size {
            rep.exhaustive = false;
        }
        if space.size > 0 && rep.samples.len() < 12 {
            rep.samples.push(format!(
                "{} #{}: {}",
                space.name,
                space.size / 3,
                (space.describe)(space.size / 3)
            ));
        }
        rep.spaces.push(sr);
        if let Some((i, v)) = fails.into_inner().unwrap().into_iter().next() {
            rep.violation = Some((si, i, v));
            rep.exhaustive = false;
            break;
        }
    }
    rep.states = all_states.len() as u64;
    rep
}

// ---------------------------------------------------------------------------------------
// command line

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "..".into()))
}

/// lines `finding: property=<id> key=<json string> what=<text>`
fn known_findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for line in text.lines() {
        let Some(rest) = line.strip_prefix(&format!("finding: property={id} key=")) else {
            continue;
        };
        let (k, what) = rest.split_once(" what=").unwrap_or((rest, ""));
        out.push((k.to_string(), what.to_string()));
    }
    out
}

struct Args {
    id: String,
    thorough: bool,
}

fn budget(thorough: bool) -> Duration {
    if thorough {
        Duration::from_secs(3 * 3600)
    } else {
        Duration::from_secs(240)
    }
}

fn write_evidence(a: &Args, p: &Property, rep: &Report, wall: f64, violations: u64) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse::<i64>().ok())
        .unwrap_or(1);
    let spaces: Vec<String> = rep
        .spaces
        .iter()
        .map(|s| {
            let classes: Vec<String> = s
                .classes
                .iter()
                .map(|(k, v)| format!("{}: {}", json_str(k), v))
                .collect();
            format!(
                "{{\"name\": {}, \"size\": {}, \"completed\": {}, \"outcomes\": {{{}}}, \"wall_s\": {:.2}}}",
                json_str(&s.name),
                s.size,
                s.done,
                classes.join(", "),
                s.wall
            )
        })
        .collect();
    let known: Vec<String> = rep
        .known
        .iter()
        .map(|(k, v)| format!("{}: {}", json_str(k), v))
        .collect();
    let strs = |v: &[String]| {
        v.iter()
            .map(|s| json_str(s))
            .collect::<Vec<_>>()
            .join(", ")
    };
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| s.to_string()).collect();
    let out = format!(
        "{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {},\n\"level\": \"model_checking\",\n\"coverage\": {{\n\"evaluations\": {},\n\"states\": {},\n\"transitions\": {},\n\"traces_validated_against_impl\": {},\n\"exhaustive\": {},\n\"rule\": {},\n\"spaces\": [\n{}\n],\n\"known_findings_hit\": {{{}}},\n\"samples\": [{}]\n}},\n\"assumptions\": [{}],\n\"wall_s\": {:.2},\n\"violations\": {}\n}}\n",
        json_str(&a.id),
        json_str(if a.thorough { "thorough" } else { "quick" }),
        seed,
        rep.spaces.iter().map(|s| s.done).sum::<u64>(),
        rep.states,
        rep.calls,
        rep.compared,
        rep.exhaustive,
        json_str(p.rule),
        spaces.join(",\n"),
        known.join(", "),
        strs(&rep.samples),
        strs(&assumptions),
        wall,
        violations,
    );
    std::fs::write(dir.join(format!("{}.json", a.id)), out).expect("evidence");
}

fn report_violation(a: &Args, space: &str, si: usize, i: u64, desc: &str, v: &Violation) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.replay.txt", a.id));
    let tier = if a.thorough { "thorough" } else { "quick" };
    let text = format!(
        "property {}\ntier {}\nspace {} {}\nindex {}\ncase {}\nkey {}\nwhat {}\n\nreplay: ./check.sh {} {} --replay {}\n",
        a.id, tier, si, space, i, json_str(desc), json_str(&v.key), v.msg, a.id, tier, path.display()
    );
    let _ = std::fs::write(&path, text);
    println!("space {space} index {i}");
    println!("case  {}", json_str(desc));
    println!("key   {}", json_str(&v.key));
    for l in v.msg.lines() {
        println!("      {l}");
    }
    println!("VIOLATION property={} replay={}", a.id, path.display());
}

pub fn main(props: &[Property]) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mode = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let id = args.get(2).cloned().unwrap_or_default();
    let thorough = args.get(3).map(|s| s == "thorough").unwrap_or(false);
    let a = Args { id, thorough };
    let Some(p) = props.iter().find(|p| p.id == a.id) else {
        eprintln!("unknown property {:?}", a.id);
        return 2;
    };
    match mode {
        "run" => parent(&a, p),
        "child" => {
            quiet_panics();
            limit_memory(20 << 30);
            let slots = Slots::open(std::path::Path::new(&args[4]));
            let t0 = Instant::now();
            let spaces = (p.spaces)(a.thorough);
            let known: HashSet<String> = known_findings(&a.id)
                .into_iter()
                .map(|(k, _)| k)
                .collect();
            // keys in the file are json strings; compare in that form
            let rep = explore_json(&spaces, &known, &slots, t0 + budget(a.thorough));
            for s in &rep.spaces {
                println!(
                    "space {:<46} {:>10}/{:<10} {:>7.2}s {:?}",
                    s.name, s.done, s.size, s.wall, s.classes
                );
            }
            println!(
                "states={} transitions={} traces_compared={} exhaustive={} wall={:.1}s",
                rep.states,
                rep.calls,
                rep.compared,
                rep.exhaustive,
                t0.elapsed().as_secs_f64()
            );
            let n = rep.violation.is_some() as u64;
            write_evidence(&a, p, &rep, t0.elapsed().as_secs_f64(), n);
            for (k, what) in known_findings(&a.id) {
                println!("KNOWN-FINDING: property={} {} {}", a.id, k, what);
            }
            if let Some((si, i, v)) = &rep.violation {
                let s = &spaces[*si];
                report_violation(&a, &s.name, *si, *i, &(s.describe)(*i), v);
                return 1;
            }
            0
        }
        "one" => {
            // run a single case: one <id> <tier> <space> <index>
            quiet_panics();
            limit_memory(8 << 30);
            let si: usize = args[4].parse().unwrap();
            let i: u64 = args[5].parse().unwrap();
            let spaces = (p.spaces)(a.thorough);
            let s = &spaces[si];
            println!("case {}", json_str(&(s.describe)(i)));
            let r = std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, || run_case(s, i, &mut Ctx::default()))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            match r {
                Ok(()) => 0,
                Err(v) => {
                    report_violation(&a, &s.name, si, i, &(s.describe)(i), &v);
                    1
                }
            }
        }
        _ => {
            eprintln!("usage: mc run|child|one <property> quick|thorough");
            2
        }
    }
}

fn explore_json(
    spaces: &[Space],
    known: &HashSet<String>,
    slots: &Slots,
    deadline: Instant,
) -> Report {
    let unescaped: HashSet<String> = known.iter().map(|k| unjson(k)).collect();
    explore(spaces, &unescaped, Some(slots), deadline)
}

pub fn unjson(s: &str) -> String {
    let s = s.trim();
    let inner = s
        .strip_prefix('"')
        .and_then(|x| x.strip_suffix('"'))
        .unwrap_or(s);
    let mut o = String::new();
    let mut it = inner.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('t') => o.push('\t'),
            Some('r') => o.push('\r'),
            Some('u') => {
                let h: String = it.by_ref().take(4).collect();
                o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap_or(63)).unwrap_or('?'))
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}

enum End {
    Code(i32),
    Died(String),
    Hung(Vec<(usize, u64)>),
}

fn wait_child(mut child: std::process::Child, slots: &Slots, limit: Duration) -> End {
    let t0 = Instant::now();
    let mut last = [(0u64, 0u64, 0u64); THREADS];
    let mut since = [Instant::now(); THREADS];
    loop {
        if let Some(st) = child.try_wait().expect("wait") {
            return match st.code() {
                Some(c) if c == 0 || c == 1 || c == 2 => End::Code(c),
                _ => End::Died(format!("{st}")),
            };
        }
        std::thread::sleep(Duration::from_millis(20));
        let mut hung = Vec::new();
        for t in 0..THREADS {
            let cur = (
                slots.at(t, 0).load(Ordering::Relaxed),
                slots.at(t, 1).load(Ordering::Relaxed),
                slots.at(t, 2).load(Ordering::Relaxed),
            );
            if cur != last[t] || cur.0 == 0 {
                last[t] = cur;
                since[t] = Instant::now();
            } else if since[t].elapsed() > Duration::from_secs(40) {
                hung.push((cur.0 as usize - 1, cur.1));
            }
        }
        if !hung.is_empty() || t0.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return End::Hung(hung);
        }
    }
}

fn parent(a: &Args, p: &Property) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let tier = if a.thorough { "thorough" } else { "quick" };
    let slot_path = std::env::temp_dir().join(format!("mc-slots-{}-{}", a.id, std::process::id()));
    let slots = Slots::open(&slot_path);
    let t0 = Instant::now();
    let child = std::process::Command::new(&exe)
        .args(["child", &a.id, tier])
        .arg(&slot_path)
        .spawn()
        .expect("child");
    let end = wait_child(child, &slots, budget(a.thorough) + Duration::from_secs(200));
    let cases: Vec<(usize, u64)> = (0..THREADS)
        .map(|t| {
            (
                slots.at(t, 0).load(Ordering::Relaxed),
                slots.at(t, 1).load(Ordering::Relaxed),
            )
        })
        .filter(|c| c.0 > 0)
        .map(|(s, i)| (s as usize - 1, i))
        .collect();
    let _ = std::fs::remove_file(&slot_path);
    let (what, mut suspects) = match end {
        End::Code(c) => return c,
        End::Died(s) => (format!("the process died ({s})"), cases),
        End::Hung(h) => ("an execution did not finish".to_string(), h),
    };
    println!("{what}; re-running the cases that were in flight");
    suspects.sort();
    let spaces = (p.spaces)(a.thorough);
    for (si, i) in suspects {
        let mut one = std::process::Command::new(&exe)
            .args(["one", &a.id, tier, &si.to_string(), &i.to_string()])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn()
            .expect("one");
        let t1 = Instant::now();
        let verdict = loop {
            if let Some(st) = one.try_wait().expect("wait") {
                break match st.code() {
                    Some(0) => None,
                    Some(1) => Some("the case fails".to_string()),
                    _ => Some(format!("the code under test kills the process: {st}")),
                };
            }
            if t1.elapsed() > Duration::from_secs(60) {
                let _ = one.kill();
                let _ = one.wait();
                break Some("does not terminate within 60 s".to_string());
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        if let Some(msg) = verdict {
            let s = &spaces[si];
            let desc = (s.describe)(i);
            let rep = Report {
                spaces: vec![SpaceReport {
                    name: s.name.clone(),
                    size: s.size,
                    ..Default::default()
                }],
                samples: vec![desc.clone()],
                ..Default::default()
            };
            write_evidence(a, p, &rep, t0.elapsed().as_secs_f64(), 1);
            report_violation(
                a,
                &s.name,
                si,
                i,
                &desc,
                &Violation {
                    key: format!("crash {desc}"),
                    msg,
                },
            );
            let _ = std::io::stdout().flush();
            return 1;
        }
    }
    println!("none of them fails on its own: no verdict");
    3
}
