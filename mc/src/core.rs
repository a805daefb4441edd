//! Bookkeeping shared by all checks: what was explored, what was found, and
//! the evidence and replay files.

use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub key: String,
    pub case: String,
    pub detail: String,
}

/// One exploration: counters, distinct states, outcomes and findings.
pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    /// run only the case with this label (replay)
    pub only: Option<String>,
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub viol_count: u64,
    pub assumptions: Vec<String>,
    pub capped: bool,
    last_sample_kind: HashSet<String>,
}

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

thread_local! {
    static QUIET: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) {
            old(i)
        }
    }));
}

/// Run `f`, turning a panic into `Err(message)`.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let prev = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(prev));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }
    })
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, only: Option<String>) -> Ctx {
        Ctx {
            id: id.into(),
            tier,
            only,
            states: HashSet::new(),
            transitions: 0,
            traces: 0,
            outcomes: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            viol_count: 0,
            assumptions: vec![],
            capped: false,
            last_sample_kind: HashSet::new(),
        }
    }
    pub fn fork(&self) -> Ctx {
        Ctx::new(&self.id, self.tier, self.only.clone())
    }
    pub fn merge(&mut self, o: Ctx) {
        self.states.extend(o.states);
        self.transitions += o.transitions;
        self.traces += o.traces;
        for (k, n) in o.outcomes {
            *self.outcomes.entry(k).or_insert(0) += n;
        }
        for s in o.samples {
            if self.samples.len() < 8 {
                self.samples.push(s)
            }
        }
        self.violations.extend(o.violations);
        self.viol_count += o.viol_count;
        self.capped |= o.capped;
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// note a reached state, returns true when it is new
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) -> bool {
        self.states.insert(hash64(t))
    }
    pub fn step(&mut self) {
        self.transitions += 1
    }
    pub fn outcome(&mut self, s: &str) {
        if let Some(n) = self.outcomes.get_mut(s) {
            *n += 1
        } else {
            self.outcomes.insert(s.to_string(), 1);
        }
    }
    /// keep one written-out sample per kind
    pub fn sample(&mut self, kind: &str, s: impl FnOnce() -> String) {
        if self.samples.len() < 8 && self.last_sample_kind.insert(kind.to_string()) {
            let mut t = format!("{}: {}", kind, s());
            if t.len() > 1500 {
                let mut n = 1500;
                while !t.is_char_boundary(n) {
                    n -= 1
                }
                t.truncate(n);
                t.push_str("...");
            }
            self.samples.push(t)
        }
    }
    /// false when replaying and `case` is not the one asked for
    pub fn wants(&self, case: &str) -> bool {
        match self.only {
            None => true,
            Some(ref o) => o == case,
        }
    }
    /// `key` identifies the defect, `case` the failing input
    pub fn violation(&mut self, key: &str, case: &str, detail: String) {
        self.viol_count += 1;
        if std::env::var_os("MC_FIRST").is_some() {
            println!("VIOLATION property={} [{}] {}\n{}", self.id, key, case, detail);
            std::process::exit(1);
        }
        // keep the first few of each key
        let n = self.violations.iter().filter(|v| v.key == key).count();
        if n < 3 {
            self.violations.push(Violation {
                key: key.into(),
                case: case.into(),
                detail,
            });
        }
    }
    /// run one conformance case: `f` returns Err((key, detail)) on disagreement
    pub fn case(&mut self, label: &str, f: impl FnOnce() -> Result<String, (String, String)>) {
        if !self.wants(label) {
            return;
        }
        self.traces += 1;
        crate::watch::enter(label);
        let r = guarded(f);
        crate::watch::leave();
        match r {
            Ok(Ok(o)) => self.outcome(&o),
            Ok(Err((k, d))) => {
                self.outcome("violation");
                self.violation(&k, label, d)
            }
            Err(p) => {
                self.outcome("panic");
                self.violation("panic", label, format!("the call panicked: {}", p))
            }
        }
    }
}

/// Run `work(shard_ctx, shard, shards)` on all cores and merge.
pub fn parallel(ctx: &mut Ctx, work: impl Fn(&mut Ctx, usize, usize) + Sync) {
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let forks: Vec<Ctx> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let mut c = ctx.fork();
                let w = &work;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        w(&mut c, i, n);
                        c
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker failed")).collect()
    });
    for f in forks {
        ctx.merge(f)
    }
}

/// All vectors below `dims` that differ from all-zero in at most `k` places.
pub fn deviations(dims: &[usize], k: usize) -> Vec<Vec<usize>> {
    fn go(dims: &[usize], from: usize, k: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(cur.clone());
        if k == 0 {
            return;
        }
        for i in from..dims.len() {
            for v in 1..dims[i] {
                cur[i] = v;
                go(dims, i + 1, k - 1, cur, out);
                cur[i] = 0;
            }
        }
    }
    let mut out = vec![];
    go(dims, 0, k, &mut vec![0; dims.len()], &mut out);
    out
}

/// All vectors below `dims`.
pub fn product(dims: &[usize]) -> Vec<Vec<usize>> {
    deviations(dims, dims.len())
}

/// All sequences over 0..n of length 0..=max.
pub fn sequences(n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for i in 0..n {
                let mut t: Vec<usize> = s.clone();
                t.push(i);
                next.push(t)
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Known {
    pub property: String,
    pub key: String,
    pub what: String,
}

/// known_findings.txt: lines `known: property=<id> key=<key> <what>`
pub fn load_known(root: &PathBuf) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for l in s.lines() {
            if !l.starts_with("known: ") {
                continue;
            }
            let mut it = l["known: ".len()..].splitn(3, ' ');
            let p = it.next().unwrap_or("").trim_start_matches("property=");
            let k = it.next().unwrap_or("").trim_start_matches("key=");
            let w = it.next().unwrap_or("");
            v.push(Known {
                property: p.into(),
                key: k.into(),
                what: w.into(),
            })
        }
    }
    v
}

pub struct Report<'a> {
    pub level: &'a str,
    pub rule: &'a str,
    pub started: Instant,
}

/// Write evidence, print findings, return the exit code.
pub fn finish(ctx: &Ctx, rep: &Report, root: &PathBuf) -> i32 {
    let known = load_known(root);
    let mut code = 0;
    let mut unknown = 0;
    let mut known_seen: Vec<String> = vec![];
    let _ = std::fs::create_dir_all(root.join("replay"));
    for v in &ctx.violations {
        if let Some(k) = known.iter().find(|k| k.property == ctx.id && k.key == v.key) {
            if !known_seen.contains(&k.key) {
                known_seen.push(k.key.clone());
                crate::watch::say(&format!("KNOWN-FINDING: property={} {}", ctx.id, k.what));
            }
            continue;
        }
        unknown += 1;
        code = 1;
        let path = root.join("replay").join(format!("{}-{}.txt", ctx.id, unknown));
        let body = format!(
            "property: {}\nkind: {}\ncase: {}\nreplay: bash check.sh {} --case '{}'\n\n{}\n",
            ctx.id,
            v.key,
            v.case,
            ctx.id,
            v.case.replace('\'', "'\\''"),
            v.detail
        );
        if let Err(e) = std::fs::write(&path, body) {
            eprintln!("cannot write {}: {}", path.display(), e);
        }
        crate::watch::say(&format!("VIOLATION property={} replay={}", ctx.id, path.display()));
        eprintln!("  [{}] case {}\n{}", v.key, v.case, v.detail);
    }
    let tier = if ctx.thorough() { "thorough" } else { "quick" };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let outcomes: Vec<String> = ctx.outcomes.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect();
    let samples: Vec<String> = ctx.samples.iter().map(|s| js(s)).collect();
    let assumptions: Vec<String> = ctx.assumptions.iter().map(|s| js(s)).collect();
    let counts = if rep.level == "model_checking" {
        format!(
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{}",
            ctx.states.len(),
            ctx.transitions,
            ctx.traces
        )
    } else {
        format!(
            "\"evaluations\":{},\"distinct_nontrivial\":{}",
            ctx.transitions,
            ctx.states.len()
        )
    };
    let wall = rep.started.elapsed().as_secs_f64();
    let ev = format!(
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"{}\",\"coverage\":{{{},\"rule\":{},\"exhaustive\":{},\"outcomes\":{{{}}},\"known_findings_seen\":{},\"samples\":[{}]}},\"assumptions\":[{}],\"violations\":{},\"wall_s\":{:.3}}}\n",
        js(&ctx.id),
        tier,
        seed,
        rep.level,
        counts,
        js(rep.rule),
        !ctx.capped,
        outcomes.join(","),
        known_seen.len(),
        samples.join(","),
        assumptions.join(","),
        unknown,
        wall
    );
    let _ = std::fs::create_dir_all(root.join("evidence"));
    if ctx.only.is_none() {
        if let Err(e) = std::fs::write(root.join("evidence").join(format!("{}.json", ctx.id)), ev) {
            eprintln!("cannot write evidence: {}", e);
            return 2;
        }
    }
    crate::watch::say(&format!(
        "{} {}: states={} transitions={} cases={} outcomes={:?} findings={} ({:.1} s)",
        ctx.id,
        tier,
        ctx.states.len(),
        ctx.transitions,
        ctx.traces,
        ctx.outcomes,
        ctx.viol_count,
        wall
    ));
    if ctx.traces == 0 {
        eprintln!("nothing was explored");
        return 3;
    }
    code
}

/// a directory below the build folder, removed at the end
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(id: &str) -> Scratch {
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| ".".into()));
        let dir = root.join("target").join("scratch").join(format!("{}-{}", id, std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("scratch directory");
        Scratch(dir.canonicalize().expect("scratch directory"))
    }
    pub fn sub(&self, name: &str) -> PathBuf {
        let d = self.0.join(name);
        std::fs::create_dir_all(&d).expect("scratch directory");
        d
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// name and content of everything below a directory
pub fn snapshot(dir: &std::path::Path) -> BTreeMap<String, Vec<u8>> {
    let mut out = BTreeMap::new();
    fn go(dir: &std::path::Path, pre: &str, out: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(dir).expect("scratch directory").flatten() {
            let name = format!("{}/{}", pre, e.file_name().to_string_lossy());
            let t = e.file_type().expect("file type");
            if t.is_dir() {
                go(&e.path(), &name, out);
                out.insert(name, b"<dir>".to_vec());
            } else if t.is_symlink() {
                let l = std::fs::read_link(e.path()).expect("link");
                out.insert(name, format!("-> {}", l.display()).into_bytes());
            } else {
                out.insert(name, std::fs::read(e.path()).expect("file"));
            }
        }
    }
    go(dir, "", &mut out);
    out
}
