//! Calls that never return or that take the whole process down: each worker
//! notes the case it is in, a watchdog reports cases that take far too long, and
//! the checker runs under a parent that finds the case in which it was killed.

use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
}

static OUT: OnceLock<Mutex<std::fs::File>> = OnceLock::new();

/// the library prints notices; keep them apart from the checker's own lines
pub fn silence() {
    use std::os::unix::io::{AsRawFd, FromRawFd};
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
    unsafe {
        let own = dup(1);
        let _ = OUT.set(Mutex::new(std::fs::File::from_raw_fd(own)));
        dup2(null.as_raw_fd(), 1);
    }
}

/// a line on the real standard output
pub fn say(s: &str) {
    match OUT.get() {
        Some(f) => {
            let _ = f.lock().unwrap().write_all(format!("{}\n", s).as_bytes());
        }
        None => println!("{}", s),
    }
}

const LIMIT: Duration = Duration::from_secs(30);

type Slot = Arc<Mutex<Option<(Instant, String)>>>;
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(vec![]);
static TRACE: OnceLock<Option<PathBuf>> = OnceLock::new();

thread_local! {
    static MINE: (Slot, usize) = {
        let s: Slot = Arc::new(Mutex::new(None));
        let mut all = SLOTS.lock().unwrap();
        all.push(s.clone());
        (s, all.len())
    };
}

pub fn enter(label: &str) {
    MINE.with(|(s, n)| {
        *s.lock().unwrap() = Some((Instant::now(), label.to_string()));
        if let Some(Some(dir)) = TRACE.get() {
            let _ = std::fs::write(dir.join(n.to_string()), label);
        }
    })
}

pub fn leave() {
    MINE.with(|(s, n)| {
        *s.lock().unwrap() = None;
        if let Some(Some(dir)) = TRACE.get() {
            let _ = std::fs::write(dir.join(n.to_string()), "");
        }
    })
}

pub fn report(root: &Path, id: &str, key: &str, case: &str, detail: &str) {
    let _ = std::fs::create_dir_all(root.join("replay"));
    let path = root.join("replay").join(format!("{}-{}.txt", id, key));
    let body = format!(
        "property: {}\nkind: {}\ncase: {}\nreplay: bash check.sh {} --case '{}'\n\n{}\n",
        id,
        key,
        case,
        id,
        case.replace('\'', "'\\''"),
        detail
    );
    if let Err(e) = std::fs::write(&path, body) {
        eprintln!("cannot write {}: {}", path.display(), e);
    }
    say(&format!("VIOLATION property={} replay={}", id, path.display()));
    eprintln!("  [{}] case {}\n{}", key, case, detail);
}

/// in the worker process: end it when a case does not come back
pub fn start(root: PathBuf, id: String) {
    let _ = TRACE.set(std::env::var_os("MC_TRACE").map(PathBuf::from));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let slots: Vec<Slot> = SLOTS.lock().unwrap().clone();
        for s in slots {
            let late = match *s.lock().unwrap() {
                Some((t, ref l)) if t.elapsed() > LIMIT => Some(l.clone()),
                _ => None,
            };
            if let Some(l) = late {
                report(&root, &id, "hang", &l, &format!("the call did not return within {} s", LIMIT.as_secs()));
                std::process::exit(1);
            }
        }
    });
}

fn child(trace: Option<&Path>) -> std::process::ExitStatus {
    let exe = std::env::current_exe().expect("own path");
    let mut c = std::process::Command::new(exe);
    c.args(std::env::args_os().skip(1)).env("MC_CHILD", "1");
    if let Some(t) = trace {
        c.env("MC_TRACE", t).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    }
    c.status().expect("worker process")
}

/// true for deaths that the code under test causes (stack exhausted, abort)
fn crashed(s: &std::process::ExitStatus) -> bool {
    matches!(s.signal(), Some(4) | Some(6) | Some(7) | Some(8) | Some(11))
}

/// in the parent: run the worker, return the exit code
pub fn supervise(root: &Path, id: &str) -> i32 {
    let s = child(None);
    if let Some(c) = s.code() {
        return c;
    }
    if !crashed(&s) {
        eprintln!("the worker was ended by signal {:?}", s.signal());
        return 2;
    }
    // once more, noting the case each thread is in
    let dir = root.join("replay").join(format!("trace-{}", id));
    let _ = std::fs::remove_dir_all(&dir);
    if let Err(e) = std::fs::create_dir_all(&dir) {
        eprintln!("cannot create {}: {}", dir.display(), e);
        return 2;
    }
    let s2 = child(Some(&dir));
    let mut labels = vec![];
    if let Ok(d) = std::fs::read_dir(&dir) {
        for e in d.flatten() {
            if let Ok(l) = std::fs::read_to_string(e.path()) {
                if !l.is_empty() {
                    labels.push(l)
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    labels.sort();
    if !crashed(&s2) || labels.is_empty() {
        eprintln!("the worker was ended by signal {:?}, but not when run again", s.signal());
        return 2;
    }
    // of the cases that were under way, the one that crashes by itself
    let exe = std::env::current_exe().expect("own path");
    let guilty = labels.iter().find(|l| {
        std::process::Command::new(&exe)
            .args(std::env::args_os().skip(1))
            .arg("--case")
            .arg(l)
            .env("MC_CHILD", "1")
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .map(|s| crashed(&s))
            .unwrap_or(false)
    });
    let case = guilty.unwrap_or(&labels[0]);
    report(root, id, "crash", case, &format!("the call took the process down (signal {})", s.signal().unwrap_or(0)));
    1
}
