use crate::c06::R;
use crate::c08;
use crate::c12;
use crate::c13;
use crate::core::*;
use crate::shape;
use crate::sx;
use kicad_parse_gen as k;
use kicad_parse_gen::checkfix::{CheckFix, CheckFixData, Config};
use kicad_parse_gen::Adjust;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

const TOOLS: [&str; 6] = ["dump_footprint", "dump_layout", "adjust_layout", "identify", "klc_kicad_mod", "klc_symbol_lib"];

fn tool(name: &str) -> PathBuf {
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| ".".into()));
    root.join("target/tools/release").join(name)
}

/// what a tool is to print
enum Want {
    /// on standard output
    Print(String),
    /// the findings, logged line by line: a heading, or a finding and whether it is a hint
    Log(Vec<(bool, String)>),
    Fail,
}

fn lines(d: &CheckFixData, out: &mut Vec<(bool, String)>) {
    match *d {
        CheckFixData::Item(ref i) => out.push((i.info, format!("{}.{} {}:{}", i.section, i.rule, i.item, i.message))),
        CheckFixData::More(ref m) => {
            for d in m {
                lines(d, out)
            }
        }
    }
}

fn want(name: &str, p: &Path) -> Want {
    let p = p.to_path_buf();
    fn of<E>(r: Result<Want, E>) -> Want {
        r.unwrap_or(Want::Fail)
    }
    let config = Config::klc();
    match name {
        "dump_footprint" => of(k::read_module(&p).and_then(|m| Ok(Want::Print(format!("{}\n{}\n", m.name, k::footprint::module_to_string(&m, 0)?))))),
        "dump_layout" => of(k::read_layout(&p).and_then(|m| Ok(Want::Print(format!("{}\n", k::layout::layout_to_string(&m, 0)?))))),
        "adjust_layout" => of(k::read_layout(&p).and_then(|mut m| {
            m.adjust(100.0, 0.0);
            Ok(Want::Print(format!("{}\n", k::layout::layout_to_string(&m, 0)?)))
        })),
        "identify" => of(k::read_kicad_file(&p, k::Expected::Any).map(|f| Want::Print(format!("found: {}\n", f)))),
        "klc_kicad_mod" => of(k::read_module(&p).map(|m| {
            let mut v = vec![];
            for d in m.check(&config) {
                lines(&d, &mut v)
            }
            if !v.is_empty() {
                v.insert(0, (true, format!("Module {}", m.name)));
            }
            Want::Log(v)
        })),
        _ => of(k::read_symbol_lib(&p).map(|l| {
            let mut all = vec![];
            for s in &l.symbols {
                let mut v = vec![];
                for d in s.check(&config) {
                    lines(&d, &mut v)
                }
                if !v.is_empty() {
                    all.push((true, format!("Symbol {}", s.name)));
                    all.extend(v);
                }
            }
            Want::Log(all)
        })),
    }
}

/// the headings and findings of a log
fn logged(err: &str) -> Vec<(bool, String)> {
    let mut v = vec![];
    for l in err.lines() {
        let info = l.starts_with("INFO:");
        if !info && !l.starts_with("WARN:") {
            continue;
        }
        if let Some(i) = l.find(": ") {
            let m = l[i + 2..].trim_start();
            let rule = m.split(' ').next().unwrap_or("");
            let numbered = rule.split('.').count() == 2 && rule.split('.').all(|w| !w.is_empty() && w.chars().all(|c| c.is_ascii_digit()));
            if numbered || m.starts_with("Module ") || m.starts_with("Symbol ") {
                v.push((info, m.to_string()))
            }
        }
    }
    v
}

static RUNS: AtomicU64 = AtomicU64::new(0);

fn call(name: &str, args: &[&Path], dir: &Path, out: Stdio) -> Result<(Option<i32>, String, String), (String, String)> {
    RUNS.fetch_add(1, Ordering::Relaxed);
    let o = Command::new(tool(name))
        .args(args)
        .current_dir(dir)
        .env_remove("RUST_LOG")
        .env_remove("RUST_BACKTRACE")
        .stdin(Stdio::null())
        .stdout(out)
        .stderr(Stdio::piped())
        .spawn()
        .and_then(|c| c.wait_with_output())
        .map_err(|e| bad("tool", format!("{} can not be started: {}", name, e)))?;
    Ok((o.status.code(), String::from_utf8_lossy(&o.stdout).into(), String::from_utf8_lossy(&o.stderr).into()))
}

/// run a tool on a file; kind is what the file is known to be
fn check(name: &str, path: &Path, dir: &Path, kind: Option<R>) -> Result<String, (String, String)> {
    let before = snapshot(dir);
    let want = want(name, path);
    let (code, out, err) = call(name, &[path], dir, Stdio::piped())?;
    let show = |what: &str| format!("{} of {}: exit {:?}, {}\nstdout: {}\nstderr: {}\ninput: {}", name, path.display(), code, what, out, err, std::fs::read_to_string(path).unwrap_or_default());
    if snapshot(dir) != before {
        return Err(bad("changed", show("changed its files")));
    }
    let r = match want {
        Want::Fail => {
            if code == Some(0) || code.is_none() {
                return Err(bad("accepted", show("for a file that can not be read")));
            }
            if !out.is_empty() || err.is_empty() {
                return Err(bad("report", show("for a file that can not be read")));
            }
            "failed"
        }
        Want::Print(s) => {
            if code != Some(0) {
                return Err(bad("status", show("for a readable file")));
            }
            if out != s {
                return Err(bad("printed", show(&format!("instead of {}", s))));
            }
            "printed"
        }
        Want::Log(v) => {
            if code != Some(0) {
                return Err(bad("status", show("for a readable file")));
            }
            let got = logged(&err);
            if got != v || !out.is_empty() {
                return Err(bad("findings", show(&format!("instead of {:?}", v))));
            }
            if v.is_empty() {
                "no findings"
            } else {
                "findings"
            }
        }
    };
    // independently of the library: a valid file of the right kind is accepted, one of another kind is not
    if let Some(kind) = kind {
        let takes = match name {
            "dump_footprint" | "klc_kicad_mod" => kind == R::Footprint,
            "dump_layout" | "adjust_layout" => kind == R::Layout,
            "klc_symbol_lib" => kind == R::SymbolLib,
            _ => true,
        };
        if takes == (r == "failed") {
            return Err(bad("kind", show("for this kind of file")));
        }
        if name == "identify" {
            let word = match kind {
                R::Footprint => "module",
                R::Layout => "layout",
                R::Schematic => "schematic",
                R::SymbolLib => "symbollib",
                R::Table => "fp-lib-table",
                R::Project => "project",
            };
            if out != format!("found: {}\n", word) {
                return Err(bad("identified", show(word)));
            }
        }
    }
    // nothing is lost silently when the result can not be printed
    if r == "printed" {
        if let Ok(full) = std::fs::OpenOptions::new().write(true).open("/dev/full") {
            let (code, _, err) = call(name, &[path], dir, Stdio::from(full))?;
            if code == Some(0) || err.is_empty() {
                return Err(bad("unprinted", format!("{} of {}: exit {:?} though the output was full; {}", name, path.display(), code, err)));
            }
        }
    }
    Ok(format!("{} {}", name, r))
}

fn visit(c: &mut Ctx, label: &str, path: &Path, dir: &Path, kind: Option<R>) {
    for t in TOOLS {
        if c.state(&(label, t)) {
            c.case(&format!("{}:{}", t, label), || check(t, path, dir, kind))
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough();
    let scratch = Scratch::new("C22");
    let mut files: Vec<(String, Option<R>, Vec<u8>)> = vec![];
    for (r, name, text) in c08::texts() {
        files.push((format!("{:?}:{}", r, name), Some(r), text.into_bytes()));
    }
    for d in deviations(&c12::dims(), if t { 2 } else { 1 }) {
        files.push((format!("conventions:{:?}", d), Some(R::Footprint), c12::module(&d, false).text().into_bytes()));
    }
    for (i, l) in c13::libraries(if t { 3 } else { 2 }).into_iter().enumerate() {
        files.push((format!("symbols{}", i), Some(R::SymbolLib), l.into_bytes()));
    }
    // names of every form, in a file that has findings and in one that has few
    for (i, w) in shape::texts("\"\\").into_iter().enumerate() {
        let x = sx::l("module", vec![sx::a(&w[..]), sx::l1("layer", sx::a("F.Cu")), sx::l1("descr", sx::a(&w[..]))]);
        files.push((format!("named{}", i), Some(R::Footprint), x.text().into_bytes()));
    }
    for (i, w) in shape::texts(" \"\\~\u{a0}").into_iter().filter(|w| !w.is_empty() && !w.starts_with('#')).enumerate() {
        let l = format!("EESchema-LIBRARY Version 2.3\n#encoding utf-8\n#\n# {0}\n#\nDEF {0} U 0 40 Y Y 1 F N\nF0 \"U\" 0 100 50 H V C CNN\nF1 \"{0}\" 0 -100 50 H V C CNN\nF2 \"\" 0 0 50 H I C CNN\nF3 \"\" 0 0 50 H I C CNN\nDRAW\nX A 1 0 0 100 R 50 50 1 1 I\nENDDRAW\nENDDEF\n#\n#End Library\n", w);
        files.push((format!("called{}", i), Some(R::SymbolLib), l.into_bytes()));
    }
    // damaged files: every kind cut short at every byte, with a byte removed, and foreign content
    let mut seen: Vec<R> = vec![];
    let mut hurt = vec![];
    for (name, r, text) in &files {
        let r = r.unwrap();
        if seen.iter().filter(|&&s| s == r).count() >= if t { 3 } else { 1 } || text.len() > 3000 {
            continue;
        }
        seen.push(r);
        for i in 0..text.len() {
            hurt.push((format!("cut{}:{}", i, name), None, text[..i].to_vec()));
            let mut v = text.clone();
            v.remove(i);
            hurt.push((format!("gap{}:{}", i, name), None, v));
        }
    }
    files.extend(hurt);
    for (i, b) in [&b""[..], b"\n", b"\xff\xfe", b"(module m", b"{}", b"\0\0\0\0", b"(module)", b"(kicad_pcb)", b"update", b"\xef\xbb\xbf(module m (layer F.Cu))"].iter().enumerate() {
        files.push((format!("foreign{}", i), None, b.to_vec()));
    }
    parallel(ctx, |c, shard, of| {
        let dir = scratch.sub(&format!("{}", shard));
        for (i, (name, r, text)) in files.iter().enumerate() {
            if i % of != shard || TOOLS.iter().all(|t| !c.wants(&format!("{}:{}", t, name))) {
                continue;
            }
            let p = dir.join(format!("f{}", i));
            std::fs::write(&p, text).expect("scratch file");
            c.sample("file", || String::from_utf8_lossy(text).into());
            visit(c, name, &p, &dir, *r);
            std::fs::remove_file(&p).expect("scratch file");
        }
    });
    // file names and places
    let dir = scratch.sub("names");
    let module = c12::module(&vec![0; c12::dims().len()], false).text();
    for (i, n) in ["a b.kicad_mod", "x.sch", "no-ending", "\u{e9}.kicad_pcb", "-x", "--help", "fp-lib-table"].iter().enumerate() {
        let p = dir.join(n);
        std::fs::write(&p, &module).expect("scratch file");
        visit(ctx, &format!("name{}", i), &p, &dir, Some(R::Footprint));
    }
    let link = dir.join("link");
    let _ = std::os::unix::fs::symlink(dir.join("no-ending"), &link);
    visit(ctx, "link", &link, &dir, Some(R::Footprint));
    let loose = dir.join("loose");
    let _ = std::os::unix::fs::symlink(dir.join("nothing"), &loose);
    visit(ctx, "loose-link", &loose, &dir, None);
    visit(ctx, "missing", &dir.join("missing"), &dir, None);
    visit(ctx, "missing-directory", &dir.join("gone/file"), &dir, None);
    visit(ctx, "below-file", &dir.join("no-ending/file"), &dir, None);
    visit(ctx, "directory", &dir.clone(), &dir, None);
    visit(ctx, "empty-name", Path::new(""), &dir, None);
    // without a file name
    for n in TOOLS {
        if ctx.state(&("none", n)) {
            ctx.case(&format!("{}:none", n), || {
                let (code, out, err) = call(n, &[], &dir, Stdio::piped())?;
                if code == Some(0) || !out.is_empty() || err.is_empty() {
                    return Err(bad("no-file", format!("{} without a file: exit {:?}\n{}\n{}", n, code, out, err)));
                }
                Ok(format!("{} failed", n))
            })
        }
    }
    // a transition is one run of a tool
    ctx.transitions += RUNS.load(Ordering::Relaxed);
}
