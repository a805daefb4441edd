use crate::core::*;
use crate::{fpgen, lagen, shape};
use kicad_parse_gen as k;
use std::path::{Path, PathBuf};

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn getrlimit(what: i32, r: *mut Rlimit) -> i32;
    fn setrlimit(what: i32, r: *const Rlimit) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
}
const FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;

/// storing fails once a file would grow beyond `n` bytes
fn with_limit<T>(n: u64, f: impl FnOnce() -> T) -> T {
    let mut old = Rlimit { cur: 0, max: 0 };
    unsafe {
        signal(SIGXFSZ, 1);
        assert_eq!(getrlimit(FSIZE, &mut old), 0);
        assert_eq!(setrlimit(FSIZE, &Rlimit { cur: n, max: old.max }), 0);
    }
    let r = guarded(f);
    unsafe {
        assert_eq!(setrlimit(FSIZE, &old), 0);
    }
    match r {
        Ok(t) => t,
        Err(p) => panic!("{}", p),
    }
}

enum Doc {
    Text(String),
    Module(k::footprint::Module),
    Layout(k::layout::Layout),
}

impl Doc {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Doc::Text(s) => s.clone().into_bytes(),
            Doc::Module(m) => k::footprint::module_to_string(m, 0).unwrap().into_bytes(),
            Doc::Layout(l) => k::layout::layout_to_string(l, 0).unwrap().into_bytes(),
        }
    }
    fn write(&self, p: &Path) -> Result<(), String> {
        match self {
            Doc::Text(s) => k::write_file(p, s),
            Doc::Module(m) => k::write_module(m, p),
            Doc::Layout(l) => k::write_layout(l, p),
        }
        .map_err(|e| e.to_string())
    }
    fn back(&self, p: &Path) -> Result<(), (String, String)> {
        let (a, b) = match self {
            Doc::Text(s) => (k::read_file(p).map_err(|e| e.to_string()), s.clone()),
            Doc::Module(m) => (k::read_module(p).map(|x| format!("{:?}", x)).map_err(|e| e.to_string()), format!("{:?}", m)),
            Doc::Layout(l) => (k::read_layout(p).map(|x| format!("{:?}", x)).map_err(|e| e.to_string()), format!("{:?}", l)),
        };
        if a.as_ref() == Ok(&b) {
            Ok(())
        } else {
            Err(bad("read-back", format!("{:?} instead of {:?}", a, b)))
        }
    }
}

fn docs() -> Vec<(String, Doc)> {
    let mut v: Vec<(String, Doc)> = ["", "a", "\n", "no newline", "one\ntwo\r\n\tthree\n", "\u{3a9}\u{1f600}", "{}%s\\0\0x"].iter().enumerate().map(|(i, s)| (format!("text{}", i), Doc::Text(s.to_string()))).collect();
    // around the sizes buffers have
    for n in [1023usize, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65536, 65537, 300_000] {
        v.push((format!("size{}", n), Doc::Text("0123456789abcde\n".chars().cycle().take(n).collect())));
    }
    for (n, e) in fpgen::representatives().into_iter().enumerate() {
        v.push((format!("module{}", n), Doc::Module(fpgen::module_case("m x", &[e.1]).value)));
    }
    let reps: Vec<_> = fpgen::representatives().into_iter().map(|e| e.1).collect();
    v.push(("module-all".into(), Doc::Module(fpgen::module_case("all", &reps).value)));
    let mut small = lagen::head0();
    small[19] = 6;
    for (n, e) in lagen::la_representatives().into_iter().enumerate() {
        v.push((format!("layout{}", n), Doc::Layout(lagen::layout_case(&small, &[e.1], 0).value)));
    }
    let reps: Vec<_> = lagen::la_representatives().into_iter().map(|e| e.1).collect();
    v.push(("layout-all".into(), Doc::Layout(lagen::layout_case(&lagen::head0(), &reps, 0).value)));
    v
}

/// what is at the target before
fn prepare(dir: &Path, name: &str, how: &str, bytes: &[u8]) -> PathBuf {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    std::fs::write(dir.join("bystander"), "bystander").unwrap();
    std::fs::write(dir.join("bystander.bak"), "").unwrap();
    let p = dir.join(name);
    let put = |b: &[u8]| std::fs::write(&p, b).unwrap();
    // as long as what is stored, but different in the first, the middle or the last byte
    let turned = |i: usize| {
        let mut b = bytes.to_vec();
        if let Some(x) = b.get_mut(i) {
            *x = if *x == b'x' { b'y' } else { b'x' }
        }
        b
    };
    match how {
        "absent" => {}
        "empty" => put(b""),
        "shorter" => put(&bytes[..bytes.len() / 2]),
        "same" => put(bytes),
        "longer" => {
            let mut b = bytes.to_vec();
            b.extend(b"tail\n");
            put(&b)
        }
        "long" => put(&vec![b'x'; bytes.len() + 100_000]),
        "other" => put(&vec![b'x'; bytes.len()]),
        "first" => put(&turned(0)),
        "middle" => put(&turned(bytes.len() / 2)),
        "last" => put(&turned(bytes.len().max(1) - 1)),
        "binary" => put(&[0xff, 0, 0xfe, 10, 13]),
        "symlink" => {
            std::fs::write(dir.join("real"), "old content").unwrap();
            std::os::unix::fs::symlink("real", &p).unwrap()
        }
        "dangling" => std::os::unix::fs::symlink("real", &p).unwrap(),
        _ => unreachable!(),
    }
    p
}
const BEFORE: &[&str] = &["absent", "empty", "shorter", "same", "other", "first", "middle", "last", "longer", "long", "binary", "symlink", "dangling"];

fn only_target_changed(dir: &Path, name: &str, before: &std::collections::BTreeMap<String, Vec<u8>>, ok: bool) -> Result<(), (String, String)> {
    let mut a = before.clone();
    let mut b = snapshot(dir);
    for file in ["real", name] {
        let file = format!("/{}", file);
        a.remove(&file);
        b.remove(&file);
    }
    if !ok {
        // a write that failed may leave something behind, but touches nothing that was there
        b.retain(|n, _| a.contains_key(n));
    }
    if a == b {
        Ok(())
    } else {
        let names = |m: &std::collections::BTreeMap<String, Vec<u8>>| m.keys().cloned().collect::<Vec<_>>();
        Err(bad("other-file", format!("other files changed: {:?} before, {:?} after", names(&a), names(&b))))
    }
}

/// the endings and names files of these kinds and their relatives have
const NAMES: &[&str] = &[
    "x.kicad_mod", "x.kicad_pcb", "x.sch", "x.lib", "x.dcm", "x.pro", "x.net", "x.txt", "x.bak", "x.bck", "x.orig", "x.old", "x.tmp", "x.new", "x.swp", "x.lck", "x.lock", "x.bz2", "x.gz", "x.zip", "x.csv", "x.json", "x.xml", "x.md", "x.rs", "x.KICAD_MOD",
    "x.Kicad_Pcb", "x.kicad_mod.bak", "x.tar.gz", "x.", "x..", ".x", "..x", "x~", "~x", "#x#", "fp-lib-table", "sym-lib-table", "-", "-x", "--help", "NUL", "con", "...", ". x", "x\ny", "x\ty", "$HOME", "${X}", "~", "%s", "*", "?", "a|b", "\u{feff}x",
];

/// store a document once where something else may be, and read it back
fn store(dir: &Path, name: &str, how: &str, doc: &Doc) -> Result<String, (String, String)> {
    let bytes = doc.bytes();
    let p = prepare(dir, name, how, &bytes);
    let before = snapshot(dir);
    doc.write(&p).map_err(|e| bad("refused", e))?;
    let got = std::fs::read(&p).map_err(|e| bad("missing", e.to_string()))?;
    if got != bytes {
        return Err(bad("content", format!("{} bytes in the file instead of {}: {:?}", got.len(), bytes.len(), String::from_utf8_lossy(&got[..got.len().min(400)]))));
    }
    only_target_changed(dir, name, &before, true)?;
    doc.back(&p)?;
    Ok("stored".into())
}

/// texts of every form, and every form of name
fn wide(ctx: &mut Ctx, scratch: &Scratch) {
    let mut texts = shape::texts("");
    for c in (0u8..32).chain(vec![127]).map(|c| c as char).chain("\u{80}\u{85}\u{ad}\u{2028}\u{feff}\u{fffd}\u{ffff}\u{10ffff}".chars()) {
        for p in [format!("{}", c), format!("{}{}", c, c), format!("a{}b", c), format!("a{}", c), format!("{}b", c), format!("a{}{}b", c, c), format!("a\n{}", c), format!("a\n{}\n", c), format!("a{}\n", c)] {
            texts.push(p);
        }
        texts.push((0..300).map(|_| c).collect());
    }
    let all = [texts.join("\n"), texts.join("\r\n"), texts.concat()];
    texts.extend(all.to_vec());
    let mut names: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
    names.extend(shape::texts("/").into_iter().filter(|n| !n.is_empty() && n.len() < 240 && n != "." && n != ".." && !n.starts_with("bystander")));
    let some: Vec<(String, Doc)> = docs().into_iter().filter(|d| ["text4", "module-all", "layout-all"].contains(&&d.0[..])).collect();
    parallel(ctx, |c, shard, of| {
        let dir = scratch.sub(&format!("w{}", shard));
        let mut n = 0;
        for t in &texts {
            let doc = Doc::Text(t.clone());
            for how in BEFORE {
                n += 1;
                if n % of != shard {
                    continue;
                }
                c.step();
                if c.state(&("text", t, how)) {
                    c.case(&format!("form:{:?}:{}", t, how), || store(&dir, "target", how, &doc));
                }
            }
        }
        for name in &names {
            for (kind, doc) in &some {
                for how in BEFORE {
                    n += 1;
                    if n % of != shard {
                        continue;
                    }
                    c.step();
                    if c.state(&("name", name, kind, how)) {
                        c.case(&format!("name:{:?}:{}:{}", name, kind, how), || store(&dir, name, how, doc));
                    }
                }
            }
        }
    });
}

pub fn run(ctx: &mut Ctx) {
    let scratch = Scratch::new("C19");
    let dir = scratch.sub("d");
    wide(ctx, &scratch);
    let all = docs();
    for (name, doc) in &all {
        let bytes = doc.bytes();
        for how in BEFORE {
            // the writes of one case
            ctx.transitions += 4;
            ctx.state(&(&bytes, how));
            let label = format!("{}:{}", name, how);
            if !ctx.wants(&label) {
                continue;
            }
            let p = prepare(&dir, "target", how, &bytes);
            let before = snapshot(&dir);
            ctx.sample(how, || format!("{} over {}", name, how));
            ctx.case(&label, || {
                doc.write(&p).map_err(|e| bad("refused", e))?;
                let got = std::fs::read(&p).map_err(|e| bad("missing", e.to_string()))?;
                if got != bytes {
                    return Err(bad("content", format!("{} bytes in the file instead of {}: {:?}", got.len(), bytes.len(), String::from_utf8_lossy(&got[..got.len().min(400)]))));
                }
                only_target_changed(&dir, "target", &before, true)?;
                doc.back(&p)?;
                // once more, and with another content in between
                doc.write(&p).map_err(|e| bad("refused", e))?;
                if std::fs::read(&p).ok().as_ref() != Some(&bytes) {
                    return Err(bad("content", "after writing twice".into()));
                }
                k::write_file(&p, "something else, long enough to leave a tail behind").map_err(|e| bad("refused", e.to_string()))?;
                doc.write(&p).map_err(|e| bad("refused", e))?;
                if std::fs::read(&p).ok().as_ref() != Some(&bytes) {
                    return Err(bad("content", "after writing something else in between".into()));
                }
                only_target_changed(&dir, "target", &before, true)?;
                Ok("stored".into())
            });
        }
        // storing fails at every byte
        let points: Vec<usize> = if bytes.len() <= 3000 || ctx.thorough() && bytes.len() < 20_000 {
            (0..=bytes.len() + 1).collect()
        } else {
            let n = bytes.len();
            (0..n + 2).filter(|i| *i < 64 || i + 64 > n || i % 1024 < 2 || i % 1024 == 1023).collect()
        };
        for how in ["absent", "longer", "symlink"] {
            for &n in &points {
                let label = format!("{}:{}:limit{}", name, how, n);
                ctx.step();
                ctx.state(&(&bytes, how, n));
                if !ctx.wants(&label) {
                    continue;
                }
                let p = prepare(&dir, "target", how, &bytes);
                let before = snapshot(&dir);
                ctx.case(&label, || {
                    let r = with_limit(n as u64, || doc.write(&p));
                    let got = std::fs::read(&p).unwrap_or_default();
                    only_target_changed(&dir, "target", &before, r.is_ok())?;
                    match (r, n >= bytes.len()) {
                        (Ok(()), true) if got == bytes => Ok("stored".into()),
                        (Ok(()), _) => Err(bad("false-success", format!("success reported, but {} of {} bytes are there", got.len(), bytes.len()))),
                        (Err(e), true) => Err(bad("refused", e)),
                        (Err(_), false) => Ok("error".into()),
                    }
                });
            }
        }
        // places where nothing can be stored
        let d = scratch.sub("f");
        std::fs::remove_dir_all(&d).unwrap();
        std::fs::create_dir_all(d.join("sub")).unwrap();
        std::fs::write(d.join("plain"), "plain").unwrap();
        std::os::unix::fs::symlink("loop", d.join("loop")).unwrap();
        std::os::unix::fs::symlink("no/such/file", d.join("lost")).unwrap();
        std::os::unix::fs::symlink("/dev/full", d.join("full")).unwrap();
        let faults: Vec<(&str, PathBuf)> = vec![
            ("no-directory", d.join("no/such/file")),
            ("directory", d.join("sub")),
            ("below-file", d.join("plain/x")),
            ("slash", d.join("new/")),
            ("loop", d.join("loop")),
            ("lost-link", d.join("lost")),
            ("long-name", d.join("n".repeat(300))),
            ("nul", d.join("a\0b")),
            ("empty-name", PathBuf::from("")),
            ("full-link", d.join("full")),
        ];
        for (what, p) in &faults {
            if what.starts_with("full") && bytes.is_empty() {
                continue;
            }
            let label = format!("{}:fault:{}", name, what);
            ctx.step();
            ctx.state(&(&bytes, what));
            if !ctx.wants(&label) {
                continue;
            }
            let before = snapshot(&d);
            ctx.case(&label, || {
                if doc.write(p).is_ok() {
                    // replacing a link by a file would be fine
                    let link = std::fs::symlink_metadata(p).map(|m| m.file_type().is_symlink()).unwrap_or(true);
                    if link || std::fs::read(p).ok().as_ref() != Some(&bytes) {
                        return Err(bad("false-success", format!("success reported for {}", what)));
                    }
                    return Ok("stored".into());
                }
                let after = snapshot(&d);
                if before.iter().any(|(n, b)| after.get(n) != Some(b)) {
                    return Err(bad("other-file", format!("files changed for {}", what)));
                }
                Ok("error".into())
            });
        }
    }
}
