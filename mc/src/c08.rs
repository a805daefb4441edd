use crate::c06::{self, R, READERS};
use crate::core::*;
use crate::shape;
use kicad_parse_gen as k;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

fn sch_debug(mut s: k::schematic::Schematic, path: Option<&Path>) -> Result<String, String> {
    if let Some(p) = path {
        if s.filename.as_ref().map(|x| x.as_path()) != Some(p) {
            return Err(format!("the schematic remembers {:?} as its file", s.filename));
        }
    }
    s.filename = None;
    Ok(format!("{:?}", s))
}

/// what each kind's own reader makes of the text
fn own(r: R, t: &str) -> Option<String> {
    match r {
        R::Footprint => k::footprint::parse(t).ok().map(|x| format!("{:?}", x)),
        R::Layout => k::layout::parse(t).ok().map(|x| format!("{:?}", x)),
        R::Schematic => k::schematic::parse_str(t).ok().map(|x| sch_debug(x, None).unwrap()),
        R::SymbolLib => k::symbol_lib::parse_str(t).ok().map(|x| format!("{:?}", x)),
        R::Table => k::fp_lib_table::parse(t).ok().map(|x| format!("{:?}", x)),
        R::Project => k::project::parse_str(t).ok().map(|x| format!("{:?}", x)),
    }
}

fn specific(r: R, p: &Path) -> Result<Option<String>, String> {
    Ok(match r {
        R::Footprint => k::read_module(p).ok().map(|x| format!("{:?}", x)),
        R::Layout => k::read_layout(p).ok().map(|x| format!("{:?}", x)),
        R::Schematic => match k::read_schematic(p) {
            Ok(x) => Some(sch_debug(x, Some(p))?),
            Err(_) => None,
        },
        R::SymbolLib => k::read_symbol_lib(p).ok().map(|x| format!("{:?}", x)),
        R::Table => k::read_fp_lib_table(p).ok().map(|x| format!("{:?}", x)),
        R::Project => k::read_project(p).ok().map(|x| format!("{:?}", x)),
    })
}

fn expected(r: Option<R>) -> k::Expected {
    match r {
        None => k::Expected::Any,
        Some(R::Footprint) => k::Expected::Module,
        Some(R::Layout) => k::Expected::Layout,
        Some(R::Schematic) => k::Expected::Schematic,
        Some(R::SymbolLib) => k::Expected::SymbolLib,
        Some(R::Table) => k::Expected::FpLibTable,
        Some(R::Project) => k::Expected::Project,
    }
}

fn opened(f: k::KicadFile, p: &Path) -> Result<Option<(R, String)>, String> {
    let shown = format!("{}", f);
    let (name, r) = match f {
        k::KicadFile::Unknown(q) => {
            if q != p {
                return Err(format!("unknown names {:?} instead of {:?}", q, p));
            }
            if !shown.starts_with("unknown: ") {
                return Err(format!("an unknown file is shown as {:?}", shown));
            }
            return Ok(None);
        }
        k::KicadFile::Module(x) => ("module", (R::Footprint, format!("{:?}", x))),
        k::KicadFile::Schematic(x) => ("schematic", (R::Schematic, sch_debug(x, Some(p))?)),
        k::KicadFile::Layout(x) => ("layout", (R::Layout, format!("{:?}", x))),
        k::KicadFile::SymbolLib(x) => ("symbollib", (R::SymbolLib, format!("{:?}", x))),
        k::KicadFile::Project(x) => ("project", (R::Project, format!("{:?}", x))),
        k::KicadFile::FpLibTable(x) => ("fp-lib-table", (R::Table, format!("{:?}", x))),
    };
    if shown != name {
        return Err(format!("a {} is shown as {:?}", name, shown));
    }
    Ok(Some(r))
}

/// `meant`: the kind the text is known to have
fn recognise(t: &str, p: &Path, meant: Option<Option<R>>) -> Result<String, (String, String)> {
    let kinds: Vec<(R, String)> = READERS.iter().filter_map(|&r| own(r, t).map(|d| (r, d))).collect();
    let ctx = || format!("file {:?} with\n{}", p, t);
    if kinds.len() > 1 {
        return Err(bad("two-kinds", format!("read as {:?} and as {:?}\n{}", kinds[0].0, kinds[1].0, ctx())));
    }
    let kind = kinds.into_iter().next();
    // a project is its text
    if let Ok(x) = k::project::parse_str(t) {
        if x.data != t {
            return Err(bad("project", format!("{:?} as the content of\n{}", x.data, ctx())));
        }
    }
    if let Some(m) = meant {
        if m != kind.as_ref().map(|x| x.0) {
            return Err(bad("own-reader", format!("meant as {:?}, read as {:?}\n{}", m, kind.map(|x| x.0), ctx())));
        }
    }
    for e in std::iter::once(None).chain(READERS.iter().map(|&r| Some(r))) {
        let got = match k::read_kicad_file(p, expected(e)) {
            Err(x) => {
                if e.is_none() || kind.as_ref().map(|x| x.0) == e {
                    return Err(bad("refused", format!("expecting {:?}: {}\n{}", e, x, ctx())));
                }
                continue;
            }
            Ok(f) => opened(f, p).map_err(|x| bad("shown", format!("{}\n{}", x, ctx())))?,
        };
        if e.is_some() && got.is_none() {
            return Err(bad("unknown-accepted", format!("expecting {:?}, an unknown file is no error\n{}", e, ctx())));
        }
        if got != kind {
            return Err(bad(
                "wrong-kind",
                format!("expecting {:?}: got {:?} instead of {:?}\n{}", e, got.map(|x| x.0), kind.as_ref().map(|x| x.0), ctx()),
            ));
        }
    }
    for &r in READERS {
        let got = specific(r, p).map_err(|x| bad("shown", format!("{}\n{}", x, ctx())))?;
        let want = match kind {
            Some((q, ref d)) if q == r => Some(d.clone()),
            _ => None,
        };
        if got != want {
            return Err(bad("specific", format!("reading as {:?}: {:?} instead of {:?}\n{}", r, got, want, ctx())));
        }
    }
    Ok(match kind {
        Some((r, _)) => format!("{:?}", r),
        None => "unknown".into(),
    })
}

fn names() -> Vec<OsString> {
    let mut v: Vec<OsString> = ["a", "x.kicad_mod", "x.sch", "x.kicad_pcb", "x.lib", "x.pro", "fp-lib-table", "a b (c).txt", "\u{3a9}.sch", ".sch", "-x"]
        .iter()
        .map(|s| OsString::from(*s))
        .collect();
    v.push(OsString::from_vec(b"b\xffd.sch".to_vec()));
    v
}

pub fn texts() -> Vec<(R, String, String)> {
    let mut v = vec![];
    for (r, name, x) in c06::text_bases(false) {
        v.push((r, name, x.text()));
    }
    for (r, name, t) in c06::line_bases(1) {
        v.push((r, name, t));
    }
    for (i, t) in ["update=", "update=Mon\n", "update=(module m)", "update=\nEESchema Schematic File Version 2\n"].iter().enumerate() {
        v.push((R::Project, format!("project{}", i), t.to_string()));
    }
    v
}

const HEADS: &[&str] = &["module", "kicad_pcb", "fp_lib_table", "Module", "module_", "kicad_sch", "lib", ""];

pub fn run(ctx: &mut Ctx) {
    let scratch = Scratch::new("C08");
    let docs = texts();
    let reps: Vec<(R, String, String)> = c06::text_bases(true).into_iter().map(|(r, n, x)| (r, n, x.text())).chain(c06::line_bases(0)).collect();
    let mut words = shape::texts("");
    words.extend(["\0", " ", "  ", "\t", "\n", "\r", "\r\n", "a \n ", "a\t", "a\0", "\u{feff}", "[a]\nb=c\n", "[a]\r\nb=c", "#", ";"].iter().map(|s| s.to_string()));
    let forms: Vec<OsString> = shape::texts("/")
        .into_iter()
        .flat_map(|w| vec![w.clone(), format!("x.{}", w), format!("{}.sch", w), format!("{}.kicad_mod", w)])
        .filter(|w| !w.is_empty() && w.len() < 240 && w != "." && w != "..")
        .map(OsString::from)
        .chain(["x.bak", "x.tmp", "x.kicad_mod.bak", "x.dcm", "x.net", "x.csv", "x.zip", "x.KICAD_PCB", "x.Sch", "sym-lib-table", "x.kicad_sch", "x.kicad_pro", "x.kicad_sym"].iter().map(OsString::from))
        .collect();
    parallel(ctx, |c, shard, of| {
        let dir = scratch.sub(&shard.to_string());
        let mut n = 0usize;
        let mut go = |c: &mut Ctx, label: &str, text: &str, name: &OsString, meant: Option<Option<R>>| {
            n += 1;
            if n % of != shard {
                return;
            }
            c.step();
            if !c.wants(label) || !c.state(&(text, name)) {
                return;
            }
            let p = dir.join(name);
            std::fs::write(&p, text).expect("scratch file");
            c.sample(&format!("{:?}", meant.is_some()), || format!("{:?}: {}", name, text));
            c.case(label, || recognise(text, &p, meant));
            std::fs::remove_file(&p).expect("scratch file");
        };
        let ns = names();
        // every document under a neutral name
        for (r, name, t) in &docs {
            go(c, &format!("doc:{:?}:{}", r, name), t, &ns[0], Some(Some(*r)));
        }
        // project texts of every form
        for w in &words {
            for x in [format!("update={}", w), format!("update=Mon\n{}", w), format!("update={}\n\n", w), format!("update=x\r\n{}\r\n", w)] {
                go(c, &format!("project:{:?}", x), &x, &ns[0], Some(Some(R::Project)));
            }
        }
        // names of every form
        for f in &forms {
            for (r, name, t) in &reps {
                go(c, &format!("named:{:?}:{}:{:?}", r, name, f), t, f, Some(Some(*r)));
            }
        }
        // some documents under every name
        for (r, name, t) in &reps {
            for (i, f) in ns.iter().enumerate() {
                go(c, &format!("name:{:?}:{}:{}", r, name, i), t, f, Some(Some(*r)));
            }
            // what stands around a document
            for (i, pre) in [" ", "\n", "\t", "\u{feff}", "#", ";", ")", "x", "\r\n", "\0"].iter().enumerate() {
                go(c, &format!("pre:{:?}:{}:{}", r, name, i), &format!("{}{}", pre, t), &ns[0], None);
                go(c, &format!("post:{:?}:{}:{}", r, name, i), &format!("{}{}", t, pre), &ns[0], None);
            }
            // every start and every end of a document
            for i in 0..t.len() {
                if t.is_char_boundary(i) {
                    go(c, &format!("cut:{:?}:{}:{}", r, name, i), &t[..i], &ns[0], None);
                    go(c, &format!("tail:{:?}:{}:{}", r, name, i), &t[i..], &ns[0], None);
                }
            }
            // another word at the start
            if let Some(i) = t.find(|x: char| x == ' ' || x == ')') {
                if t.starts_with('(') {
                    for h in HEADS {
                        go(c, &format!("head:{:?}:{}:{}", r, name, h), &format!("({}{}", h, &t[i..]), &ns[0], None);
                    }
                }
            }
            let rest: String = t.lines().skip(1).map(|l| format!("{}\n", l)).collect();
            for (i, h) in [
                "EESchema Schematic File Version 2",
                "EESchema Schematic File Version 1",
                "EESchema Schematic File Version 22",
                "EESchema-LIBRARY Version 2.3",
                "EESchema-LIBRARY Version 2.4",
                "EESchema-DOCLIB  Version 2.0",
                "update=x",
                "Update=x",
                "(module m)",
                "(fp_lib_table)",
            ]
            .iter()
            .enumerate()
            {
                go(c, &format!("first:{:?}:{}:{}", r, name, i), &format!("{}\n{}", h, rest), &ns[0], None);
            }
        }
        // a word that is nearly the one a kind starts with
        for (r, name, t) in &reps {
            let marks: &[&str] = match r {
                R::Footprint => &["(module"],
                R::Layout => &["(kicad_pcb"],
                R::Table => &["(fp_lib_table"],
                R::Schematic => &["EESchema", "Schematic", "File", "Version", "EELAYER END", "EELAYER"],
                R::SymbolLib => &["EESchema-LIBRARY"],
                R::Project => &["update="],
            };
            for m in marks {
                let word = m.trim_start_matches('(').trim_end_matches('=');
                let at = match t.find(m) {
                    Some(i) => i + m.len() - m.trim_start_matches('(').len(),
                    None => continue,
                };
                for w in shape::near(word) {
                    if w.is_empty() || w.trim() == word || w.starts_with("update=") || w.contains(|x: char| "()\"\u{a0}".contains(x)) {
                        continue;
                    }
                    let x = format!("{}{}{}", &t[..at], w, &t[at + word.len()..]);
                    go(c, &format!("near:{:?}:{}:{:?}", r, name, w), &x, &ns[0], Some(None));
                }
            }
        }
        // one document behind another
        for (i, (_, _, t)) in reps.iter().enumerate() {
            for (j, (_, _, u)) in reps.iter().enumerate() {
                go(c, &format!("both:{}:{}", i, j), &format!("{}\n{}", t, u), &ns[0], None);
            }
        }
        for (i, t) in ["", "\n", " ", "()", "(", ")", "a", "module", "(module)", "(kicad_pcb)", "(fp_lib_table)", "(lib)", "update", "update =", "{}", "\0", "EESchema"].iter().enumerate() {
            for (j, f) in ns.iter().enumerate() {
                go(c, &format!("odd:{}:{}", i, j), t, f, None);
            }
        }
    });
    // things that can't be read are errors for every reader
    let d = scratch.sub("faults");
    std::fs::write(d.join("plain"), "(module m)").unwrap();
    let mut bin = b"(module m (descr \"".to_vec();
    bin.extend([0xff, 0xfe, 0x80]);
    bin.extend(b"\"))");
    std::fs::write(d.join("binary"), &bin).unwrap();
    std::fs::write(d.join("binary2"), [0x80]).unwrap();
    std::fs::write(d.join("latin1.pro"), b"update=\xe9\n").unwrap();
    let link = |to: &str, n: &str| std::os::unix::fs::symlink(to, d.join(n)).unwrap();
    link("nowhere", "dangling");
    link("loop", "loop");
    link(".", "dirlink");
    let long = "n".repeat(300);
    let faults: Vec<(&str, PathBuf)> = vec![
        ("missing", d.join("missing")),
        ("missing-dir", d.join("no/such/file.sch")),
        ("empty-name", PathBuf::from("")),
        ("directory", d.clone()),
        ("below-file", d.join("plain/x")),
        ("trailing-slash", d.join("plain/")),
        ("invalid-utf8", d.join("binary")),
        ("invalid-utf8-2", d.join("binary2")),
        ("invalid-utf8-3", d.join("latin1.pro")),
        ("dangling", d.join("dangling")),
        ("loop", d.join("loop")),
        ("dirlink", d.join("dirlink")),
        ("long-name", d.join(&long)),
        ("nul", d.join("a\0b")),
    ];
    for (what, p) in &faults {
        ctx.step();
        ctx.state(what);
        ctx.case(&format!("fault:{}", what), || {
            for e in std::iter::once(None).chain(READERS.iter().map(|&r| Some(r))) {
                if let Ok(f) = k::read_kicad_file(p, expected(e)) {
                    return Err(bad("fault-accepted", format!("{}: expecting {:?} gives {}", what, e, f)));
                }
            }
            for &r in READERS {
                match specific(r, p) {
                    Ok(None) => {}
                    x => return Err(bad("fault-accepted", format!("{}: reading as {:?} gives {:?}", what, r, x))),
                }
            }
            if k::schematic::parse_file(p).is_ok() || k::symbol_lib::parse_file(p).is_ok() || k::read_file(p).is_ok() {
                return Err(bad("fault-accepted", format!("{}: parse_file or read_file", what)));
            }
            Ok("error".into())
        });
    }
    // the readers by path agree with the readers by text
    let p = d.join("through");
    std::os::unix::fs::symlink(d.join("target-file"), &p).unwrap();
    for (r, name, t) in &reps {
        std::fs::write(d.join("target-file"), t).unwrap();
        ctx.step();
        ctx.state(&("link", t));
        ctx.case(&format!("link:{:?}:{}", r, name), || {
            let got = k::read_file(&p).map_err(|e| bad("read-file", e.to_string()))?;
            if got != *t {
                return Err(bad("read-file", format!("{:?} instead of {:?}", got, t)));
            }
            let a = k::schematic::parse_file(&p).ok().map(|s| sch_debug(s, Some(&p)));
            if a != own(R::Schematic, t).map(Ok) {
                return Err(bad("parse-file", format!("schematic {:?}\n{}", a, t)));
            }
            let a = k::symbol_lib::parse_file(&p).ok().map(|s| format!("{:?}", s));
            if a != own(R::SymbolLib, t) {
                return Err(bad("parse-file", format!("symbol library {:?}\n{}", a, t)));
            }
            recognise(t, &p, Some(Some(*r)))
        });
    }
}
