use crate::c03;
use crate::core::*;
use crate::scgen;
use crate::shape;
use kicad_parse_gen::schematic as sc;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

/// where the files are; the last one carries a name that also exists elsewhere
const PLACES: &[&str] = &["f0.sch", "f1.sch", "sub/f2.sch", "sub/f1.sch"];
const MISSING: usize = 4;
const MALFORMED: usize = 5;

fn spelling(from: usize, to: usize, alt: bool) -> String {
    let up = PLACES[from].starts_with("sub/");
    let t = match to {
        MISSING => "nowhere.sch",
        MALFORMED => {
            return if up { "../bad.sch".into() } else { "bad.sch".into() };
        }
        t => PLACES[t],
    };
    let plain = if to == MISSING {
        t.to_string()
    } else if up {
        match t.strip_prefix("sub/") {
            Some(s) => s.to_string(),
            None => format!("../{}", t),
        }
    } else {
        t.to_string()
    };
    if alt {
        if up {
            format!("../sub/{}", plain)
        } else {
            format!("./sub/../{}", plain)
        }
    } else {
        plain
    }
}

/// the position tells the copies of a component apart
fn comp(r: &str, x: usize) -> String {
    format!("$Comp\nL R {}\nU 1 1 56460011\nP {} 200\nF 0 \"{}\" H 100 200 60  0000 C CNN\n\t1    {}  200 \n\t1    0    0    -1  \n$EndComp\n", r, x, r, x)
}

/// the components of file `i`; every file also has one called X1
fn refs(i: usize) -> Vec<String> {
    match i {
        0 => vec!["A1".into(), "X1".into()],
        1 => vec!["X1".into()],
        2 => vec!["C1".into(), "C2".into(), "X1".into()],
        _ => vec!["X1".into(), "D1".into()],
    }
}

fn text(file: usize, comps: &[String], sheets: &[String]) -> String {
    let mut s = "EESchema Schematic File Version 2\nLIBS:power\nEELAYER 25 0\nEELAYER END\n$Descr A4 11693 8268\nencoding utf-8\nSheet 1 1\nTitle \"\"\nDate \"\"\nRev \"\"\nComp \"\"\nComment1 \"\"\nComment2 \"\"\nComment3 \"\"\nComment4 \"\"\n$EndDescr\n".to_string();
    for (i, c) in comps.iter().enumerate() {
        s.push_str(&comp(c, 1000 + 10 * file + i));
        if i == 0 {
            s.push_str("Wire Wire Line\n\t1 2 3 4\n");
        }
    }
    for n in sheets {
        s.push_str(&format!("$Sheet\nS 100  200  300  400 \nU 5A\nF0 \"s\" 60\nF1 \"{}\" 60\n$EndSheet\n", n));
    }
    s.push_str("$EndSCHEMATC\n");
    s
}

/// the components in order, up to the first error
fn model(g: &[Vec<usize>], at: usize, chain: &mut Vec<usize>, out: &mut Vec<(usize, String)>) -> Result<(), ()> {
    for (i, r) in refs(at).into_iter().enumerate() {
        out.push((at, mark(at, i, &r)));
    }
    for &t in &g[at] {
        if t >= MISSING || chain.contains(&t) {
            return Err(());
        }
        chain.push(t);
        model(g, t, chain, out)?;
        chain.pop();
    }
    Ok(())
}

fn reachable(g: &[Vec<usize>]) -> Vec<bool> {
    let mut seen = vec![false; g.len()];
    let mut todo = vec![0];
    while let Some(x) = todo.pop() {
        if x < g.len() && !seen[x] {
            seen[x] = true;
            todo.extend(&g[x]);
        }
    }
    seen
}

fn mark(file: usize, i: usize, r: &str) -> String {
    format!("{}@{}", r, 1000 + 10 * file + i)
}

fn marks(file: usize) -> Vec<String> {
    refs(file).iter().enumerate().map(|(i, r)| mark(file, i, r)).collect()
}

fn where_from(c: &sc::Component) -> String {
    format!("{}@{}", c.reference, c.x)
}

fn check(root: &Path, dir: &Path, g: &[Vec<usize>], before: &BTreeMap<String, Vec<u8>>) -> Result<String, (String, String)> {
    let sch = sc::parse_file(root).map_err(|e| bad("root-refused", e.to_string()))?;
    let shown = format!("{:?}", sch);
    let mut want = vec![];
    let ok = model(g, 0, &mut vec![0], &mut want);
    let names: Vec<String> = want.iter().map(|x| x.1.clone()).collect();
    let got = sch.all_components();
    let outcome = match (&ok, &got) {
        (Ok(()), Ok(v)) => {
            let v: Vec<String> = v.iter().map(where_from).collect();
            if v != names {
                return Err(bad("listing", format!("graph {:?}: {:?} instead of {:?}", g, v, names)));
            }
            "listed"
        }
        (Ok(()), Err(e)) => return Err(bad("listing-refused", format!("graph {:?}: {}", g, e))),
        (Err(()), Ok(v)) => {
            let v: Vec<String> = v.iter().map(where_from).collect();
            return Err(bad("error-missed", format!("graph {:?}: {:?} instead of an error", g, v)));
        }
        (Err(()), Err(_)) => "error",
    };
    // looking one up: the first in the listing, or an error if a sheet can't be followed
    for r in ["A1", "X1", "C1", "C2", "D1", "E1", "A", ""] {
        let got = sch.component_by_reference(r);
        match got {
            Ok(c) => {
                if c.reference != r {
                    return Err(bad("lookup", format!("graph {:?}: looking up {:?} gives {:?}", g, r, c.reference)));
                }
                let first = names.iter().find(|n| n.split('@').next() == Some(r));
                if (ok.is_ok() || refs(0).iter().any(|n| n == r)) && first != Some(&where_from(&c)) {
                    return Err(bad("lookup", format!("graph {:?}: {:?} gives {:?}, listed first is {:?}", g, r, where_from(&c), first)));
                }
                if !(0..PLACES.len()).any(|i| marks(i).contains(&where_from(&c))) {
                    return Err(bad("lookup", format!("graph {:?}: {:?} is in no file", g, where_from(&c))));
                }
            }
            Err(e) => {
                if ok.is_ok() && names.iter().any(|n| n.split('@').next() == Some(r)) || refs(0).iter().any(|n| n == r) {
                    return Err(bad("lookup-refused", format!("graph {:?}: {:?} is listed but not found: {}", g, r, e)));
                }
            }
        }
    }
    if format!("{:?}", sch) != shown {
        return Err(bad("changed", "the schematic changed".into()));
    }
    if &snapshot(dir) != before {
        return Err(bad("changed", format!("graph {:?}: files changed", g)));
    }
    // each sheet by itself
    for (i, s) in sch.sheets.iter().enumerate() {
        let t = g[0][i];
        let f = sc::filename_for_sheet(&sch, s).map_err(|e| bad("sheet-file", e.to_string()))?;
        let want = match t {
            MISSING => None,
            MALFORMED => Some(dir.join("bad.sch")),
            t => Some(dir.join(PLACES[t])),
        };
        if let Some(w) = want {
            if f.canonicalize().ok() != Some(w.clone()) {
                return Err(bad("sheet-file", format!("{:?} resolves to {:?}, not {:?}", s.filename, f, w)));
            }
        }
        match sc::parse_file_for_sheet(&sch, s) {
            Ok(x) => {
                if t >= MISSING {
                    return Err(bad("sheet-read", format!("{:?} can be read", s.filename)));
                }
                let v: Vec<String> = x.components().iter().map(where_from).collect();
                if v != marks(t) {
                    return Err(bad("sheet-read", format!("{:?} has {:?} instead of {:?}", s.filename, v, marks(t))));
                }
            }
            Err(e) => {
                if t < MISSING {
                    return Err(bad("sheet-read", format!("{:?}: {}", s.filename, e)));
                }
            }
        }
    }
    Ok(outcome.into())
}

pub fn run(ctx: &mut Ctx) {
    let scratch = Scratch::new("C17");
    let max = if ctx.thorough() { 5 } else { 4 };
    // every file's list of sheets, with at most `max` sheets in all
    let lists = sequences(6, 3);
    let mut graphs: Vec<Vec<Vec<usize>>> = vec![vec![]];
    for _ in 0..PLACES.len() {
        let mut next = vec![];
        for g in &graphs {
            let used: usize = g.iter().map(|l: &Vec<usize>| l.len()).sum();
            for l in &lists {
                if used + l.len() <= max {
                    let mut h = g.clone();
                    h.push(l.clone());
                    next.push(h)
                }
            }
        }
        graphs = next;
    }
    graphs.retain(|g| {
        let r = reachable(g);
        g.iter().zip(&r).all(|(l, r)| *r || l.is_empty())
    });
    parallel(ctx, |c, shard, of| {
        let dir = scratch.sub(&shard.to_string());
        std::fs::create_dir_all(dir.join("sub")).unwrap();
        std::fs::write(dir.join("bad.sch"), "EESchema Schematic File Version 2\nEELAYER 25 0\n").unwrap();
        let mut last: Vec<String> = vec![String::new(); PLACES.len()];
        for (n, g) in graphs.iter().enumerate() {
            if n % of != shard {
                continue;
            }
            for alt in [false, true] {
                let label = format!("graph:{:?}:{}", g, alt);
                // the ways to get here by adding one last sheet to one of the files
                c.transitions += g.iter().filter(|l| !l.is_empty()).count() as u64;
                if !c.wants(&label) || !c.state(&(g, alt)) {
                    continue;
                }
                for i in 0..PLACES.len() {
                    let sheets: Vec<String> = g[i].iter().map(|&t| spelling(i, t, alt)).collect();
                    let t = text(i, &refs(i), &sheets);
                    if t != last[i] {
                        std::fs::write(dir.join(PLACES[i]), &t).unwrap();
                        last[i] = t;
                    }
                }
                let before = snapshot(&dir);
                c.sample(&format!("{}", alt), || format!("{:?} alternative spelling: {}", g, alt));
                let root: PathBuf = if alt { dir.join("sub/../f0.sch") } else { dir.join("f0.sch") };
                c.case(&label, || check(&root, &dir, g, &before));
            }
        }
    });
    // long chains, closed or not
    let dir = scratch.sub("chain");
    for n in [1usize, 2, 3, 10, 50, if ctx.thorough() { 400 } else { 150 }] {
        for end in 0..4 {
            let label = format!("chain:{}:{}", n, end);
            ctx.step();
            ctx.state(&(n, end));
            if !ctx.wants(&label) {
                continue;
            }
            for i in 0..n {
                let next = if i + 1 < n {
                    vec![format!("c{}.sch", i + 1)]
                } else {
                    match end {
                        0 => vec![],
                        1 => vec!["c0.sch".into()],
                        2 => vec![format!("c{}.sch", i)],
                        _ => vec!["none.sch".into()],
                    }
                };
                std::fs::write(dir.join(format!("c{}.sch", i)), text(0, &[format!("R{}", i)], &next)).unwrap();
            }
            ctx.case(&label, || {
                let sch = sc::parse_file(&dir.join("c0.sch")).map_err(|e| bad("root-refused", e.to_string()))?;
                let want: Vec<String> = (0..n).map(|i| format!("R{}", i)).collect();
                match sch.all_components() {
                    Ok(v) => {
                        let v: Vec<String> = v.iter().map(|c| c.reference.clone()).collect();
                        if end != 0 {
                            return Err(bad("error-missed", format!("chain of {} closed by {}: {} components", n, end, v.len())));
                        }
                        if v != want {
                            return Err(bad("listing", format!("{:?} instead of {:?}", v, want)));
                        }
                    }
                    Err(e) => {
                        if end == 0 {
                            return Err(bad("listing-refused", format!("chain of {}: {}", n, e)));
                        }
                    }
                }
                for (i, r) in want.iter().enumerate() {
                    match sch.component_by_reference(r) {
                        Ok(c) if c.reference == *r => {}
                        Ok(c) => return Err(bad("lookup", format!("{} gives {}", r, c.reference))),
                        Err(e) => {
                            if end == 0 || i == 0 {
                                return Err(bad("lookup-refused", format!("{}: {}", r, e)));
                            }
                        }
                    }
                }
                if sch.component_by_reference("none").is_ok() {
                    return Err(bad("lookup", "found what is not there".into()));
                }
                Ok(if end == 0 { "listed" } else { "error" }.into())
            });
        }
    }
    // the same sheet file many times is no loop
    std::fs::write(dir.join("leaf.sch"), text(0, &["L1".into()], &[])).unwrap();
    for n in 0..6usize {
        std::fs::write(dir.join(format!("tree{}.sch", n)), text(0, &[format!("T{}", n)], &vec![if n == 0 { "leaf.sch".to_string() } else { format!("tree{}.sch", n - 1) }; 3])).unwrap();
        ctx.step();
        ctx.state(&("tree", n));
        ctx.case(&format!("tree:{}", n), || {
            fn want(n: usize) -> Vec<String> {
                let mut v = vec![format!("T{}", n)];
                for _ in 0..3 {
                    if n == 0 {
                        v.push("L1".into())
                    } else {
                        v.extend(want(n - 1))
                    }
                }
                v
            }
            let sch = sc::parse_file(&dir.join(format!("tree{}.sch", n))).map_err(|e| bad("root-refused", e.to_string()))?;
            let v: Vec<String> = sch.all_components().map_err(|e| bad("listing-refused", e.to_string()))?.iter().map(|c| c.reference.clone()).collect();
            if v != want(n) {
                return Err(bad("listing", format!("tree {}", n)));
            }
            Ok("listed".into())
        });
    }
    // a schematic that is in no file: fine without sheets, an error with them
    for n in 0..3usize {
        ctx.step();
        ctx.state(&("nofile", n));
        ctx.case(&format!("nofile:{}", n), || {
            let sch = sc::parse_str(&text(0, &["R1".into()], &vec!["leaf.sch".to_string(); n])).map_err(|e| bad("root-refused", e.to_string()))?;
            match (sch.all_components(), n) {
                (Ok(v), 0) if v.len() == 1 => Ok("listed".into()),
                (Err(_), n) if n > 0 => Ok("error".into()),
                (x, _) => Err(bad("nofile", format!("{} sheets: {:?}", n, x.map(|v| v.len()).map_err(|e| e.to_string())))),
            }
        });
    }
    wide(ctx, &scratch);
}

/// every component with all it holds, and lookups by each reference, the first of the listing
fn whole(dir: &Path, root: &str, order: &[&str], look: &[&str]) -> Result<String, (String, String)> {
    let before = snapshot(dir);
    let sch = sc::parse_file(&dir.join(root)).map_err(|e| bad("root-refused", e.to_string()))?;
    let shown = format!("{:?}", sch);
    let mut want: Vec<sc::Component> = vec![];
    for f in order {
        let s = std::fs::read_to_string(dir.join(f)).map_err(|e| bad("scratch", format!("{}: {}", f, e)))?;
        want.extend(sc::parse_str(&s).map_err(|e| bad("sheet-refused", e.to_string()))?.components())
    }
    let got = sch.all_components().map_err(|e| bad("listing-refused", e.to_string()))?;
    if format!("{:?}", got) != format!("{:?}", want) {
        return Err(bad("listing", format!("{:?}\ninstead of {:?}", got, want)));
    }
    for r in want.iter().map(|c| &c.reference[..]).chain(look.iter().cloned()) {
        let first = want.iter().find(|c| c.reference == r);
        let found = sch.component_by_reference(r).ok();
        if format!("{:?}", found.as_ref()) != format!("{:?}", first) {
            return Err(bad("lookup", format!("{:?} gives {:?}\ninstead of {:?}", r, found, first)));
        }
    }
    if format!("{:?}", sch) != shown || snapshot(dir) != before {
        return Err(bad("changed", "the schematic or a file changed".into()));
    }
    Ok("listed".into())
}

/// sheet files of every name, references of every form, components and sheets of every form, any number of them
fn wide(ctx: &mut Ctx, scratch: &Scratch) {
    let t = ctx.thorough();
    let put = |dir: &Path, name: &str, text: &str| {
        let p = dir.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, text).unwrap();
    };
    let fresh = |dir: &Path| {
        std::fs::remove_dir_all(dir).unwrap();
        std::fs::create_dir_all(dir).unwrap();
    };
    let mut names: Vec<String> = shape::texts("\"\\/").into_iter().filter(|n| n.len() < 200 && n != "." && n != "..").collect();
    for n in shape::near("sub.sch") {
        names.push(n.clone());
        names.push(format!("d/{}", n));
    }
    for n in ["./s.sch", "d/./s.sch", "d/e/../s.sch", "d e/f g/s.sch", ".s.sch", "d.sch/s.sch", "s", "s.SCH", "s.sch.sch", "a:b.sch", "d//s.sch", "~/s.sch", "$HOME/s.sch", "%20/s.sch", "x\\y.sch", "\u{e4}/\u{3a9}.sch"] {
        names.push(n.to_string());
    }
    // a name has to name a file and be the same after it is quoted
    names.retain(|n| !n.starts_with('/') && !n.contains("//") && !n.ends_with('/') && !n.is_empty() && n != "root.sch" && !n.ends_with('\\') && !n.ends_with('.') && !n.starts_with(".."));
    parallel(ctx, |c, shard, of| {
        let dir = scratch.sub(&format!("w{}", shard));
        for (k, n) in names.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            let label = format!("name:{:?}", n);
            c.step();
            if !c.state(&label) || !c.wants(&label) {
                continue;
            }
            fresh(&dir);
            if n.contains("/../") {
                std::fs::create_dir_all(dir.join(n.split("/..").next().unwrap())).unwrap();
            }
            put(&dir, "root.sch", &text(0, &["A1".into()], &[n.clone(), n.clone()]));
            put(&dir, n, &text(1, &["B1".into()], &[]));
            c.case(&label, || whole(&dir, "root.sch", &["root.sch", n, n], &["B", "A2"]));
        }
    });
    let mut pairs: Vec<(String, String)> = shape::texts("\"\\").iter().map(|w| (w.clone(), "x".to_string())).collect();
    for w in ["R1", "#PWR01", "J?", "C3A", "REF**"] {
        for n in shape::near(w) {
            pairs.push((w.to_string(), n.clone()));
            pairs.push((n, w.to_string()));
        }
    }
    pairs.retain(|p| [&p.0, &p.1].iter().all(|w| !w.is_empty() && !w.contains(|c: char| c.is_whitespace() || c == '\\')));
    parallel(ctx, |c, shard, of| {
        let dir = scratch.sub(&format!("w{}", shard));
        fresh(&dir);
        for (k, (a, b)) in pairs.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            let label = format!("reference:{:?}:{:?}", a, b);
            c.step();
            if !c.state(&label) || !c.wants(&label) {
                continue;
            }
            put(&dir, "root.sch", &text(0, &[b.clone()], &["1.sch".into(), "2.sch".into()]));
            put(&dir, "1.sch", &text(1, &["Q".into(), a.clone()], &[]));
            put(&dir, "2.sch", &text(2, &[a.clone(), b.clone()], &[]));
            c.case(&label, || whole(&dir, "root.sch", &["root.sch", "1.sch", "2.sch"], &[a, b, "", "Q1"]));
        }
    });
    // forms of components and sheets
    let mut docs: Vec<(String, String)> = vec![];
    for kind in scgen::KINDS {
        for d in deviations(&scgen::dims(kind), if t { 3 } else { 2 }) {
            docs.push((format!("{}:{:?}", kind, d), c03::canonical(&scgen::head(&scgen::head0()), &scgen::build(kind, &d))))
        }
    }
    // components with a line less
    let full = c03::canonical(&scgen::head(&scgen::head0()), &[scgen::component(&scgen::comp0())]);
    let lines: Vec<&str> = full.lines().collect();
    for (i, l) in lines.iter().enumerate() {
        if ["U ", "P ", "AR ", "F "].iter().any(|p| l.starts_with(p)) {
            let rest: String = lines.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, l)| format!("{}\n", l)).collect();
            docs.push((format!("without:{}", l), rest))
        }
    }
    parallel(ctx, |c, shard, of| {
        let dir = scratch.sub(&format!("w{}", shard));
        fresh(&dir);
        let end = "$EndSCHEMATC\n";
        for (k, (l, doc)) in docs.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            let label = format!("form:{}", l);
            c.step();
            if !c.state(&label) || !c.wants(&label) {
                continue;
            }
            // the file of a sheet is there under any of the names it has
            let doc: String = doc
                .lines()
                .map(|l| match l.starts_with("F1 \"") && !l.starts_with("F1 \"1.sch\"") && l.rfind('"').is_some() {
                    true => format!("F1 \"1.sch{}\n", &l[l.rfind('"').unwrap()..]),
                    false => format!("{}\n", l),
                })
                .collect();
            let sheets = doc.lines().filter(|l| *l == "$Sheet").count();
            put(&dir, "1.sch", &text(1, &["B1".into()], &[]));
            put(&dir, "root.sch", &doc);
            put(&dir, "top.sch", &doc.replace(end, &format!("$Sheet\nS 1 2 3 4\nU 5\nF0 \"s\" 60\nF1 \"root.sch\" 60\n$EndSheet\n{}", end)));
            let mut own = vec!["root.sch"];
            own.extend(vec!["1.sch"; sheets]);
            let mut all = vec!["top.sch"];
            all.extend(vec!["1.sch"; sheets]);
            all.extend(own.iter().cloned());
            c.case(&label, || {
                whole(&dir, "root.sch", &own, &["B", "U"])?;
                whole(&dir, "top.sch", &all, &["B", "U"])
            });
        }
    });
    let counts = shape::counts(if t { 60 } else { 20 });
    parallel(ctx, |c, shard, of| {
        let dir = scratch.sub(&format!("w{}", shard));
        for (k, &n) in counts.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            let label = format!("count:{}", n);
            c.step();
            if !c.state(&label) || !c.wants(&label) || n > 300 {
                continue;
            }
            fresh(&dir);
            let files: Vec<String> = (0..n).map(|i| format!("s{}.sch", i)).collect();
            for (i, f) in files.iter().enumerate() {
                put(&dir, f, &text(1, &[format!("R{}", i), "X".into()], &[]));
            }
            put(&dir, "root.sch", &text(0, &["A1".into()], &files));
            put(&dir, "many.sch", &text(0, &(0..n).map(|i| format!("U{}", i)).collect::<Vec<_>>(), &["root.sch".into()]));
            let mut all: Vec<&str> = vec!["root.sch"];
            all.extend(files.iter().map(|f| &f[..]));
            let few: Vec<&str> = all.clone();
            all.insert(0, "many.sch");
            c.case(&label, || {
                whole(&dir, "root.sch", &few, &["R", "U1"])?;
                whole(&dir, "many.sch", &all, &["R"])
            });
        }
    });
}
