use crate::core::*;
use crate::mutate::*;
use crate::scgen;
use crate::slgen;
use crate::sx::{self, a, X};
use crate::{c03, c04, c05, fpgen, lagen};
use kicad_parse_gen as k;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum R {
    Footprint,
    Layout,
    Schematic,
    SymbolLib,
    Table,
    Project,
}
pub const READERS: &[R] = &[R::Footprint, R::Layout, R::Schematic, R::SymbolLib, R::Table, R::Project];

/// read, and write what was read
fn give(r: R, text: &str) -> Result<String, (String, String)> {
    let written = match r {
        R::Footprint => k::footprint::parse(text).map(|m| k::footprint::module_to_string(&m, 0)),
        R::Layout => k::layout::parse(text).map(|m| k::layout::layout_to_string(&m, 0)),
        R::Schematic => k::schematic::parse_str(text).map(|m| Ok(format!("{}", m))),
        R::SymbolLib => k::symbol_lib::parse_str(text).map(|m| Ok(format!("{}", m))),
        R::Table => k::fp_lib_table::parse(text).map(|m| k::fp_lib_table::to_string(&m, 0).map_err(|e| e.into())).map_err(|e| e.into()),
        R::Project => k::project::parse_str(text).map(|m| Ok(format!("{:?}", m))),
    };
    Ok(match written {
        Err(e) => {
            // the error can be shown
            let _ = format!("{} {:?}", e, e);
            "error"
        }
        Ok(Ok(_)) => "value",
        Ok(Err(_)) => "value, error when written",
    }
    .into())
}

fn visit(c: &mut Ctx, r: R, label: &str, text: &str) {
    c.step();
    if c.state(&(r, text)) {
        let kind = format!("{:?}", r);
        c.sample(&kind, || text.to_string());
        c.case(label, || give(r, text));
    }
}

const BYTES: &[&str] = &["(", ")", "\"", "\\", "\n", " ", "\0", "é", "9", "-", "~", "$", "\r", "\t"];

fn byte_edits(text: &str, f: &mut dyn FnMut(String, &str)) {
    let ends: Vec<usize> = text.char_indices().map(|(i, _)| i).chain(std::iter::once(text.len())).collect();
    for w in ends.windows(2) {
        let (i, j) = (w[0], w[1]);
        f(format!("cut{}", i), &text[..i]);
        f(format!("tail{}", i), &text[i..]);
        f(format!("del{}", i), &format!("{}{}", &text[..i], &text[j..]));
        for (n, b) in BYTES.iter().enumerate() {
            f(format!("put{}:{}", i, n), &format!("{}{}{}", &text[..i], b, &text[j..]));
            f(format!("ins{}:{}", i, n), &format!("{}{}{}", &text[..i], b, &text[i..]));
        }
    }
}

const WORDS: &[&str] = &[
    "", "zzz", "-1", "-", "99999999999999999999", "-99999999999999999999", "1e400", "nan", "inf", "1.5", "0x", ".", "..", "a.b.c", "*.Cu", "é", "~", "\"", "\"a", "%",
];

fn tree_edits(x: &X, f: &mut dyn FnMut(String, &str)) {
    let mut subst: Vec<X> = WORDS.iter().filter(|w| !w.contains('"')).map(|w| a(*w)).collect();
    for s in ["()", "(zzz)", "(())", "((a) b)", "(a ())"] {
        subst.push(sx::read(s).unwrap());
    }
    for (path, len) in lists(x) {
        for i in 0..len {
            f(format!("del{:?}@{}", path, i), &remove(x, &path, i).text());
            f(format!("keep{:?}@{}", path, i), &edit(x, &path, &|v| v.truncate(i)).text());
            f(format!("dup{:?}@{}", path, i), &edit(x, &path, &|v| {
                let y = v[i].clone();
                v.insert(i, y)
            })
            .text());
            if i + 1 < len {
                f(format!("swap{:?}@{}", path, i), &edit(x, &path, &|v| v.swap(i, i + 1)).text());
            }
            for (n, w) in subst.iter().enumerate() {
                f(format!("rep{:?}@{}:{}", path, i, n), &replace(x, &path, i, w).text());
            }
            f(format!("wrap{:?}@{}", path, i), &edit(x, &path, &|v| v[i] = X::L(vec![v[i].clone()])).text());
            f(format!("open{:?}@{}", path, i), &edit(x, &path, &|v| {
                if let X::L(w) = v.remove(i) {
                    for y in w.into_iter().rev() {
                        v.insert(i, y)
                    }
                }
            })
            .text());
        }
    }
}

/// two places at once: drop or blank any two items
fn tree_pairs(x: &X, f: &mut dyn FnMut(String, &str)) {
    let places: Vec<(Vec<usize>, usize)> = lists(x).into_iter().flat_map(|(p, n)| (0..n).map(move |i| (p.clone(), i))).collect();
    for (n, p) in places.iter().enumerate() {
        for (m, q) in places.iter().enumerate().take(n) {
            // later places first, so that earlier paths stay right
            let mut y = replace(x, &p.0, p.1, &a("zzz"));
            if q.0.len() <= p.0.len() && p.0.starts_with(&q.0) && p.0.get(q.0.len()) == Some(&q.1) {
                continue;
            }
            y = replace(&y, &q.0, q.1, &a("9"));
            f(format!("two{},{}", n, m), &y.text());
            if p.0 != q.0 && !p.0.starts_with(&q.0) && !q.0.starts_with(&p.0) {
                let z = remove(&remove(x, &p.0, p.1), &q.0, q.1);
                f(format!("del{},{}", n, m), &z.text());
            }
        }
    }
}

fn line_edits(text: &str, f: &mut dyn FnMut(String, &str)) {
    let lines: Vec<&str> = text.split('\n').collect();
    let join = |v: &[String]| v.join("\n");
    let own: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
    for i in 0..lines.len() {
        f(format!("cut{}", i), &join(&own[..i]));
        f(format!("tail{}", i), &join(&own[i..]));
        let mut v = own.clone();
        v.remove(i);
        f(format!("del{}", i), &join(&v));
        if i + 1 < lines.len() {
            let mut v = own.clone();
            v.swap(i, i + 1);
            f(format!("swap{}", i), &join(&v));
        }
        let mut distinct: Vec<&str> = lines.clone();
        distinct.sort();
        distinct.dedup();
        for (n, l) in distinct.iter().enumerate() {
            let mut v = own.clone();
            v.insert(i, l.to_string());
            f(format!("line{}:{}", i, n), &join(&v));
        }
        let toks: Vec<&str> = lines[i].split(' ').collect();
        for t in 0..toks.len() {
            let with = |w: Vec<&str>| {
                let mut v = own.clone();
                v[i] = w.join(" ");
                join(&v)
            };
            f(format!("tcut{}.{}", i, t), &with(toks[..t].to_vec()));
            f(format!("ttail{}.{}", i, t), &with(toks[t..].to_vec()));
            let mut w = toks.clone();
            w.remove(t);
            f(format!("tdel{}.{}", i, t), &with(w));
            let mut w = toks.clone();
            w.insert(t, toks[t]);
            f(format!("tdup{}.{}", i, t), &with(w));
            for (n, x) in WORDS.iter().enumerate() {
                let mut w = toks.clone();
                w[t] = x;
                f(format!("trep{}.{}:{}", i, t, n), &with(w));
            }
        }
    }
}

pub fn text_bases(reps: bool) -> Vec<(R, String, X)> {
    let mut docs = vec![];
    let k = if reps { 0 } else { 1 };
    for kind in fpgen::KINDS {
        for d in fpgen::variants(kind, k) {
            docs.push((R::Footprint, format!("{}:{:?}", kind, d), fpgen::module_case("m", &[fpgen::build(kind, &d)]).input));
        }
    }
    if reps {
        for (n, e) in fpgen::representatives().iter().enumerate() {
            docs.push((R::Footprint, format!("rep{}", n), fpgen::module_case("m", &[e.1.clone()]).input));
        }
    }
    let mut small = lagen::head0();
    small[19] = 6;
    for kind in lagen::KINDS {
        for d in deviations(&lagen::dims(kind), k) {
            docs.push((R::Layout, format!("{}:{:?}", kind, d), lagen::layout_case(&small, &[lagen::build(kind, &d)], 0).input));
        }
    }
    if reps {
        for (n, e) in lagen::la_representatives().iter().enumerate() {
            docs.push((R::Layout, format!("rep{}", n), lagen::layout_case(&small, &[e.1.clone()], 0).input));
        }
    }
    docs.push((R::Layout, "head".into(), lagen::layout_case(&lagen::head0(), &[], 0).input));
    for libs in [vec![], vec![vec![0, 8, 3, 1, 2]], vec![vec![0, 8, 3, 1, 2], vec![1, 1, 1, 1, 1]]] {
        docs.push((R::Table, format!("table:{:?}", libs), c05::table(&libs).0));
    }
    docs
}

pub fn line_bases(k: usize) -> Vec<(R, String, String)> {
    let mut v = vec![];
    let h = scgen::head(&scgen::head0());
    let all: Vec<_> = scgen::representatives().iter().flat_map(|r| scgen::build(r.0, &r.1)).collect();
    v.push((R::Schematic, "all".to_string(), c03::canonical(&h, &all)));
    for kind in scgen::KINDS {
        for d in deviations(&scgen::dims(kind), k) {
            v.push((R::Schematic, format!("{}:{:?}", kind, d), c03::canonical(&h, &scgen::build(kind, &d))));
        }
    }
    for r in 0..slgen::REPS {
        v.push((R::SymbolLib, format!("sym{}", r), c04::text_of(&[slgen::reps(r)], 0)));
    }
    v.push((R::Project, "project".into(), "update=Thu 1 Jan\nversion=1\n[general]\nlast_client=x\n".into()));
    v
}

const SX_TOKENS: &[&str] = &["(", ")", "\"", " ", "a", "1", "module ", "(at 1 2)", "\n"];
const SX_HEADS: &[(R, &str)] = &[(R::Footprint, "(module "), (R::Layout, "(kicad_pcb "), (R::Table, "(fp_lib_table ")];
const SC_LINES: &[&str] = &[
    "EESchema Schematic File Version 2",
    "LIBS:power",
    "EELAYER 25 0",
    "EELAYER END",
    "$Descr A4 11693 8268",
    "encoding utf-8",
    "$EndDescr",
    "$Comp",
    "L R R1",
    "U 1 1 58A9B5C0",
    "P 1 2",
    "F 0 \"R1\" H 1 2 50  0000 C CNN",
    "F 0",
    "AR Path=\"\"",
    "\t1    1 2",
    "\t1    0    0    -1",
    "$EndComp",
    "$Sheet",
    "S 1 2 3 4",
    "F0 \"a\" 60",
    "F2 \"p\" I L 1 2 60",
    "$EndSheet",
    "Wire Wire Line",
    "\t1 2 3 4",
    "Text Label 1 2 0    60   ~ 0",
    "Text GLabel 1 2 0    60   Input ~ 0",
    "Connection ~ 1 2",
    "NoConn ~ 1 2",
    "",
    "zzz",
    "$EndSCHEMATC",
];
const SL_LINES: &[&str] = &[
    "EESchema-LIBRARY Version 2.3",
    "#encoding utf-8",
    "#",
    "# R",
    "DEF R R 0 40 Y Y 1 F N",
    "DEF ~R R 0 40 Y Y 1 F P",
    "DEF",
    "F0 \"R\" 0 0 50 H V C CNN",
    "F1 \"R\" 0 0 50 H V C CNN",
    "F2",
    "ALIAS a b",
    "$FPLIST",
    " a*",
    "$ENDFPLIST",
    "DRAW",
    "S 1 2 3 4 0 1 0 N",
    "X a 1 0 0 100 R 50 50 1 1 P",
    "X",
    "ENDDRAW",
    "ENDDEF",
    "#End Library",
    "",
];

fn quoted(c: &mut Ctx, shard: usize, of: usize) {
    let alphabet = ["\"", "\\", " ", "a", "~", "é", "\t"];
    let n = if c.thorough() { 6 } else { 5 };
    for (i, s) in sequences(alphabet.len(), n).iter().enumerate() {
        if i % of != shard {
            continue;
        }
        let t: String = s.iter().map(|&j| alphabet[j]).collect();
        let sc = format!(
            "EESchema Schematic File Version 2\nEELAYER 25 0\nEELAYER END\n$Descr A4 11693 8268\nencoding utf-8\n$EndDescr\n$Comp\nL R R1\nU 1 1 58A9B5C0\nP 1 2\nF {} H 1 2 50  0000 C CNN\n\t1    1 2\n\t1    0    0    -1\n$EndComp\n$EndSCHEMATC\n",
            t
        );
        visit(c, R::Schematic, &format!("quoted:sc:{:?}", s), &sc);
        let sc = format!("EESchema Schematic File Version 2\nEELAYER 25 0\nEELAYER END\n$Descr A4 11693 8268\nencoding utf-8\nTitle {}\n$EndDescr\n$Sheet\nS 1 2 3 4\nU 5A\nF0 {} 60\nF1 {}\n$EndSheet\n$EndSCHEMATC\n", t, t, t);
        visit(c, R::Schematic, &format!("quoted:sh:{:?}", s), &sc);
        let sl = format!("EESchema-LIBRARY Version 2.3\n#encoding utf-8\n#\n# R\n#\nDEF {} R 0 40 Y Y 1 F N\nF0 {} 0 0 50 H V C CNN\nF1 \"R\" 0 0 50 H V C CNN\nDRAW\nENDDRAW\nENDDEF\n#\n#End Library\n", t, t);
        visit(c, R::SymbolLib, &format!("quoted:sl:{:?}", s), &sl);
        for (h, open) in SX_HEADS {
            visit(c, *h, &format!("quoted:{:?}:{:?}", h, s), &format!("{}{})", open, t));
        }
    }
}

fn short(c: &mut Ctx, shard: usize, of: usize) {
    let (n, m) = if c.thorough() { (7, 4) } else { (6, 3) };
    for (i, s) in sequences(SX_TOKENS.len(), n).iter().enumerate() {
        if i % of != shard {
            continue;
        }
        let t: String = s.iter().map(|&j| SX_TOKENS[j]).collect();
        for (h, open) in SX_HEADS {
            visit(c, *h, &format!("short:{:?}:{:?}", h, s), &t);
            if s.len() < n {
                visit(c, *h, &format!("inner:{:?}:{:?}", h, s), &format!("{}{}", open, t));
            }
        }
        if s.len() < n - 1 {
            for r in [R::Schematic, R::SymbolLib, R::Project] {
                visit(c, r, &format!("short:{:?}:{:?}", r, s), &t);
            }
        }
    }
    let frames: &[(R, &[&str], &str, &[&str])] = &[
        (R::Schematic, SC_LINES, "", &[""]),
        (
            R::Schematic,
            SC_LINES,
            "EESchema Schematic File Version 2\n",
            &["", "$EndSCHEMATC\n"],
        ),
        (
            R::Schematic,
            SC_LINES,
            "EESchema Schematic File Version 2\nLIBS:power\nEELAYER 25 0\nEELAYER END\n$Descr A4 11693 8268\nencoding utf-8\n$EndDescr\n",
            &["", "$EndComp\n$EndSCHEMATC\n", "$EndSheet\n$EndSCHEMATC\n"],
        ),
        (
            R::Schematic,
            SC_LINES,
            "EESchema Schematic File Version 2\nEELAYER 25 0\nEELAYER END\n$Comp\n",
            &["", "$EndComp\n$EndSCHEMATC\n"],
        ),
        (R::SymbolLib, SL_LINES, "", &[""]),
        (R::SymbolLib, SL_LINES, "EESchema-LIBRARY Version 2.3\n", &["", "#\n#End Library\n"]),
        (
            R::SymbolLib,
            SL_LINES,
            "EESchema-LIBRARY Version 2.3\n#encoding utf-8\n#\n# R\n#\nDEF R R 0 40 Y Y 1 F N\n",
            &["", "ENDDEF\n#\n#End Library\n", "DRAW\nENDDRAW\nENDDEF\n#\n#End Library\n"],
        ),
    ];
    for (fi, (r, lines, pre, posts)) in frames.iter().enumerate() {
        for (i, s) in sequences(lines.len(), m).iter().enumerate() {
            if i % of != shard {
                continue;
            }
            for (p, post) in posts.iter().enumerate() {
                let mut t = pre.to_string();
                for &j in s {
                    t.push_str(lines[j]);
                    t.push('\n');
                }
                t.push_str(post);
                visit(c, *r, &format!("lines{}.{}:{:?}", fi, p, s), &t);
            }
        }
    }
}

/// lists inside lists, to any depth, and very long pieces
fn deep(ctx: &mut Ctx, shard: usize, of: usize) {
    let depths: Vec<usize> = (0..1100).chain((1..=if ctx.thorough() { 60 } else { 10 }).map(|i| i * 10_000)).collect();
    let places: &[(R, &str)] = &[
        (R::Footprint, ""),
        (R::Footprint, "(module "),
        (R::Footprint, "(module m (pad "),
        (R::Layout, ""),
        (R::Layout, "(kicad_pcb (zzz "),
        (R::Layout, "(kicad_pcb (zone "),
        (R::Layout, "(kicad_pcb (module m "),
        (R::Table, ""),
        (R::Table, "(fp_lib_table (lib "),
    ];
    for (r, pre) in places {
        for (k, &n) in depths.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            for (i, unit) in ["(", "(a ", "((a)(b) "].iter().enumerate() {
                for closed in [false, true] {
                    let depth: usize = unit.matches('(').count() - unit.matches(')').count();
                    let mut t = pre.to_string();
                    for _ in 0..n {
                        t.push_str(unit)
                    }
                    if closed {
                        let open = pre.matches('(').count() + n * depth;
                        for _ in 0..open {
                            t.push(')')
                        }
                    }
                    let label = format!("deep:{:?}:{}:{}x{}:{}", r, pre, n, i, closed);
                    ctx.step();
                    if !ctx.state(&(*r, &t)) {
                        continue;
                    }
                    ctx.case(&label, || {
                        // with the stack an ordinary thread has
                        std::thread::scope(|s| {
                            std::thread::Builder::new()
                                .stack_size(2 << 20)
                                .spawn_scoped(s, || guarded(|| give(*r, &t)))
                                .unwrap()
                                .join()
                                .unwrap()
                        })
                        .unwrap_or_else(|p| Err(("panic".into(), format!("the call panicked: {}", p))))
                    });
                }
            }
        }
    }
    if shard != 0 {
        return;
    }
    for n in [1usize, 255, 256, 257, 65535, 65536, 1 << 20] {
        for (i, unit) in ["a", "9", "-", "\"", " ", "\n", "é", "(a)", "$", "#\n", "a\n", "\\"].iter().enumerate() {
            let long = unit.repeat(n);
            for r in READERS {
                for (p, (pre, post)) in [
                    ("", ""),
                    ("(module ", ")"),
                    ("(kicad_pcb (page ", "))"),
                    ("(kicad_pcb (net ", " a))"),
                    ("(module m (at ", " 1))"),
                    ("(fp_lib_table (lib (name ", ")))"),
                    ("EESchema Schematic File Version 2\nLIBS:", "\n$EndSCHEMATC\n"),
                    ("EESchema-LIBRARY Version 2.3\n", "\n#End Library\n"),
                    ("update=", "\n"),
                ]
                .iter()
                .enumerate()
                {
                    if n > 65536 && p > 0 {
                        continue;
                    }
                    let t = format!("{}{}{}", pre, long, post);
                    ctx.step();
                    if ctx.state(&(*r, &t)) {
                        ctx.case(&format!("long:{:?}:{}x{}:{}", r, i, n, p), || give(*r, &t));
                    }
                }
            }
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.assumptions.push("a call that takes more than 30 s counts as running forever; deep nesting is read on a 2 MB stack".into());
    let thorough = ctx.thorough();
    let reps = text_bases(true);
    let all = text_bases(false);
    let lines = line_bases(if thorough { 1 } else { 0 });
    parallel(ctx, |c, shard, of| {
        let mut n = 0;
        let mut mine = || {
            n += 1;
            n % of == shard
        };
        for (r, name, x) in if thorough { &all } else { &reps } {
            if mine() {
                let text = x.text();
                byte_edits(&text, &mut |m, t| visit(c, *r, &format!("byte:{}:{}", name, m), t));
            }
        }
        for (r, name, x) in &reps {
            if mine() {
                for style in 0..8 {
                    visit(c, *r, &format!("style:{}:{}", name, style), &x.text_style(style));
                }
            }
            if mine() {
                tree_pairs(x, &mut |m, t| visit(c, *r, &format!("pair:{}:{}", name, m), t));
            }
            // every document to every reader
            if mine() {
                for q in READERS {
                    visit(c, *q, &format!("other:{}:{:?}", name, q), &x.text());
                }
            }
        }
        for (r, name, x) in &all {
            if mine() {
                tree_edits(x, &mut |m, t| visit(c, *r, &format!("tree:{}:{}", name, m), t));
            }
        }
        for (r, name, text) in &lines {
            if mine() {
                byte_edits(text, &mut |m, t| visit(c, *r, &format!("byte:{}:{}", name, m), t));
            }
            if mine() {
                line_edits(text, &mut |m, t| visit(c, *r, &format!("line:{}:{}", name, m), t));
            }
            if mine() {
                for q in READERS {
                    visit(c, *q, &format!("other:{}:{:?}", name, q), text);
                }
            }
        }
        quoted(c, shard, of);
        short(c, shard, of);
    });
    parallel(ctx, deep);
}
