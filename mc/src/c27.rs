use crate::core::*;
use crate::sx::{self, a, X};
use crate::{c03, c04, lagen, mutate, scgen, shape, slgen};
use kicad_parse_gen::{footprint as fp, layout as la, schematic as sc, symbol_lib as sl};

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

/// the words that are known somewhere, and those that may be taken for them
const KNOWN: &str = "locked placed hide italic bold mirror left right top bottom center smd thru_hole np_thru_hole connect rect circle oval trapezoid roundrect custom signal power mixed jumper user yes no allowed not_allowed segment polygon fillet chamfer smoothing none edge full thru_hole_only thermal_reliefs solid blind micro through virtual reference value";

fn known() -> Vec<String> {
    let mut v = vec![];
    for w in KNOWN.split(' ') {
        v.push(w.to_string());
        v.push(w.to_uppercase());
        v.push(format!("{}{}", w[..1].to_uppercase(), &w[1..]));
        v.push(format!("{}s", w));
        v.extend((3..w.len()).map(|n| w[..n].to_string()));
    }
    v
}

/// what is put in the place of a word
fn words(old: &str, vocabulary: bool) -> Vec<String> {
    let mut v: Vec<String> = shape::near(old);
    for w in ["0", "1", "-1", "2", "7", "10", "+5", "05", "1.5", "1e3", "0x10", "1x", "x1", "1,5", "1_0", "--1", "+-1", "-", "+", ".", "NaN", "inf", "true", "yes", "no", "none", "\u{661}", "\u{ff11}", "~", "word"] {
        v.push(w.into())
    }
    for w in ["127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999"] {
        v.push(w.into());
        v.push(format!("-{}", w));
    }
    for c in (33u8..127).map(|c| c as char) {
        v.push(c.to_string());
        if old.len() == 3 && old.ends_with('N') {
            v.push(format!("{}NN", c));
            v.push(format!("C{}N", c));
            v.push(format!("CN{}", c));
        }
        if old.len() < 3 && old.chars().all(|c| c.is_alphabetic()) {
            v.push(format!("N{}", c));
            v.push(format!("{}{}", c, c));
        }
    }
    if vocabulary && old.parse::<f64>().is_err() {
        v.extend(known());
    }
    v.sort();
    v.dedup();
    v.retain(|w| w != old && !w.is_empty() && !w.contains(|c: char| c.is_whitespace() || c == '"' || c == '\\'));
    v
}

/// the same number, however it is spelled
fn number(real: bool, x: &str, y: &str) -> bool {
    if let (false, Ok(a), Ok(b)) = (real, x.parse::<i128>(), y.parse::<i128>()) {
        return a == b;
    }
    match (x.parse::<f64>(), y.parse::<f64>()) {
        (Ok(a), Ok(b)) => a == b,
        _ => false,
    }
}

/// the same words in the same lines; of a component the line that repeats its position is left out
fn same_lines(real: bool, text: &str, w: &str) -> Result<(), String> {
    let (t, g): (Vec<&str>, Vec<&str>) = (text.lines().collect(), w.lines().collect());
    for (n, (x, y)) in t.iter().zip(g.iter()).enumerate() {
        let (p, q) = (shape::words(x), shape::words(y));
        if x.starts_with('\t') && p.len() == 3 && q.len() == 3 && y.starts_with('\t') {
            continue;
        }
        let head = |a: &str, b: &str| a.starts_with('F') && b.starts_with('F') && number(false, &a[1..], &b[1..]);
        if p.len() != q.len() || p.iter().zip(q.iter()).any(|(a, b)| a != b && !number(real, a, b) && !head(a, b)) {
            return Err(format!("line {}: {:?} became {:?}", n, x, y));
        }
    }
    if t.len() != g.len() {
        return Err(format!("{} lines became {}", t.len(), g.len()));
    }
    Ok(())
}

fn lines(schematic: bool, real: bool, text: &str) -> Result<String, (String, String)> {
    let w = if schematic {
        sc::parse_str(text).map(|s| format!("{}", s))
    } else {
        sl::parse_str(text).map(|s| format!("{}", s))
    };
    match w {
        Ok(w) => same_lines(real, text, &w).map(|_| "kept".into()).map_err(|e| bad("misread", e)),
        Err(_) => Ok("refused".into()),
    }
}

/// the same, but with the parts of zones in any order: polygons that are not understood go behind the others
fn unordered(x: &X, y: &X) -> Result<(), String> {
    match (x, y) {
        (X::L(v), X::L(w)) if x.head() == "zone" && y.head() == "zone" && v.len() == w.len() => {
            let mut rest: Vec<&X> = w.iter().collect();
            for p in v {
                match rest.iter().position(|q| sx::same(p, q).is_ok()) {
                    Some(n) => rest.remove(n),
                    None => return Err(format!("{} is not among the zone's parts", p.text())),
                };
            }
            Ok(())
        }
        (X::L(v), X::L(w)) if v.len() == w.len() && x.head() == "kicad_pcb" => v.iter().zip(w.iter()).map(|(p, q)| unordered(p, q)).collect(),
        _ => sx::same(x, y),
    }
}

/// the numbers that may be left out in the way they are written
fn spelled(x: &X) -> X {
    match *x {
        X::A(_) => x.clone(),
        X::L(ref v) => {
            let number = ["drill", "size", "at", "priority", "radius"].contains(&x.head());
            X::L(
                v.iter()
                    .map(|p| match *p {
                        X::A(ref w) if number => w.parse::<f64>().map(|f| a(if f == 0.0 { "0".to_string() } else { sx::num(f) })).unwrap_or_else(|_| p.clone()),
                        _ => spelled(p),
                    })
                    .collect(),
            )
        }
    }
}

fn tree(module: bool, x: &X) -> Result<String, (String, String)> {
    let text = x.text();
    let w = if module {
        match fp::parse(&text) {
            Ok(s) => fp::module_to_string(&s, 0).map_err(|e| bad("write", e.to_string()))?,
            Err(_) => return Ok("refused".into()),
        }
    } else {
        match la::parse(&text) {
            Ok(s) => la::layout_to_string(&s, 0).map_err(|e| bad("write", e.to_string()))?,
            Err(_) => return Ok("refused".into()),
        }
    };
    let got = sx::read(&w).map_err(|e| bad("write", e))?;
    let got = shape::written(&got);
    unordered(&shape::written(&spelled(x)), &got).map_err(|e| bad("misread", format!("{} from {}", e, text)))?;
    Ok("kept".into())
}

/// a whole number or a choice of words, a number, a choice told by the first letter or by the first three
#[derive(Clone, Copy, PartialEq)]
enum Slot {
    Whole,
    Real,
    First(&'static str),
    Three,
}

/// which words of the line are numbers or choices
fn slots(schematic: bool, line: &str) -> Vec<(usize, Slot)> {
    use self::Slot::*;
    let w = shape::words(line);
    let whole = |v: &[usize]| -> Vec<(usize, Slot)> { v.iter().map(|i| (*i, Whole)).collect() };
    let field = |n: &str| n.starts_with('F') && n.len() > 1 && n[1..].parse::<u32>().is_ok();
    if schematic {
        if line.starts_with('\t') {
            return if w.len() == 4 { whole(&[0, 1, 2, 3]) } else { vec![] };
        }
        return match (&w[0][..], w.len()) {
            ("$Descr", 4) => whole(&[2, 3]),
            ("Sheet", 3) => whole(&[0, 1, 2]),
            ("P", 3) => whole(&[1, 2]),
            ("S", 5) => whole(&[1, 2, 3, 4]),
            ("F", n) if n == 10 || n == 11 => {
                // the name of a reserved field goes without saying
                let mut v = whole(if n == 10 { &[1, 6, 7] } else { &[6, 7] });
                v.extend(vec![(4, Real), (5, Real), (3, First("HV")), (8, First("LCRTB")), (9, Three)]);
                v
            }
            ("Connection", 4) | ("NoConn", 4) => whole(&[2, 3]),
            ("Text", n) if n == 8 || n == 9 => whole(&[1, 2, 3, 4, 5, n - 1]),
            (f, 3) if field(f) => whole(&[2]),
            (f, 7) if field(f) => whole(&[2, 3, 4, 5, 6]),
            _ => vec![],
        };
    }
    match (&w[0][..], w.len()) {
        ("DEF", 10) => {
            let mut v = whole(&[5, 6, 7, 8, 9]);
            v.push((4, Real));
            v
        }
        ("X", n) if n == 12 || n == 13 => whole(&(3..n).collect::<Vec<_>>()),
        ("S", 9) => whole(&(1..9).collect::<Vec<_>>()),
        (f, n) if field(f) && (n == 9 || n == 10) => {
            let mut v = whole(if n == 9 { &[0, 4, 6] } else { &[4, 6] });
            v.extend(vec![(2, Real), (3, Real), (5, First("HV")), (7, First("LCRTB")), (8, Three)]);
            v
        }
        _ => vec![],
    }
}

/// whether the place asks for nothing of such a word: it starts like one that is known there
fn open(s: Slot, w: &str) -> bool {
    let c: Vec<char> = w.chars().collect();
    match s {
        Slot::Whole | Slot::Real => false,
        Slot::First(l) => c.len() > 1 && l.contains(c[0]),
        Slot::Three => c.len() > 3 && "LCRTB".contains(c[0]) && "IN".contains(c[1]) && "BN".contains(c[2]),
    }
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough();
    let mut docs: Vec<(String, bool, usize, String)> = vec![("head".into(), true, 1, c03::canonical(&scgen::head(&scgen::head0()), &[]))];
    let first = docs[0].3.lines().count() - 1;
    for kind in scgen::KINDS {
        for d in deviations(&scgen::dims(kind), if t { 2 } else { 1 }) {
            docs.push((format!("{}:{:?}", kind, d), true, first, c03::canonical(&scgen::head(&scgen::head0()), &scgen::build(kind, &d))));
        }
    }
    for kind in slgen::KINDS {
        for d in deviations(&slgen::dims(kind), 1) {
            docs.push((format!("{}:{:?}", kind, d), false, 1, c04::text_of(&[slgen::build(kind, &d)], 0)));
        }
    }
    parallel(ctx, |c, shard, of| {
        for (at, (label, schematic, first, doc)) in docs.iter().enumerate() {
            if at % of != shard || lines(*schematic, false, doc) != Ok("kept".into()) {
                continue;
            }
            c.sample("document", || doc.clone());
            let all: Vec<&str> = doc.lines().collect();
            for n in *first..all.len() {
                let ps = shape::pieces(all[n]);
                let at: Vec<usize> = (0..ps.len()).filter(|&i| !ps[i].trim().is_empty()).collect();
                if at.is_empty() {
                    continue;
                }
                for (k, slot) in slots(*schematic, all[n]) {
                    let i = at[k];
                    for w in words(&ps[i], true) {
                        if open(slot, &w) {
                            continue;
                        }
                        let mut q = ps.clone();
                        q[i] = w.clone();
                        let q = q.concat();
                        let mut out = all.clone();
                        out[n] = &q;
                        let text = out.join("\n") + "\n";
                        c.step();
                        if c.state(&text) {
                            c.case(&format!("{}:{}.{}={}", label, n, k, w), || lines(*schematic, slot == Slot::Real, &text));
                        }
                    }
                }
            }
        }
    });
    let mut trees: Vec<(bool, String, bool, X)> = vec![(true, "head".into(), false, shape::board(vec![]))];
    // every kind of layer
    for k in [0, 2, 4] {
        let mut d = lagen::head0();
        d[16] = k;
        d[19] = 6;
        trees.push((true, format!("layers{}", k), false, lagen::layout_case(&d, &[], 0).output));
    }
    for (label, module, e) in if t { shape::elements(1) } else { shape::structures(1) } {
        trees.push((false, label, module, if module { shape::footprint(vec![e]) } else { shape::board(vec![e]) }));
    }
    let first: std::collections::HashSet<String> = shape::structures(1).into_iter().map(|e| e.0).collect();
    parallel(ctx, |c, shard, of| {
        for (head, label, module, x) in trees.iter() {
            if tree(*module, x) != Ok("kept".into()) {
                continue;
            }
            for (path, _) in mutate::lists(x) {
                let last = match *x {
                    X::L(ref v) => v.len() - 1,
                    _ => 0,
                };
                // of a board only the element
                if !*head && path.first() != Some(&last) {
                    continue;
                }
                if let X::L(ref items) = *mutate::get(x, &path) {
                    for (i, p) in items.iter().enumerate().skip(1) {
                        if let X::A(ref old) = *p {
                            for (n, w) in words(old, *head || first.contains(label)).into_iter().enumerate() {
                                if n % of != shard {
                                    continue;
                                }
                                let y = mutate::replace(x, &path, i, &a(&w[..]));
                                c.step();
                                if c.state(&y.text()) {
                                    c.case(&format!("{}:{:?}.{}={}", label, path, i, w), || tree(*module, &y));
                                }
                            }
                        }
                    }
                }
            }
        }
    });
}
