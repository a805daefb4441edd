//! Documents of other shapes than the generators' own: the numbers of an
//! element equal to each other, one of them far from the others, and lists of
//! any length.

use crate::fpgen;
use crate::lagen;
use crate::mutate;
use crate::sx::{self, X};

/// where the numbers are, timestamps aside
pub fn slots(x: &X) -> Vec<(Vec<usize>, usize)> {
    let mut v = vec![];
    for (path, _) in mutate::lists(x) {
        let list = mutate::get(x, &path);
        if ["tstamp", "tedit", "path", "descr", "tags", "fp_text", "gr_text", "model"].contains(&list.head()) {
            continue;
        }
        if let X::L(ref items) = *list {
            for (i, p) in items.iter().enumerate().skip(1) {
                if let X::A(ref s) = *p {
                    if s.parse::<f64>().map(|f| f.is_finite()).unwrap_or(false) {
                        v.push((path.clone(), i));
                    }
                }
            }
        }
    }
    v
}

fn at<'a>(x: &'a X, s: &(Vec<usize>, usize)) -> &'a X {
    match *mutate::get(x, &s.0) {
        X::L(ref v) => &v[s.1],
        X::A(_) => unreachable!(),
    }
}

fn whole(x: &X) -> bool {
    match *x {
        X::A(ref s) => s.parse::<i64>().is_ok(),
        X::L(_) => false,
    }
}

/// the lists whose numbers are not whole, whatever stands there
const REAL: &[&str] = &["at", "xy", "xyz", "start", "end", "center", "size", "rect_delta", "offset", "drill", "angle", "width", "thickness", "clearance", "radius"];

/// numbers for this place
fn forms(x: &X, q: &(Vec<usize>, usize)) -> Vec<String> {
    magnitudes(whole(at(x, q)) && !REAL.contains(&mutate::get(x, &q.0).head()))
}

/// all numbers equal, and every number equal to every other
pub fn equal(x: &X) -> Vec<(String, X)> {
    let s = slots(x);
    let mut v = vec![];
    for n in ["1", "7"] {
        let mut y = x.clone();
        for q in &s {
            y = mutate::replace(&y, &q.0, q.1, &sx::a(n));
        }
        v.push((format!("all-{}", n), y));
    }
    for (i, to) in s.iter().enumerate() {
        for (j, from) in s.iter().enumerate() {
            let w = at(x, from);
            if i == j || w == at(x, to) || (whole(at(x, to)) && !whole(w)) {
                continue;
            }
            v.push((format!("{}={}", i, j), mutate::replace(x, &to.0, to.1, w)));
        }
    }
    v
}

/// every number far away from the others, one at a time
pub fn far(x: &X) -> Vec<(String, X)> {
    let mut v = vec![];
    for (i, q) in slots(x).iter().enumerate() {
        for w in if whole(at(x, q)) { ["300", "-300"] } else { ["300.5", "-300.5"] } {
            // sizes are not negative
            if w.starts_with('-') && ["size", "drill", "thickness", "width"].contains(&mutate::get(x, &q.0).head()) {
                continue;
            }
            v.push((format!("{}:={}", i, w), mutate::replace(x, &q.0, q.1, &sx::a(w))));
        }
    }
    v
}

/// the form the library writes: a round drill has one size, and a size or
/// drill of nothing is left out
pub fn written(x: &X) -> X {
    match *x {
        X::A(_) => x.clone(),
        X::L(ref v) => {
            let mut v: Vec<X> = v.iter().map(written).collect();
            if x.head() == "at" && v.len() == 4 && v[3] == sx::a("0") {
                v.pop();
            }
            if x.head() == "pad" {
                for p in v.iter_mut().filter(|p| p.head() == "drill") {
                    if let X::L(ref mut d) = *p {
                        let is: Vec<usize> = (1..d.len()).filter(|&i| matches!(d[i], X::A(ref w) if w.parse::<f64>().is_ok())).collect();
                        if is.len() == 2 && d[is[0]] == d[is[1]] {
                            d.remove(is[1]);
                        }
                        if !is.is_empty() && d[is[0]] == sx::a("0") && (is.len() == 1 || d.get(is[0] + 1).map_or(true, |p| matches!(*p, X::L(_)))) {
                            d.remove(is[0]);
                        }
                    }
                }
            }
            v.retain(|p| p != &sx::l("size", vec![sx::a("0"), sx::a("0")]) || x.head() != "font");
            v.retain(|p| p != &sx::l1("mode", sx::a("polygon")) || x.head() != "fill");
            for (list, part) in [("via", "drill"), ("zone", "priority"), ("fill", "radius")] {
                v.retain(|p| p != &sx::l1(part, sx::a("0")) || x.head() != list);
            }
            X::L(v)
        }
    }
}

/// the elements the transformations start from
pub fn elements(k: usize) -> Vec<(String, bool, X)> {
    let mut v = vec![];
    for kind in fpgen::KINDS {
        for d in fpgen::variants(kind, k) {
            v.push((format!("{}:{:?}", kind, d), true, fpgen::build(kind, &d).output));
        }
    }
    for (name, c) in fpgen::representatives() {
        v.push((format!("rep:{}", name), true, c.output));
    }
    for kind in lagen::KINDS {
        for d in crate::core::deviations(&lagen::dims(kind), k) {
            v.push((format!("{}:{:?}", kind, d), false, lagen::build(kind, &d).output));
        }
    }
    for (name, c) in lagen::la_representatives() {
        v.push((format!("rep:{}", name), false, c.output));
    }
    v
}

/// one element of each structure: those that have other parts than the ones in front of them
pub fn structures(k: usize) -> Vec<(String, bool, X)> {
    fn structure(x: &X) -> String {
        match *x {
            X::A(ref w) => if w.parse::<f64>().is_ok() { "n" } else { "w" }.to_string(),
            X::L(ref v) => {
                let parts: Vec<String> = v.iter().skip(1).map(structure).collect();
                format!("({} {})", x.head(), parts.join(" "))
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    elements(k).into_iter().filter(|e| e.0.starts_with("rep:") || seen.insert(structure(&e.2))).collect()
}

/// a footprint of these elements
pub fn footprint(els: Vec<X>) -> X {
    let mut v = vec![sx::a("m")];
    v.extend(els);
    sx::l("module", v)
}

/// a board of these elements
pub fn board(els: Vec<X>) -> X {
    let mut small = lagen::head0();
    small[19] = 6;
    match lagen::layout_case(&small, &[], 0).output {
        X::L(mut v) => {
            v.extend(els);
            X::L(v)
        }
        x => x,
    }
}

fn point(i: usize) -> X {
    sx::l("xy", vec![sx::n(i as f64 + 0.25), sx::n(-3.5 * i as f64)])
}

/// `x` with the part it has under `path` replaced by `n` parts
fn filled(x: &X, path: &[&str], n: usize, item: &dyn Fn(usize) -> X) -> X {
    match *x {
        X::A(_) => x.clone(),
        X::L(ref v) => {
            let mut out = vec![];
            let mut done = false;
            for p in v {
                let hit = match *p {
                    X::L(_) => p.head() == path[0] || path[0] == "*",
                    X::A(_) => false,
                };
                if !hit {
                    out.push(p.clone());
                } else if path.len() > 1 {
                    out.push(if done { p.clone() } else { filled(p, &path[1..], n, item) });
                    done = true;
                } else if !done {
                    out.extend((0..n).map(|i| item(i)));
                    done = true;
                }
            }
            X::L(out)
        }
    }
}

/// every count up to `most`, and those around the limits further up
pub fn counts(most: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=most).collect();
    v.extend([50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 512, 513, 1000].iter().filter(|n| **n > most));
    v
}

/// lists of every length up to `most`, and some longer ones: label, whether it is a footprint, the document
pub fn many(most: usize) -> Vec<(String, bool, X)> {
    let mut v = vec![];
    let rep = |f: bool, want: &str| -> X {
        elements(0).into_iter().filter(|e| e.1 == f && e.2.head() == want && e.0.starts_with("rep:")).map(|e| e.2).next().unwrap()
    };
    let zone = elements(0).into_iter().filter(|e| !e.1 && e.2.text().contains("fill_segments") && e.2.text().contains("filled_polygon")).map(|e| e.2).next().unwrap();
    let names = ["F.Cu", "B.Cu", "In1.Cu", "F.Mask", "B.Mask", "F.Paste", "B.Paste", "Edge.Cuts", "*.Cu", "F.SilkS"];
    let polygon = |head: &'static str| move |i: usize| sx::l1(head, sx::l("pts", vec![point(i), point(i + 1), point(2 * i)]));
    for n in counts(most) {
        // as many elements of each kind
        for kind in fpgen::KINDS {
            let ds = fpgen::variants(kind, 2);
            if *kind == "other" || ds.len() < n {
                continue;
            }
            v.push((format!("{} {}", n, kind), true, footprint(ds[..n].iter().map(|d| fpgen::build(kind, d).output).collect())));
        }
        for kind in lagen::KINDS {
            let ds = crate::core::deviations(&lagen::dims(kind), 2);
            if *kind == "other" || ds.len() < n {
                continue;
            }
            v.push((format!("{} {}", n, kind), false, board(ds[..n].iter().map(|d| lagen::build(kind, d).output).collect())));
        }
        // as many parts of an element
        if n > 0 {
            v.push((format!("{} points", n), true, footprint(vec![filled(&rep(true, "fp_poly"), &["pts", "xy"], n, &point)])));
            let layers = sx::l("layers", names.iter().cycle().take(n).map(|s| sx::a(*s)).collect());
            v.push((format!("{} layers", n), true, footprint(vec![filled(&rep(true, "pad"), &["layers"], 1, &|_| layers.clone())])));
            v.push((format!("{} outline points", n), false, board(vec![filled(&zone, &["polygon", "pts", "xy"], n, &point)])));
            v.push((format!("{} segment points", n), false, board(vec![filled(&zone, &["fill_segments", "pts", "xy"], n, &point)])));
            for part in ["feature1", "feature2", "crossbar", "arrow1a", "arrow1b", "arrow2a", "arrow2b"] {
                v.push((format!("{} {} points", n, part), false, board(vec![filled(&rep(false, "dimension"), &[part, "pts", "xy"], n, &point)])));
            }
            v.push((format!("{} filled points", n), false, board(vec![filled(&zone, &["filled_polygon", "pts", "xy"], n, &point)])));
        }
        v.push((format!("{} filled polygons", n), false, board(vec![filled(&zone, &["filled_polygon"], n, &polygon("filled_polygon"))])));
        v.push((format!("{} outlines", n), false, board(vec![filled(&zone, &["polygon"], n, &polygon("polygon"))])));
        let class = match rep(false, "net_class") {
            X::L(p) => p.into_iter().filter(|p| p.head() != "add_net").collect::<Vec<_>>(),
            x => vec![x],
        };
        let mut class = class;
        class.extend((0..n).map(|i| sx::l1("add_net", sx::a(format!("N{}", i)))));
        v.push((format!("{} nets in a class", n), false, board(vec![X::L(class)])));
        v.push((format!("{} nets", n), false, board((0..n).map(|i| sx::l("net", vec![sx::i(i as i64), sx::a(format!("N{}", i))])).collect())));
        // the header
        let entry = |i: usize| X::L(vec![sx::a(format!("entry_{}", i % 20)), sx::a(format!("{}", i)), sx::a("0.5")].into_iter().take(2 + i % 2).collect());
        let mut setup: Vec<X> = (0..n).map(entry).collect();
        setup.push(sx::l("pcbplotparams", vec![]));
        v.push((format!("{} setup entries", n), false, filled(&board(vec![]), &["setup"], 1, &|_| sx::l("setup", setup.clone()))));
        let param = |i: usize| X::L(vec![sx::a(format!("param_{}", i % 20)), sx::a(format!("{}", i))]);
        let plot = sx::l("setup", vec![sx::l("pcbplotparams", (0..n).map(param).collect())]);
        v.push((format!("{} plot parameters", n), false, filled(&board(vec![]), &["setup"], 1, &|_| plot.clone())));
        let layer = |i: usize| X::L(vec![sx::i(i as i64), sx::a(names[i % 8]), sx::a(["signal", "power", "user"][i % 3])]);
        v.push((format!("{} board layers", n), false, filled(&board(vec![]), &["layers", "*"], n, &layer)));
    }
    v
}

/// numbers of every magnitude, and those around the limits of machine integers
pub fn magnitudes(whole: bool) -> Vec<String> {
    let mut v = vec![];
    if !whole {
        for e in -9..=15 {
            for m in ["1", "1.5", "2.25", "9.75", "1.2345678", "9.9999999", "3.1415926535"] {
                let f: f64 = format!("{}e{}", m, e).parse().unwrap();
                v.push(sx::num(f));
            }
        }
        for n in 0..=40 {
            v.push(sx::num((n * 5) as f64 / 100.0));
        }
    }
    let mut p = 1i64;
    for _ in 0..15 {
        v.push(format!("{}", p));
        v.push(format!("{}", 9 * p));
        p *= 10;
    }
    for b in [7, 8, 15, 16, 31, 32, 53, 62] {
        for d in [-1, 0, 1] {
            v.push(format!("{}", (1i64 << b) + d));
        }
    }
    v.push(format!("{}", i64::max_value()));
    let neg: Vec<String> = v.iter().filter(|s| &s[..] != "0").map(|s| format!("-{}", s)).collect();
    v.extend(neg);
    v
}

/// every number of every magnitude, one at a time
pub fn sized(x: &X) -> Vec<(String, X)> {
    let mut v = vec![];
    for (i, q) in slots(x).iter().enumerate() {
        for w in forms(x, q) {
            v.push((format!("{}:={}", i, w), mutate::replace(x, &q.0, q.1, &sx::a(w))));
        }
        // alone among zeros, and hardly more than nothing
        let list = mutate::get(x, &q.0);
        if REAL.contains(&list.head()) {
            for w in ["0.000001", "0.0001", "0.01", "1", "-0.000001", "-1"] {
                let y = mutate::edit(x, &q.0, &|v| {
                    for (n, p) in v.iter_mut().enumerate().skip(1) {
                        let number = matches!(*p, X::A(ref s) if s.parse::<f64>().is_ok());
                        if n == q.1 {
                            *p = sx::a(w)
                        } else if number {
                            *p = sx::a("0")
                        }
                    }
                });
                v.push((format!("{}:only={}", i, w), y));
            }
        }
    }
    v
}

/// the same, but no size below zero
pub fn proper(x: &X) -> Vec<(String, X)> {
    let mut v = vec![];
    for (i, q) in slots(x).iter().enumerate() {
        for w in forms(x, q) {
            if w.starts_with('-') && ["size", "drill", "thickness", "width"].contains(&mutate::get(x, &q.0).head()) {
                continue;
            }
            v.push((format!("{}:={}", i, w), mutate::replace(x, &q.0, q.1, &sx::a(w))));
        }
    }
    v
}

/// words and texts of every length, and with every character in every place
pub fn texts(without: &str) -> Vec<String> {
    let mut v = vec![String::new()];
    for n in (1..=70).chain(vec![79, 80, 81, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 4096]) {
        v.push((0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect());
    }
    for c in (32u8..127).map(|c| c as char).chain("\u{e4}\u{b5}\u{3a9}\u{20ac}\u{4e2d}\u{1f600}\u{a0}".chars()) {
        if without.contains(c) {
            continue;
        }
        for p in [format!("{}", c), format!("{}{}", c, c), format!("a{}b", c), format!("a{}", c), format!("{}b", c), format!("A{}1", c), format!("a{}{}b", c, c), format!("7{}", c)] {
            v.push(p);
        }
        v.push((0..300).map(|_| c).collect());
    }
    v
}

/// every text of the element in every form, one at a time
pub fn worded(x: &X, words: &[String]) -> Vec<(String, X)> {
    let mut v = vec![];
    for (path, _) in mutate::lists(x) {
        if let X::L(ref items) = *mutate::get(x, &path) {
            for (i, p) in items.iter().enumerate().skip(1) {
                if *p == sx::a("word") {
                    for w in words {
                        v.push((format!("{:?}.{}={}", path, i, w), mutate::replace(x, &path, i, &sx::a(&w[..]))));
                    }
                }
            }
        }
    }
    v
}

/// one word after the other replaced by every text and by those nearly equal to it
pub fn voiced(x: &X) -> Vec<(String, X)> {
    let words = texts("\"\\");
    let mut v = vec![];
    for (path, _) in mutate::lists(x) {
        if let X::L(ref items) = *mutate::get(x, &path) {
            for (i, p) in items.iter().enumerate().skip(1) {
                if let X::A(ref now) = *p {
                    if now.parse::<f64>().is_ok() {
                        continue;
                    }
                    let near = near(now);
                    for w in words.iter().chain(&near).filter(|w| !w.contains('"') && !w.contains('\\')) {
                        v.push((format!("{:?}.{}={:?}", path, i, w), mutate::replace(x, &path, i, &sx::a(&w[..]))));
                    }
                }
            }
        }
    }
    v
}

/// a line cut into its parts: blanks, quoted texts and words
pub fn pieces(line: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut inside = false;
    let mut esc = false;
    for c in line.chars() {
        if inside {
            let l = v.len() - 1;
            v[l].push(c);
            if esc {
                esc = false
            } else if c == '\\' {
                esc = true
            } else if c == '"' {
                inside = false
            }
            continue;
        }
        let blank = c == ' ' || c == '\t';
        let joins = match v.last() {
            Some(s) => blank == s.starts_with(|c| c == ' ' || c == '\t') && !s.ends_with('"'),
            None => false,
        };
        if joins && c != '"' {
            let l = v.len() - 1;
            v[l].push(c);
        } else {
            v.push(c.to_string());
        }
        inside = c == '"';
    }
    v
}

/// the words and texts of a line, without the blanks between them
pub fn words(line: &str) -> Vec<String> {
    pieces(line).into_iter().filter(|p| !p.trim().is_empty()).collect()
}

/// every number of the lines in every magnitude and every quoted text in every
/// form, one at a time
pub fn lines(text: &str, texts: &[String]) -> Vec<(String, String)> {
    let all: Vec<&str> = text.lines().collect();
    let mut v = vec![];
    for (n, l) in all.iter().enumerate().skip(1) {
        let ps = pieces(l);
        for (i, p) in ps.iter().enumerate() {
            // a number above three asks for a name; the third word of a
            // definition is not used, the second position
            // of a component follows the first
            if (l.starts_with("DEF ") && i == 6) || (l.starts_with("F ") && i == 2) || (l.starts_with('\t') && words(l).len() == 3) {
                continue;
            }
            let forms: Vec<String> = if p.starts_with('"') && p.ends_with('"') && p.len() > 1 {
                texts.iter().map(|t| format!("\"{}\"", t)).collect()
            } else if i > 0 && p.parse::<i64>().is_ok() && !(p.len() > 1 && p.starts_with('0')) {
                magnitudes(true).into_iter().filter(|n| n.trim_matches('-').len() < 16).collect()
            } else {
                continue;
            };
            for f in forms {
                let mut q = ps.clone();
                q[i] = f.clone();
                let mut out: Vec<String> = all.iter().map(|s| s.to_string()).collect();
                out[n] = q.concat();
                v.push((format!("{}.{}={}", n, i, f), out.join("\n") + "\n"));
            }
        }
    }
    v
}

/// the texts that are nearly a text: another case, something more, less or other at one place
pub fn near(word: &str) -> Vec<String> {
    let c: Vec<char> = word.chars().collect();
    let text = |v: &[char]| v.iter().collect::<String>();
    let mut v = vec![word.to_uppercase(), word.to_lowercase(), format!("{}{}", word, word), text(&c.iter().rev().cloned().collect::<Vec<_>>())];
    let more: Vec<char> = " \t.,:;-_/\\|+*?!#~^$%&()[]{}<>='0123456789aAzZ\u{a0}\u{e4}".chars().collect();
    for i in 0..=c.len() {
        for m in &more {
            v.push(format!("{}{}{}", text(&c[..i]), m, text(&c[i..])));
            if i < c.len() {
                v.push(format!("{}{}{}", text(&c[..i]), m, text(&c[i + 1..])));
            }
        }
        if i < c.len() {
            v.push(format!("{}{}", text(&c[..i]), text(&c[i + 1..])));
            let mut other = c.clone();
            other[i] = if c[i].is_lowercase() { c[i].to_uppercase().next().unwrap() } else { c[i].to_lowercase().next().unwrap() };
            v.push(text(&other));
            v.push(text(&c[..i]));
            v.push(text(&c[i..]));
        }
        if i + 1 < c.len() {
            let mut other = c.clone();
            other.swap(i, i + 1);
            v.push(text(&other))
        }
    }
    for m in ["  ", "...", "_1", "-2", "?", "??", "**", "(a)", "{x}", "/"] {
        v.push(format!("{}{}", word, m));
        v.push(format!("{}{}", m, word));
    }
    v.sort();
    v.dedup();
    v.retain(|x| x != word);
    v
}

/// whole numbers of every magnitude
pub fn ints() -> Vec<i64> {
    let mut v: Vec<i64> = magnitudes(true).iter().filter_map(|s| s.parse().ok()).collect();
    v.extend(-130..=130);
    v.extend(vec![199, 200, 255, 256, 257, 300, 500, 999, 1001, 1024, 4095, 4096, 9999, 10001]);
    v.sort();
    v.dedup();
    v
}

/// numbers of every magnitude
pub fn reals() -> Vec<f64> {
    let mut v: Vec<f64> = magnitudes(false).iter().filter_map(|s| s.parse().ok()).collect();
    v.extend((-40..=40).map(|n| n as f64 / 8.0));
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}
