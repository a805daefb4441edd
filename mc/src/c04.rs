use crate::core::*;
use crate::shape;
use crate::scgen::{join, raw, Ln, STYLES};
use crate::slgen::*;
use kicad_parse_gen::symbol_lib as sl;

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

fn frame(syms: &[&[Ln]], style: usize) -> String {
    let mut l = vec![raw("EESchema-LIBRARY Version 2.3"), raw("#encoding utf-8"), raw("#")];
    for s in syms {
        l.extend(s.iter().cloned())
    }
    l.push(raw("#End Library"));
    join(&l, style)
}

pub fn text_of(syms: &[(Sym, Vec<Ln>)], style: usize) -> String {
    frame(&syms.iter().map(|s| &s.1[..]).collect::<Vec<_>>(), style)
}

pub fn conform(syms: &[(Sym, Vec<Ln>)], style: usize) -> Result<String, (String, String)> {
    let text = text_of(syms, style);
    let want = frame(&syms.iter().map(|s| &s.0.lines[..]).collect::<Vec<_>>(), 0);
    let model = sl::SymbolLib { symbols: syms.iter().map(|s| s.0.value.clone()).collect() };
    let lib = sl::parse_str(&text).map_err(|e| bad("read-refused", format!("{:?}\n{}", e, text)))?;
    let (w, g) = (format!("{:?}", model), format!("{:?}", lib));
    if w != g {
        return Err(bad("read-value", format!("expected {}\nread {}\n{}", w, g, text)));
    }
    for (from, l) in [("read", &lib), ("built", &model)] {
        let out = format!("{}", l);
        if out != want {
            return Err(bad("write", format!("{}: expected:\n{}\nwritten:\n{}", from, want, out)));
        }
    }
    let again = sl::parse_str(&want).map_err(|e| bad("reread-refused", format!("{:?}\n{}", e, want)))?;
    if format!("{:?}", again) != w {
        return Err(bad("reread", format!("first {}\nsecond {:?}", w, again)));
    }
    Ok("equal".into())
}

/// a text in the written form must come out as it is, but for the comment in
/// front of a symbol
fn kept(text: &str) -> Result<String, (String, String)> {
    let lib = sl::parse_str(text).map_err(|e| bad("read-refused", format!("{:?}\n{}", e, text)))?;
    let w = format!("{}", lib);
    let (t, g): (Vec<&str>, Vec<&str>) = (text.lines().collect(), w.lines().collect());
    if t.len() != g.len() {
        return Err(bad("lines", format!("{}\nwritten:\n{}", text, w)));
    }
    for (a, b) in t.iter().zip(g.iter()) {
        if a != b && !(a.starts_with("# ") && b.starts_with("# ")) {
            return Err(bad("line", format!("{}\nwritten:\n{}\nin:\n{}", a, b, text)));
        }
    }
    let again = sl::parse_str(&w).map_err(|e| bad("reread-refused", format!("{:?}\n{}", e, w)))?;
    if format!("{:?}", again) != format!("{:?}", lib) || format!("{}", again) != w {
        return Err(bad("reread", w));
    }
    Ok("kept".into())
}

/// one place of a symbol after the other, with what may stand there
fn places() -> Vec<(String, String)> {
    let mut lines = shape::texts("");
    for w in ["ENDDRAW", "$ENDFPLIST", "#End Library", "U?", "~NC", "S 1", "ALIAS", "A"] {
        lines.extend(shape::near(w))
    }
    // those that stand elsewhere
    lines.extend(["W", "U", "V", "B", "C", "SO*", " SO*", "DIP*", "MPN"].iter().map(|w| w.to_string()));
    lines.sort();
    lines.dedup();
    let quoted: Vec<String> = lines.iter().filter(|l| !l.contains('"') && !l.contains('\\')).cloned().collect();
    let words: Vec<String> = quoted.iter().filter(|l| !l.is_empty() && !l.contains(|c: char| c.is_whitespace())).cloned().collect();
    let ints: Vec<String> = shape::ints().iter().map(|i| i.to_string()).collect();
    let reals: Vec<String> = shape::reals().iter().map(|&r| crate::sx::num(r)).collect();
    let doc = "EESchema-LIBRARY Version 2.3\n#encoding utf-8\n#\n# {value}\n#\nDEF {name} {ref} 0 {offset} Y Y {units} F N\nF0 \"{reference}\" {fx} {fy} {size} H V C CNN\nF1 \"{value}\" 0 100 50 H V C CNN\nF{num} \"{other}\" 0 100 50 H I C CNN \"{fname}\"\nALIAS {alias} {alias2} B\n$FPLIST\n{filter}\n{filter2}\n SO*\n$ENDFPLIST\nDRAW\n{line}\nX {pname} {pnum} {px} {py} {len} R {ns} {ms} {pu} {pc} I\nX B 2 0 0 100 U 50 50 1 1 N N\nS {x1} {y1} {x2} {y2} {ru} {rc} {th} f\nENDDRAW\nENDDEF\n#\n# V\n#\nDEF W U 0 40 Y Y 1 F N\nF0 \"U\" 0 0 50 H V C CNN\nF1 \"V\" 0 0 50 H V C CNN\nDRAW\nENDDRAW\nENDDEF\n#\n#End Library\n";
    let slots: Vec<(&str, &str, &[String])> = vec![
        ("name", "W", &words),
        ("ref", "U", &words),
        ("offset", "40", &reals),
        ("units", "1", &ints),
        ("reference", "U", &quoted),
        ("fx", "0", &reals),
        ("fy", "0", &reals),
        ("size", "50", &ints),
        ("value", "V", &quoted),
        ("num", "4", &ints),
        ("other", "x", &quoted),
        ("fname", "MPN", &quoted),
        ("alias", "A", &words),
        ("alias2", "C", &words),
        ("filter", "SO*", &lines),
        ("filter2", "DIP*", &lines),
        ("line", "P 2 0 1 0 0 0 1 1 N", &lines),
        ("pname", "A", &words),
        ("pnum", "1", &words),
        ("px", "0", &ints),
        ("py", "0", &ints),
        ("len", "100", &ints),
        ("ns", "50", &ints),
        ("ms", "50", &ints),
        ("pu", "1", &ints),
        ("pc", "1", &ints),
        ("x1", "0", &ints),
        ("y1", "0", &ints),
        ("x2", "0", &ints),
        ("y2", "0", &ints),
        ("ru", "1", &ints),
        ("rc", "1", &ints),
        ("th", "10", &ints),
    ];
    let mut v = vec![];
    for slot in &slots {
        for w in slot.2 {
            let clash = match slot.0 {
                "num" => w.parse::<i64>().unwrap() < 4,
                "filter" | "filter2" => w == "$ENDFPLIST",
                "line" => w == "ENDDRAW" || w.starts_with("X ") || w.starts_with("S "),
                _ => false,
            };
            if clash {
                continue;
            }
            let mut t = doc.replace(&format!("{{{}}}", slot.0), "\u{1}");
            for s in &slots {
                t = t.replace(&format!("{{{}}}", s.0), s.1);
            }
            v.push((format!("{}:{:?}", slot.0, w), t.replace('\u{1}', w)))
        }
    }
    v
}

/// written as it was read
fn exact(text: &str) -> Result<String, (String, String)> {
    let lib = sl::parse_str(text).map_err(|e| bad("read-refused", format!("{:?}\n{}", e, text)))?;
    let w = format!("{}", lib);
    if w != text {
        let at = text.lines().zip(w.lines()).find(|(a, b)| a != b);
        return Err(bad("bytes", format!("{:?}\n{}\nwritten:\n{}", at, text, w)));
    }
    Ok("same".into())
}

pub fn run(ctx: &mut Ctx) {
    let k = if ctx.thorough() { 5 } else { 4 };
    let mut jobs: Vec<(&str, Vec<usize>)> = vec![];
    for kind in KINDS {
        let dm = dims(kind);
        let all: usize = dm.iter().product();
        for d in if all <= 40_000 { product(&dm) } else { deviations(&dm, k) } {
            jobs.push((kind, d));
        }
    }
    parallel(ctx, |c, shard, of| {
        for (n, (kind, d)) in jobs.iter().enumerate() {
            if n % of != shard {
                continue;
            }
            let syms = vec![build(kind, d)];
            c.step();
            for style in if d.iter().filter(|x| **x > 0).count() < 2 { 0..STYLES } else { n % STYLES..n % STYLES + 1 } {
                let text = text_of(&syms, style);
                if c.state(&text) {
                    c.sample(kind, || text.clone());
                    c.case(&format!("{}:{:?}/{}", kind, d, style), || conform(&syms, style));
                }
            }
        }
    });
    // every sequence of drawing lines
    let depth = if ctx.thorough() { 6 } else { 5 };
    let seqs = sequences(DRAWS, depth);
    parallel(ctx, |c, shard, of| {
        for (n, s) in seqs.iter().enumerate() {
            if n % of != shard {
                continue;
            }
            let syms = vec![symbol(&[0; 8], vec![field(0, None, &[0; 12]), field(1, None, &[0; 12])], &[], &[], s.iter().map(|&x| draw(x)).collect(), false)];
            c.step();
            let style = n % STYLES;
            if c.state(&text_of(&syms, style)) {
                c.case(&format!("draw:{:?}/{}", s, style), || conform(&syms, style));
            }
        }
    });
    // every sequence of symbols
    for (n, s) in sequences(REPS, 4).iter().enumerate() {
        let syms: Vec<_> = s.iter().map(|&x| reps(x)).collect();
        ctx.step();
        for style in if s.len() < 3 { 0..STYLES } else { n % STYLES..n % STYLES + 1 } {
            if ctx.state(&text_of(&syms, style)) {
                ctx.case(&format!("lib:{:?}/{}", s, style), || conform(&syms, style));
            }
        }
    }
    // long runs
    for r in 0..REPS {
        for n in 1..=30 {
            let syms: Vec<_> = (0..n).map(|_| reps(r)).collect();
            ctx.step();
            if ctx.state(&text_of(&syms, 0)) {
                ctx.case(&format!("run:{}x{}", r, n), || conform(&syms, 0));
            }
        }
    }
    for (label, text) in places() {
        ctx.step();
        if ctx.state(&text) {
            ctx.sample("place", || text.clone());
            ctx.case(&format!("place:{}", label), || exact(&text));
        }
    }
    // finding symbols: the first that the filter accepts
    for s in sequences(REPS, 3) {
        let lib = sl::SymbolLib { symbols: s.iter().map(|&x| reps(x).0.value).collect() };
        for want in 0..REPS {
            let name = reps(want).0.value.name;
            ctx.step();
            ctx.case(&format!("find:{:?}:{}", s, want), || {
                let exp = lib.symbols.iter().position(|x| x.name == name);
                let got = lib.find(|x| x.name == name);
                match (exp, got) {
                    (None, None) => Ok("none".into()),
                    (Some(i), Some(g)) if std::ptr::eq(&lib.symbols[i], g) => Ok("first".into()),
                    _ => Err(bad("find", format!("{:?} looking for {}: expected index {:?}", s, name, exp))),
                }
            });
        }
    }
    // lists of every length
    let words: Vec<String> = (0..200).map(|i| format!("W{}*", i)).collect();
    let fresh = ["MPN", "Tolerance", "Supplier", "x y", ""];
    for n in 0..=if ctx.thorough() { 200 } else { 60 } {
        let base = |k: usize| -> Vec<_> { (0..k as i64).map(|i| field(i, if i > 3 { Some(fresh[i as usize % 5]) } else { None }, &[0; 12])).collect() };
        let w: Vec<&str> = words[..n].iter().map(|s| &s[..]).collect();
        let pins = deviations(&dims("pin"), 2);
        let rects = deviations(&dims("rect"), 2);
        let docs = vec![
            ("aliases", vec![symbol(&[0; 8], base(2), &w, &[], vec![], false)]),
            ("filters", vec![symbol(&[0; 8], base(2), &[], &w, vec![], false)]),
            ("fields", vec![symbol(&[0; 8], base(n.max(2)), &[], &[], vec![], false)]),
            ("pins", vec![symbol(&[0; 8], base(2), &[], &[], pins[..n].iter().map(|d| pin(d)).collect(), false)]),
            ("rects", vec![symbol(&[0; 8], base(2), &[], &[], rects[..n.min(rects.len())].iter().map(|d| rect(d)).collect(), false)]),
            ("symbols", deviations(&dims("def"), 2)[..n].iter().map(|d| build("def", d)).collect()),
        ];
        for (what, syms) in docs {
            ctx.step();
            if ctx.state(&text_of(&syms, 0)) {
                ctx.case(&format!("many:{}:{}", what, n), || conform(&syms, 0));
            }
        }
    }
    // numbers of every magnitude, texts of every form
    let texts = shape::texts("\"\\");
    let mut docs: Vec<(String, String)> = vec![];
    for kind in KINDS {
        for d in deviations(&dims(kind), 1) {
            docs.push((format!("{}:{:?}", kind, d), frame(&[&build(kind, &d).0.lines], 0)));
        }
    }
    parallel(ctx, |c, shard, of| {
        for (label, doc) in &docs {
            for (i, (what, text)) in shape::lines(doc, &texts).into_iter().enumerate() {
                if i % of != shard {
                    continue;
                }
                c.step();
                if c.state(&text) {
                    c.case(&format!("{}:{}", label, what), || kept(&text));
                }
            }
        }
    });
}
