use crate::core::*;
use crate::shape;
use crate::scgen::*;
use kicad_parse_gen::schematic as sc;

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

/// compare a read element with the model value; the orientation of a component
/// is private and is judged by the written text
fn same_element(want: &sc::Element, got: &sc::Element) -> bool {
    match (want, got) {
        (sc::Element::Component(w), sc::Element::Component(g)) => {
            let mut w = w.clone();
            w.rotation = g.rotation.clone();
            format!("{:?}", w) == format!("{:?}", g)
        }
        _ => format!("{:?}", want) == format!("{:?}", got),
    }
}

/// the text that has to be written: the sheets come after the other elements
pub fn canonical(h: &Head, parts: &[Part]) -> String {
    let mut s = join(&h.lines, 0);
    for p in parts {
        if let El::E(_) = p.value {
            s.push_str(&join(&p.lines, 0))
        }
    }
    for p in parts {
        if let El::S(_) = p.value {
            s.push_str(&join(&p.lines, 0))
        }
    }
    s.push_str("$EndSCHEMATC\n");
    s
}

pub fn input(h: &Head, parts: &[Part], style: usize) -> String {
    let mut s = join(&h.lines, style);
    for p in parts {
        s.push_str(&join(&p.lines, style))
    }
    s.push_str(if style == 3 { "$EndSCHEMATC\r\n" } else { "$EndSCHEMATC\n" });
    s
}

fn check_value(h: &Head, parts: &[Part], sch: &sc::Schematic, text: &str) -> Result<(), (String, String)> {
    if sch.libraries != h.libraries {
        return Err(bad("read-libraries", format!("expected {:?} read {:?}\n{}", h.libraries, sch.libraries, text)));
    }
    if sch.eelayer != h.eelayer {
        return Err(bad("read-eelayer", format!("expected {:?} read {:?}\n{}", h.eelayer, sch.eelayer, text)));
    }
    let (w, g) = (format!("{:?}", h.description), format!("{:?}", sch.description));
    if w != g {
        return Err(bad("read-description", format!("expected {}\nread {}\n{}", w, g, text)));
    }
    let mut es = sch.elements.iter();
    let mut ss = sch.sheets.iter();
    for p in parts {
        match p.value {
            El::E(ref e) => match es.next() {
                Some(g) if same_element(e, g) => {}
                g => return Err(bad("read-element", format!("expected {:?}\nread {:?}\n{}", e, g, text))),
            },
            El::S(ref s) => match ss.next() {
                Some(g) if format!("{:?}", g) == format!("{:?}", s) => {}
                g => return Err(bad("read-sheet", format!("expected {:?}\nread {:?}\n{}", s, g, text))),
            },
        }
    }
    if es.next().is_some() || ss.next().is_some() {
        return Err(bad("read-extra", format!("more elements than in the text\n{}", text)));
    }
    Ok(())
}

pub fn conform(h: &Head, parts: &[Part], style: usize) -> Result<String, (String, String)> {
    let text = input(h, parts, style);
    let want = canonical(h, parts);
    let sch = sc::parse_str(&text).map_err(|e| bad("read-refused", format!("{:?}\n{}", e, text)))?;
    check_value(h, parts, &sch, &text)?;
    let w = format!("{}", sch);
    if w != want {
        return Err(bad("write", format!("expected:\n{}\nwritten:\n{}", want, w)));
    }
    let again = sc::parse_str(&w).map_err(|e| bad("reread-refused", format!("{:?}\n{}", e, w)))?;
    if format!("{:?}", again) != format!("{:?}", sch) {
        return Err(bad("reread", format!("first {:?}\nsecond {:?}\n{}", sch, again, w)));
    }
    if format!("{}", again) != w {
        return Err(bad("rewrite", w));
    }
    Ok("equal".into())
}

/// a text in the written form must come out with the same words; the second
/// position of a component follows the first
fn kept(text: &str) -> Result<String, (String, String)> {
    let sch = sc::parse_str(text).map_err(|e| bad("read-refused", format!("{:?}\n{}", e, text)))?;
    let w = format!("{}", sch);
    let (t, g): (Vec<&str>, Vec<&str>) = (text.lines().collect(), w.lines().collect());
    if t.len() != g.len() {
        return Err(bad("lines", format!("{}\nwritten:\n{}", text, w)));
    }
    for (a, b) in t.iter().zip(g.iter()) {
        let (x, y) = (shape::words(a), shape::words(b));
        if x != y && !(a.starts_with('\t') && x.len() == 3) {
            return Err(bad("line", format!("{}\nwritten:\n{}\nin:\n{}", a, b, text)));
        }
    }
    let again = sc::parse_str(&w).map_err(|e| bad("reread-refused", format!("{:?}\n{}", e, w)))?;
    if format!("{:?}", again) != format!("{:?}", sch) || format!("{}", again) != w {
        return Err(bad("reread", w));
    }
    Ok("kept".into())
}

/// already in the canonical layout: the same bytes again
fn exact(text: &str) -> Result<String, (String, String)> {
    let sch = sc::parse_str(text).map_err(|e| bad("read-refused", format!("{:?}\n{}", e, text)))?;
    let w = format!("{}", sch);
    if w != text {
        let at = text.lines().zip(w.lines()).find(|(a, b)| a != b);
        return Err(bad("bytes", format!("{:?}\n{}\nwritten:\n{}", at, text, w)));
    }
    Ok("same".into())
}

/// one place of a schematic after the other, with what may stand there
fn places() -> Vec<(String, String)> {
    let lines: Vec<String> = shape::texts("").into_iter().chain(["LIBS:", "$EndComp", "a b", "power"].iter().flat_map(|w| shape::near(w))).collect();
    let words: Vec<String> = lines.iter().filter(|l| !l.is_empty() && !l.contains(|c: char| c.is_whitespace() || c == '"' || c == '\\')).cloned().collect();
    let ints: Vec<String> = shape::ints().iter().map(|i| i.to_string()).collect();
    let reals: Vec<String> = shape::reals().iter().map(|&r| format!("{:3}", crate::sx::num(r))).collect();
    let quoted: Vec<String> = lines.iter().filter(|l| !l.contains('"') && !l.contains('\\')).cloned().collect();
    // the place, what stands there otherwise, what may stand there
    let slots: Vec<(&str, &str, &[String])> = vec![
        ("lib", "power", &lines),
        ("layer", "25 0", &lines),
        ("size", "A4", &words),
        ("name", "R", &words),
        ("ref", "U1", &words),
        ("unit", "1", &ints),
        ("convert", "1", &ints),
        ("stamp", "56460011", &words),
        ("path", "Path=\"/1/2\" Ref=\"R1\"  Part=\"1\" ", &lines),
        ("num", "4", &ints),
        ("fname", "MPN", &quoted),
        ("fname0", "Other", &quoted),
        ("fx", "100", &reals),
        ("fy", "200", &reals),
        ("text", "a text", &lines),
        ("shape", "UnSpc", &words),
        ("other", "Entry Wire Line", &lines),
        ("unique", "5655A9F3", &words),
        ("label", "in", &quoted),
    ];
    let doc = "EESchema Schematic File Version 2\nLIBS:a\nLIBS:{lib}\nEELAYER {layer}\nEELAYER END\n$Descr {size} 11693 8268\nencoding utf-8\nSheet 1 1\nTitle \"\"\nDate \"\"\nRev \"\"\nComp \"\"\nComment1 \"\"\nComment2 \"\"\nComment3 \"\"\nComment4 \"\"\n$EndDescr\n$Comp\nL {name} {ref}\nU {unit} {convert} {stamp}\nP 7 8\nAR {path}\nF 0 \"U1\" H 100 200 60  0000 C CNN\nF 2 \"v\" H {fx} {fy} 60  0000 C CNN \"{fname0}\"\nF {num} \"v\" H 100 200 60  0001 C CNN \"{fname}\"\n\t{unit:4} 7    8   \n\t1    0    0    -1  \n$EndComp\nText GLabel 1    2    0    60   {shape} ~ 0\n{text}\n{other}\nConnection ~ 1 2\n$Sheet\nS 1 2 3 4\nU {unique}\nF0 \"s\" 60\nF1 \"s.sch\" 60\nF2 \"{label}\" I L 1 2 60\n$EndSheet\n$EndSCHEMATC\n";
    let mut v = vec![];
    for (i, slot) in slots.iter().enumerate() {
        for w in slot.2 {
            // what would be another kind of line, or a field that is always named like that
            let first = w.split_whitespace().next().unwrap_or("");
            if slot.0 == "other" && ["$Descr", "$Comp", "$Sheet", "$EndSCHEMATC", "Wire", "Connection", "NoConn", "Text"].contains(&first) {
                continue;
            }
            if (slot.0 == "num" && (0..4).contains(&w.parse::<i64>().unwrap())) || (slot.0 == "fname0" && w == "Footprint") {
                continue;
            }
            let mut t = doc.to_string();
            for (j, s) in slots.iter().enumerate() {
                let now = if i == j { &w[..] } else { s.1 };
                if s.0 == "fx" || s.0 == "fy" {
                    t = t.replace(&format!("{{{}}}", s.0), now);
                    continue;
                }
                t = t.replace(&format!("{{{}:4}}", s.0), &format!("{:4}", now));
                if i != j {
                    t = t.replace(&format!("{{{}}}", s.0), now);
                }
            }
            t = t.replace(&format!("{{{}}}", slot.0), w);
            v.push((format!("{}:{:?}", slot.0, w), t))
        }
    }
    v
}

pub fn run(ctx: &mut Ctx) {
    let k = if ctx.thorough() { 4 } else { 3 };
    let mut jobs: Vec<(&str, Vec<usize>)> = vec![];
    for kind in KINDS {
        let dm = dims(kind);
        // small kinds are covered completely
        let all: usize = dm.iter().product();
        for d in if all <= 20_000 { product(&dm) } else { deviations(&dm, k) } {
            jobs.push((kind, d));
        }
    }
    for d in deviations(&head_dims(), k) {
        jobs.push(("head", d));
    }
    parallel(ctx, |c, shard, of| {
        for (n, (kind, d)) in jobs.iter().enumerate() {
            if n % of != shard {
                continue;
            }
            let (h, parts) = if *kind == "head" { (head(d), vec![]) } else { (head(&head0()), build(kind, d)) };
            c.step();
            for style in if d.iter().filter(|x| **x > 0).count() < 2 { 0..STYLES } else { n % STYLES..n % STYLES + 1 } {
                let label = format!("{}:{:?}/{}", kind, d, style);
                if c.state(&input(&h, &parts, style)) {
                    c.sample(kind, || input(&h, &parts, style));
                    c.case(&label, || conform(&h, &parts, style));
                }
            }
        }
    });
    // a schematic without a page description
    ctx.case("no-description", || {
        let text = "EESchema Schematic File Version 2\nEELAYER 25 0\nEELAYER END\nConnection ~ 1 2\n$EndSCHEMATC\n";
        let s = sc::parse_str(text).map_err(|e| bad("read-refused", format!("{:?}\n{}", e, text)))?;
        let w = format!("{}", s);
        let a = sc::parse_str(&w).map_err(|e| bad("reread-refused", format!("{:?}\n{}", e, w)))?;
        if format!("{:?}", a) != format!("{:?}", s) {
            return Err(bad("reread", w));
        }
        Ok("equal".into())
    });
    // every ordered selection of elements
    let reps = representatives();
    let depth = if ctx.thorough() { 4 } else { 3 };
    let seqs = sequences(reps.len(), depth);
    parallel(ctx, |c, shard, of| {
        for (n, s) in seqs.iter().enumerate() {
            if n % of != shard {
                continue;
            }
            let parts: Vec<Part> = s.iter().flat_map(|&r| build(reps[r].0, &reps[r].1)).collect();
            c.step();
            let h = head(&head0());
            for style in if s.len() < 3 { 0..STYLES } else { n % STYLES..n % STYLES + 1 } {
                let label = format!("seq:{:?}/{}", s, style);
                if c.state(&input(&h, &parts, style)) {
                    c.case(&label, || conform(&h, &parts, style));
                }
            }
        }
    });
    // long runs of one kind
    for r in 0..reps.len() {
        for n in 1..=40 {
            let parts: Vec<Part> = (0..n).flat_map(|_| build(reps[r].0, &reps[r].1)).collect();
            let h = head(&head0());
            ctx.step();
            if ctx.state(&input(&h, &parts, 0)) {
                ctx.case(&format!("run:{}x{}", r, n), || conform(&h, &parts, 0));
            }
        }
    }
    // lists of every length
    let fresh = ["MPN", "Tolerance", "Supplier", "x y", ""];
    for n in shape::counts(if ctx.thorough() { 200 } else { 60 }) {
        let mut docs: Vec<(&str, Head, Vec<Part>)> = vec![("libraries", libraries(n), vec![])];
        let mut c = comp0();
        c.ar = n;
        docs.push(("paths", head(&head0()), vec![component(&c)]));
        let mut c = comp0();
        c.fields = (0..n as i64).map(field0).collect();
        for (i, f) in c.fields.iter_mut().enumerate() {
            f.value = i % QSTRS.len();
            f.x = i % FCOORD.len();
            f.name = f.name.map(|_| fresh[i % fresh.len()]);
        }
        docs.push(("fields", head(&head0()), vec![component(&c)]));
        let labels = deviations(&dims("label"), 2);
        docs.push(("labels", head(&head0()), vec![sheet(&[0; 10], &labels.iter().cycle().take(n).cloned().collect::<Vec<_>>())]));
        for kind in KINDS {
            let v = deviations(&dims(kind), 2);
            if n <= v.len() {
                docs.push((kind, head(&head0()), v[..n].iter().flat_map(|d| build(kind, d)).collect()));
            }
        }
        for (what, h, parts) in docs {
            ctx.step();
            if ctx.state(&input(&h, &parts, 0)) {
                ctx.case(&format!("many:{}:{}", what, n), || conform(&h, &parts, 0));
            }
        }
    }
    // numbers of every magnitude, texts of every form
    let texts = shape::texts("\"\\");
    let mut docs: Vec<(String, String)> = vec![("head".into(), canonical(&head(&head0()), &[]))];
    for (kind, d) in &reps {
        docs.push((format!("{}:{:?}", kind, d), canonical(&head(&head0()), &build(kind, d))));
    }
    let first = docs[0].1.lines().count() - 1;
    parallel(ctx, |c, shard, of| {
        for (n, (label, doc)) in docs.iter().enumerate() {
            for (i, (what, text)) in shape::lines(doc, &texts).into_iter().enumerate() {
                if i % of != shard || (n > 0 && what.split('.').next().unwrap().parse::<usize>().unwrap() < first) {
                    continue;
                }
                c.step();
                if c.state(&text) {
                    c.case(&format!("{}:{}", label, what), || kept(&text));
                }
            }
        }
    });
    // every place with every text that may stand there
    let docs = places();
    parallel(ctx, |c, shard, of| {
        for (i, (label, text)) in docs.iter().enumerate() {
            if i % of != shard {
                continue;
            }
            c.step();
            if c.state(text) {
                c.sample("place", || label.clone());
                c.case(&format!("place:{}", label), || exact(text));
            }
        }
    });
}
