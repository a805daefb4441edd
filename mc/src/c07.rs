use crate::core::*;
use crate::mutate::*;
use crate::scgen;
use crate::slgen;
use crate::sx::{self, a, X};
use crate::{c03, c05, fpgen, lagen};
use kicad_parse_gen::footprint as fp;
use kicad_parse_gen::fp_lib_table as ft;
use kicad_parse_gen::layout as la;
use kicad_parse_gen::schematic as sc;
use kicad_parse_gen::symbol_lib as sl;

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

/// content in the order the writer uses: where unknown parts of a zone, unknown
/// elements between header parts and setup values behind the plot parameters end up
fn norm(x: &X) -> X {
    let v = match x {
        X::A(_) => return x.clone(),
        X::L(v) => v,
    };
    let mut v: Vec<X> = v.iter().map(norm).collect();
    let rank = |names: &'static [&'static str], last: usize| {
        move |y: &X| -> usize {
            match y {
                X::A(_) => last,
                y => names.iter().position(|n| *n == y.head()).unwrap_or(last),
            }
        }
    };
    let sort = |v: &mut Vec<X>, r: &dyn Fn(&X) -> usize| {
        let mut rest: Vec<X> = v.drain(1..).collect();
        rest.sort_by_key(|y| r(y));
        v.extend(rest)
    };
    match x.head() {
        "kicad_pcb" => sort(&mut v, &rank(&["version", "host", "general", "page", "layers", "setup"], 6)),
        "zone" => {
            const K: &[&str] = &["net", "net_name", "layer", "tstamp", "hatch", "priority", "connect_pads", "min_thickness", "keepout", "fill", "polygon", "filled_polygon", "fill_segments"];
            // a polygon that is not understood is kept like an unknown part
            let r = rank(K, K.len());
            sort(&mut v, &|y| if ["polygon", "filled_polygon", "fill_segments"].contains(&y.head()) && !outline(y) { K.len() } else { r(y) })
        }
        "drill" if v.len() > 2 && v[v.len() - 1] == v[v.len() - 2] => {
            v.pop();
        }
        "setup" => sort(&mut v, &|y| if y.head() == "pcbplotparams" { 1 } else { 0 }),
        "module" | "pts" | "fp_lib_table" | "lib" => {}
        "at" if v.len() == 4 && matches!(&v[3], X::A(s) if s == "0") => {
            v.pop();
        }
        // the order of the parts of an element carries no meaning
        _ if !v.is_empty() => {
            let mut rest: Vec<X> = v.drain(1..).collect();
            rest.sort_by_key(|y| match y {
                X::A(_) => String::new(),
                y => format!("({}", y.head()),
            });
            v.extend(rest)
        }
        _ => {}
    }
    X::L(v)
}

/// a list of points and nothing else
fn outline(x: &X) -> bool {
    let point = |p: &X| match p {
        X::L(v) => p.head() == "xy" && v.len() == 3 && v[1..].iter().all(|n| matches!(n, X::A(s) if s.parse::<f64>().is_ok())),
        X::A(_) => false,
    };
    match x {
        X::L(v) if v.len() == 2 && v[1].head() == "pts" => match &v[1] {
            X::L(p) => p[1..].iter().all(point),
            X::A(_) => false,
        },
        _ => false,
    }
}

/// the written board without the header parts the input does not have
fn without_defaults(x: &X, y: X) -> X {
    match (x, y) {
        (X::L(v), X::L(w)) if x.head() == "kicad_pcb" => {
            const HEADER: &[&str] = &["version", "host", "general", "page", "layers", "setup"];
            X::L(w.into_iter().filter(|c| !HEADER.contains(&c.head()) || v.iter().any(|d| d.head() == c.head())).collect())
        }
        (_, y) => y,
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Module,
    Layout,
    Table,
}

/// Ok(None): refused; Ok(Some(text)): accepted and written
fn through(kind: Kind, text: &str) -> Result<Option<String>, (String, String)> {
    let w = match kind {
        Kind::Module => match fp::parse(text) {
            Err(_) => return Ok(None),
            Ok(m) => fp::module_to_string(&m, 0),
        },
        Kind::Layout => match la::parse(text) {
            Err(_) => return Ok(None),
            Ok(m) => la::layout_to_string(&m, 0),
        },
        Kind::Table => match ft::parse(text) {
            Err(_) => return Ok(None),
            Ok(m) => ft::to_string(&m, 0),
        },
    };
    w.map(Some).map_err(|e| bad("write-refused", format!("{:?}\n{}", e, text)))
}

fn kept(kind: Kind, x: &X) -> Result<bool, (String, String)> {
    let text = x.text();
    match through(kind, &text)? {
        None => Ok(false),
        Some(w) => {
            let y = sx::read(&w).map_err(|e| bad("write-malformed", format!("{}\n{}\n{}", e, text, w)))?;
            let y = without_defaults(x, y);
            sx::same(&norm(x), &norm(&y)).map_err(|e| bad("lost", format!("{}\ninput: {}\nwritten: {}", e, text, w)))?;
            Ok(true)
        }
    }
}

fn foreign() -> Vec<X> {
    let p = |s: &str| sx::read(s).unwrap();
    let mut v = vec![a("zzz"), a("5"), a("a b"), a("hide"), a("locked"), a("italic"), a("F.Cu"), a("placed"), a("yes"), a("mirror"), a("LOCKED"), a("~")];
    for s in [
        "(zzz)",
        "(zzz 1 (y \"a b\") w)",
        "(at 1 2)",
        "(layer F.Cu)",
        "(start 1 2)",
        "(end 3 4)",
        "(center 3 4)",
        "(size 1 2)",
        "(xy 1 2)",
        "(rect_delta 1 2)",
        "(net 1 a)",
        "(width 0.5)",
        "(thickness 0.5)",
        "(clearance 0.5)",
        "(solder_mask_margin 0.1)",
        "(zone_connect 2)",
        "(drill 0.5)",
        "(offset 1 2)",
        "(angle 45)",
        "(tstamp 5A)",
        "(status 10)",
        "(priority 2)",
        "(net_name a)",
        "(justify left)",
        "(effects (font (size 1 1) (thickness 0.1)))",
        "(font (size 1 1) (thickness 0.1))",
        "(pts (xy 1 2))",
        "(layers F.Cu)",
        "(add_net a)",
        "(fill yes)",
        "(attr smd)",
        "(smoothing x)",
        "(radius 1)",
        "(keepout (tracks allowed) (vias allowed) (copperpour allowed))",
    ] {
        v.push(p(s))
    }
    v
}

/// every single insertion and replacement in the document
fn mutants(x: &X, head: bool, f: &mut dyn FnMut(String, X, bool)) {
    let fs = foreign();
    let last = match x {
        X::L(v) => v.len() - 1,
        X::A(_) => 0,
    };
    for (path, len) in lists(x) {
        // the header has documents of its own
        if !head && !path.is_empty() && path[0] != last {
            continue;
        }
        let list = get(x, &path);
        let items = match list {
            X::L(v) => v,
            X::A(_) => unreachable!(),
        };
        for at in 1..=len {
            for (k, w) in fs.iter().enumerate() {
                // not a second part of a kind that is there already
                if let X::L(_) = w {
                    if items.iter().any(|y| y.head() == w.head()) {
                        continue;
                    }
                }
                f(format!("ins{:?}@{}:{}", path, at, k), insert(x, &path, at, w), w.head() == "zzz");
            }
        }
        // a word that is not among those expected
        for at in 1..len {
            if let X::A(ref s) = items[at] {
                for w in ["zzz", "1x", ""] {
                    if s != w {
                        f(format!("rep{:?}@{}:{}", path, at, w), replace(x, &path, at, &a(w)), false);
                    }
                }
            }
        }
        // a word twice
        for at in 1..len {
            if let X::A(_) = items[at] {
                f(format!("twice{:?}@{}", path, at), insert(x, &path, at, &items[at]), false);
                f(format!("again{:?}@{}", path, at), insert(x, &path, len, &items[at]), false);
            }
        }
        // another name for the list
        if !path.is_empty() {
            if let Some(X::A(_)) = items.first() {
                f(format!("name{:?}", path), replace(x, &path, 0, &a("zzz")), false);
            }
        }
    }
}

fn trees(ctx: &mut Ctx) {
    let k = if ctx.thorough() { 2 } else { 1 };
    let mut docs: Vec<(Kind, String, X)> = vec![];
    for kind in fpgen::KINDS {
        for d in fpgen::variants(kind, k) {
            let m = fpgen::module_case("m", &[fpgen::build(kind, &d)]);
            if sx::same(&m.input, &m.output).is_ok() {
                docs.push((Kind::Module, format!("{}:{:?}", kind, d), m.input));
            } else {
                docs.push((Kind::Module, format!("{}:{:?}", kind, d), m.output));
            }
        }
    }
    let mut small = lagen::head0();
    small[19] = 6;
    for kind in lagen::KINDS {
        for d in deviations(&lagen::dims(kind), k) {
            let m = lagen::layout_case(&small, &[lagen::build(kind, &d)], 0);
            if sx::same(&m.input, &m.output).is_ok() {
                docs.push((Kind::Layout, format!("{}:{:?}", kind, d), m.input));
            } else {
                docs.push((Kind::Layout, format!("{}:{:?}", kind, d), m.output));
            }
        }
    }
    for d in deviations(&lagen::head_dims(), 1) {
        let m = lagen::layout_case(&d, &[], 0);
        if sx::same(&m.input, &m.output).is_ok() {
            docs.push((Kind::Layout, format!("head:{:?}", d), m.input));
        } else {
            docs.push((Kind::Layout, format!("head:{:?}", d), m.output));
        }
    }
    for libs in [vec![], vec![vec![0, 8, 3, 1, 2]], vec![vec![0, 8, 3, 1, 2], vec![1, 1, 1, 1, 1]]] {
        docs.push((Kind::Table, format!("table:{:?}", libs), c05::table(&libs).0));
    }
    let seen = std::sync::Mutex::new(std::collections::HashSet::new());
    // documents that differ only in a value behave alike under most mutants; the
    // mutated part is what matters, so identical texts are visited once
    parallel(ctx, |c, shard, of| {
        for (n, (kind, name, x)) in docs.iter().enumerate() {
            if n % of != shard {
                continue;
            }
            // the unchanged document must pass
            c.case(&format!("{}:base", name), || match kept(*kind, x)? {
                true => Ok("base".into()),
                false => Err(bad("base-refused", x.text())),
            });
            mutants(x, *kind != Kind::Layout || name.starts_with("head"), &mut |m, y, unknown| {
                c.step();
                let h = hash64(&y.text());
                if !seen.lock().unwrap().insert(h) {
                    return;
                }
                c.states.insert(h);
                let label = format!("{}:{}", name, m);
                let top = *kind == Kind::Layout && unknown && m.starts_with("ins[]");
                c.case(&label, || match kept(*kind, &y)? {
                    true => Ok(if top { "kept-element".into() } else { "kept".to_string() }),
                    false if top => Err(bad("unknown-element-refused", y.text())),
                    false => Ok("refused".into()),
                });
            });
        }
    });
    // unknown parts behind the known ones of a zone are kept
    for d in deviations(&lagen::dims("zone"), k) {
        let doc = lagen::layout_case(&small, &[lagen::build("zone", &d)], 0).output;
        for s in ["(zzz)", "(zzz 1 (y \"a b\") w)", "(net_tie a) ", "(fill_segmentz (pts (xy 1 2)))", "(polygon 3)", "zzz", "5", "\"a b\""] {
            let x = sx::read(s).unwrap();
            for (path, len) in lists(&doc) {
                let list = get(&doc, &path);
                if list.head() != "zone" {
                    continue;
                }
                let fill = match list {
                    X::L(v) => v.iter().position(|y| y.head() == "fill").unwrap(),
                    _ => unreachable!(),
                };
                for at in fill + 1..=len {
                    let y = insert(&doc, &path, at, &x);
                    ctx.step();
                    if ctx.state(&y.text()) {
                        ctx.case(&format!("zone:{:?}:{}@{}", d, s, at), || match kept(Kind::Layout, &y)? {
                            true => Ok("kept-zone-part".into()),
                            false => Err(bad("zone-part-refused", y.text())),
                        });
                    }
                }
            }
        }
    }
    // several unknown elements keep their order
    let unknown: Vec<X> = ["(zzz)", "(target plus (at 1 2) (size 5) (width 0.1) (layer Edge.Cuts))", "(yyy (a b) c)", "(title_block (title \"a b\") (rev 1))", "(gr_curve 1)"]
        .iter()
        .map(|s| sx::read(s).unwrap())
        .collect();
    let reps = lagen::la_representatives();
    for (s, n) in sequences(unknown.len(), 3).iter().flat_map(|s| (0..reps.len()).map(move |n| (s, n))) {
        for at in 0..=2 {
            let els: Vec<_> = [n, (n + 1) % reps.len()].iter().map(|&r| reps[r].1.clone()).collect();
            let m = lagen::layout_case(&small, &els, 0);
            let len = match &m.output {
                X::L(v) => v.len(),
                _ => 0,
            };
            let mut y = m.output.clone();
            for (j, u) in s.iter().enumerate() {
                y = insert(&y, &[], len - at + if at == 0 { j } else { 2 * j.min(1) + j.saturating_sub(1) }, &unknown[*u]);
            }
            ctx.step();
            if ctx.state(&y.text()) {
                ctx.case(&format!("order:{:?}:{}@{}", s, n, at), || match kept(Kind::Layout, &y)? {
                    true => Ok("kept-element".into()),
                    false => Err(bad("unknown-element-refused", y.text())),
                });
            }
        }
    }
}

const LINES: &[&str] = &[
    "zzz 1 2",
    "",
    "$Foo",
    "\tleading tab",
    "  spaces  ",
    "Entry Wire Line",
    "Wires 1",
    "Textual",
    "$Comps",
    "#comment",
    "\u{3a9}",
    "-",
];

fn schematics(ctx: &mut Ctx) {
    let reps = scgen::representatives();
    let h = scgen::head(&scgen::head0());
    for s in sequences(reps.len(), if ctx.thorough() { 3 } else { 2 }) {
        for at in 0..=s.len() {
            for (k, line) in LINES.iter().enumerate() {
                let mut parts = vec![];
                for (i, &r) in s.iter().enumerate() {
                    if i == at {
                        parts.extend(scgen::other(&[line]));
                    }
                    parts.extend(scgen::build(reps[r].0, &reps[r].1));
                }
                if at == s.len() {
                    parts.extend(scgen::other(&[line]));
                }
                ctx.step();
                if ctx.state(&c03::input(&h, &parts, 0)) {
                    ctx.case(&format!("sch:{:?}@{}:{}", s, at, k), || c03::conform(&h, &parts, 0).map(|_| "kept-line".into()));
                }
            }
        }
    }
    // an unknown line inside a block, other than inside a component or a sheet,
    // must not get lost: refused, or found again in the written text
    let parts: Vec<_> = reps.iter().flat_map(|r| scgen::build(r.0, &r.1)).collect();
    let lines: Vec<String> = c03::canonical(&h, &parts).lines().map(|s| s.to_string()).collect();
    let mut block = "";
    for at in 0..=lines.len() {
        if at > 0 {
            match &lines[at - 1][..] {
                "$Comp" => block = "component",
                "$Sheet" => block = "sheet",
                "$EndComp" | "$EndSheet" => block = "",
                _ => {}
            }
        }
        if block != "" {
            continue;
        }
        for (k, line) in LINES.iter().enumerate() {
            if line.is_empty() {
                continue;
            }
            let mut v = lines.clone();
            v.insert(at, line.to_string());
            let text = v.join("\n");
            ctx.step();
            if ctx.state(&text) {
                ctx.case(&format!("schline:{}:{}", at, k), || match sc::parse_str(&text) {
                    Err(_) => Ok("refused".into()),
                    Ok(s) => {
                        let w = format!("{}", s);
                        if at > 0 && lines[at - 1].starts_with("$Descr ") {
                            // this place belongs to the encoding line, whose word is not looked at
                            return Ok("encoding-line".into());
                        }
                        if w.lines().any(|x| x == *line) {
                            Ok("kept-line".into())
                        } else {
                            Err(bad("line-lost", format!("{:?} at line {}\n{}\nwritten\n{}", line, at, text, w)))
                        }
                    }
                });
            }
        }
    }
}

fn libraries(ctx: &mut Ctx) {
    let syms: Vec<_> = (0..slgen::REPS).map(slgen::reps).collect();
    let text = crate::c04::text_of(&syms, 0);
    let lines: Vec<&str> = text.lines().collect();
    let mut words: Vec<&str> = LINES.to_vec();
    words.extend(["P 2 0 1 0 -100 0 100 0 N", "XX", "Sx", "$FPLISTX"]);
    let mut drawing = false;
    // nothing is read behind the end mark
    for at in 0..lines.len() {
        if at > 0 {
            match lines[at - 1] {
                "DRAW" => drawing = true,
                "ENDDRAW" => drawing = false,
                _ => {}
            }
        }
        for (k, w) in words.iter().enumerate() {
            let mut v = lines.clone();
            v.insert(at, w);
            let t = v.join("\n") + "\n";
            ctx.step();
            if !ctx.state(&t) {
                continue;
            }
            ctx.case(&format!("lib:{}:{}", at, k), || match sl::parse_str(&t) {
                Err(e) => {
                    if drawing {
                        Err(bad("drawing-line-refused", format!("{:?}\n{}", e, t)))
                    } else {
                        Ok("refused".into())
                    }
                }
                Ok(s) => {
                    let out = format!("{}", s);
                    // footprint filters may move behind the aliases
                    let sorted = |s: &str| {
                        let mut v: Vec<String> = s.lines().map(|x| x.to_string()).collect();
                        v.sort();
                        v
                    };
                    if out == t || (!drawing && sorted(&out) == sorted(&t)) {
                        Ok("kept-line".into())
                    } else if drawing {
                        // the symbols given in another order than written
                        let same_draw = sorted(&out) == sorted(&t);
                        if same_draw {
                            Ok("kept-line".into())
                        } else {
                            Err(bad("drawing-line-lost", format!("{:?}\n{}\nwritten\n{}", w, t, out)))
                        }
                    } else {
                        Err(bad("line-lost", format!("{:?}\n{}\nwritten\n{}", w, t, out)))
                    }
                }
            });
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.assumptions.push("text behind the closing parenthesis of a document, behind the end mark of a symbol library, and unknown lines inside a component or sheet block are outside the property".into());
    trees(ctx);
    schematics(ctx);
    libraries(ctx);
}
