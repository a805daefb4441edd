use crate::c05;
use crate::core::*;
use crate::fpgen;
use crate::geo;
use crate::lagen;
use crate::shape;
use crate::sx::{self, X};
use kicad_parse_gen::footprint as fp;
use kicad_parse_gen::fp_lib_table as ft;
use kicad_parse_gen::layout as la;

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

// the line layout of KiCad's writer, following its printing functions one by one

fn pad(level: usize) -> String {
    "  ".repeat(level)
}

fn items(x: &X) -> &[X] {
    match x {
        X::L(v) => v,
        _ => &[],
    }
}

fn is(x: &X, names: &[&str]) -> bool {
    matches!(x, X::L(_)) && names.contains(&x.head())
}

/// the beginning of a list and its parts on one line, without the end
fn open(x: &X, parts: &dyn Fn(&X) -> bool) -> String {
    let mut s = "(".to_string();
    let mut first = true;
    for p in items(x) {
        if parts(p) {
            if !first {
                s.push(' ')
            }
            first = false;
            s.push_str(&p.text());
        }
    }
    s
}

fn text(x: &X, level: usize) -> String {
    let mut s = pad(level) + &open(x, &|p| !is(p, &["effects"]));
    for e in geo::kids(x, "effects") {
        s += &format!("\n{}{}", pad(level + 1), e.text());
    }
    s + &format!("\n{})\n", pad(level))
}

const OPTIONS: &[&str] = &["net", "solder_mask_margin", "solder_paste_margin", "clearance", "zone_connect", "thermal_gap"];

fn module_part(x: &X, level: usize) -> String {
    match x.head() {
        "fp_text" => text(x, level),
        "pad" => {
            let mut s = pad(level) + &open(x, &|p| !is(p, OPTIONS));
            let o: Vec<String> = items(x).iter().filter(|p| is(p, OPTIONS)).map(|p| p.text()).collect();
            if !o.is_empty() {
                s += &format!("\n{}{}", pad(level + 1), o.join(" "));
            }
            s + ")\n"
        }
        "fp_poly" => {
            let mut s = pad(level) + "(fp_poly (pts";
            for (i, p) in geo::kid(x, "pts").map(|p| geo::kids(p, "xy")).unwrap_or(vec![]).iter().enumerate() {
                if i > 0 && i % 4 == 0 {
                    s += &format!("\n{}{}", pad(level + 1), p.text());
                } else {
                    s += &format!(" {}", p.text());
                }
            }
            s.push(')');
            for p in &items(x)[2..] {
                s += &format!(" {}", p.text());
            }
            s + ")\n"
        }
        "model" => {
            let mut s = pad(level) + &open(x, &|p| matches!(p, X::A(_))) + "\n";
            for n in ["at", "scale", "rotate"] {
                for p in geo::kids(x, n) {
                    s += &format!("{}{}\n", pad(level + 1), p.text());
                }
            }
            s + &pad(level) + ")\n"
        }
        _ => format!("{}{}\n", pad(level), x.text()),
    }
}

const FIRST_LINE: &[&str] = &["layer", "tedit", "tstamp"];

/// a footprint; everything on the first line comes first
fn module(x: &X, level: usize) -> String {
    let on_first = |p: &X| matches!(p, X::A(_)) || is(p, FIRST_LINE);
    let mut s = pad(level) + &open(x, &on_first) + "\n";
    for p in items(x).iter().filter(|p| !on_first(p)) {
        s += &module_part(p, level + 1);
    }
    s + &pad(level) + ")\n"
}

fn block(x: &X, level: usize) -> String {
    let mut s = pad(level) + &open(x, &|p| matches!(p, X::A(_))) + "\n";
    for p in items(x).iter().filter(|p| matches!(p, X::L(_))) {
        if is(p, &["pcbplotparams"]) {
            s += &format!("{}(pcbplotparams", pad(level + 1));
            for q in &items(p)[1..] {
                s += &format!("\n{}{}", pad(level + 2), q.text());
            }
            s += ")\n";
        } else {
            s += &format!("{}{}\n", pad(level + 1), p.text());
        }
    }
    s + &pad(level) + ")\n"
}

fn zone(x: &X, level: usize) -> String {
    let lines = ["priority", "connect_pads", "min_thickness", "keepout", "fill", "polygon", "filled_polygon"];
    let mut s = pad(level) + &open(x, &|p| !is(p, &lines)) + "\n";
    for p in items(x).iter().filter(|p| is(p, &lines)) {
        if !is(p, &["polygon", "filled_polygon"]) {
            s += &format!("{}{}\n", pad(level + 1), p.text());
            continue;
        }
        s += &format!("{}({}\n{}(pts\n", pad(level + 1), p.head(), pad(level + 2));
        for row in geo::kids(geo::kid(p, "pts").unwrap(), "xy").chunks(5) {
            s += &format!("{}{}\n", pad(level + 3), row.iter().map(|q| q.text()).collect::<Vec<_>>().join(" "));
        }
        s += &format!("{})\n{})\n", pad(level + 2), pad(level + 1));
    }
    s + &pad(level) + ")\n"
}

fn dimension(x: &X, level: usize) -> String {
    let on_first = |p: &X| matches!(p, X::A(_)) || is(p, &["width", "layer", "tstamp"]);
    let mut s = pad(level) + &open(x, &on_first) + "\n";
    for p in items(x).iter().filter(|p| !on_first(p)) {
        if is(p, &["gr_text"]) {
            s += &text(p, level + 1);
        } else {
            s += &format!("{}{}\n", pad(level + 1), p.text());
        }
    }
    s + &pad(level) + ")\n"
}

const DRAWINGS: &[&str] = &["gr_text", "gr_line", "gr_arc", "gr_circle", "dimension"];
const TRACKS: &[&str] = &["segment", "via"];

/// a board, in the order KiCad writes it
fn board(x: &X) -> String {
    let mut s = open(x, &|p| matches!(p, X::A(_)) || is(p, &["version", "host"])) + "\n\n";
    let all = |n: &[&str]| items(x).iter().filter(|p| is(p, n)).cloned().collect::<Vec<X>>();
    for g in all(&["general"]) {
        s += &(block(&g, 1) + "\n");
    }
    for g in all(&["page"]) {
        s += &format!("  {}\n", g.text());
    }
    for g in all(&["layers"]) {
        s += &(block(&g, 1) + "\n");
    }
    for g in all(&["setup"]) {
        s += &(block(&g, 1) + "\n");
    }
    for g in all(&["net"]) {
        s += &format!("  {}\n", g.text());
    }
    s.push('\n');
    for g in all(&["net_class"]) {
        s += &(block(&g, 1) + "\n");
    }
    for g in all(&["module"]) {
        s += &(module(&g, 1) + "\n");
    }
    for (group, print) in [(DRAWINGS, true), (TRACKS, false)] {
        let l = all(group);
        for g in &l {
            s += &match g.head() {
                "gr_text" if print => text(g, 1),
                "dimension" => dimension(g, 1),
                _ => format!("  {}\n", g.text()),
            };
        }
        if !l.is_empty() {
            s.push('\n')
        }
    }
    for g in all(&["zone"]) {
        s += &zone(&g, 1);
    }
    s + ")\n"
}

fn table(x: &X) -> String {
    let mut s = "(fp_lib_table\n".to_string();
    for lib in &items(x)[1..] {
        s += "  (lib";
        for p in &items(lib)[1..] {
            s += &p.text();
        }
        s += ")\n";
    }
    s + ")\n"
}

fn differ(want: &str, got: &str) -> String {
    for (i, (w, g)) in want.lines().zip(got.lines()).enumerate() {
        if w != g {
            return format!("line {}: {:?} instead of {:?}\nwritten:\n{}", i + 1, g, w, got);
        }
    }
    format!("{} lines instead of {}\nwritten:\n{}", got.lines().count(), want.lines().count(), got)
}

fn footprint(x: &X) -> Result<String, (String, String)> {
    nested(x, 1..4)
}

fn nested(x: &X, levels: std::ops::Range<usize>) -> Result<String, (String, String)> {
    let want = module(x, 0);
    let m = fp::parse(&want).map_err(|e| bad("read", format!("{}\n{}", e, want)))?;
    let got = fp::module_to_string(&m, 0).map_err(|e| bad("write", e.to_string()))?;
    // the end of the last line is left to the caller
    if got.trim_end_matches('\n') != want.trim_end_matches('\n') {
        return Err(bad("footprint", differ(&want, &got)));
    }
    for level in levels {
        let want = module(x, level);
        let got = fp::module_to_string(&m, level as i64).map_err(|e| bad("write", e.to_string()))?;
        // the first line starts where the caller is
        if got.trim_end_matches('\n').trim_start_matches(' ') != want.trim_end_matches('\n').trim_start_matches(' ') {
            return Err(bad("nested", format!("level {}: {}", level, differ(&want, &got))));
        }
    }
    Ok(format!("{} lines", want.lines().count() / 4 * 4))
}

fn layout(x: &X) -> Result<String, (String, String)> {
    let want = board(x);
    let m = la::parse(&want).map_err(|e| bad("read", format!("{}\n{}", e, want)))?;
    let got = la::layout_to_string(&m, 0).map_err(|e| bad("write", e.to_string()))?;
    if got != want {
        return Err(bad("board", differ(&want, &got)));
    }
    Ok(format!("{} lines", want.lines().count() / 8 * 8))
}

fn libs(x: &X) -> Result<String, (String, String)> {
    let want = table(x);
    let m = ft::parse(&want).map_err(|e| bad("read", format!("{}\n{}", e, want)))?;
    let got = ft::to_string(&m, 0).map_err(|e| bad("write", e.to_string()))?;
    if got.trim_end_matches('\n') != want.trim_end_matches('\n') {
        return Err(bad("table", differ(&want, &got)));
    }
    Ok(format!("{} lines", want.lines().count()))
}

/// what is written in front of an element does not depend on it
fn prefix(texts: &[String]) -> Result<String, (String, String)> {
    for w in texts.windows(2) {
        let stem = w[0].trim_end_matches(|c| c == '\n' || c == ')' || c == ' ');
        if !w[1].starts_with(stem) {
            return Err(bad("prefix", format!("{}\nis not continued by\n{}", w[0], w[1])));
        }
    }
    Ok("prefix".into())
}

/// KiCad's form of an element: nothing it can not write
fn plain(x: &X) -> bool {
    match x {
        X::A(_) => true,
        X::L(v) => {
            let odd = match x.head() {
                // a stray space behind the numbers, and a second form of filling
                "rect_delta" | "fill_segments" => true,
                "pts" => v.len() < 2,
                "feature1" | "feature2" | "crossbar" | "arrow1a" | "arrow1b" | "arrow2a" | "arrow2b" => geo::kid(x, "pts").map(|p| geo::kids(p, "xy").len()) != Some(2),
                _ => false,
            };
            !odd && v.iter().all(plain)
        }
    }
}

const LONG: &[usize] = &[99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049, 4097];
const SETUP: &str = "last_trace_width user_trace_width trace_clearance zone_clearance zone_45_only trace_min segment_width edge_width via_size via_drill via_min_size via_min_drill user_via uvia_size uvia_drill uvias_allowed uvia_min_size uvia_min_drill blind_buried_vias_allowed pcb_text_width pcb_text_size mod_edge_width mod_text_size mod_text_width pad_size pad_drill pad_to_mask_clearance solder_mask_min_width pad_to_paste_clearance pad_to_paste_clearance_ratio aux_axis_origin grid_origin visible_elements";
const PLOT: &str = "layerselection usegerberextensions excludeedgelayer linewidth plotframeref viasonmask mode useauxorigin hpglpennumber hpglpenspeed hpglpendiameter hpglpenoverlay psnegative psa4output plotreference plotvalue plotinvisibletext padsonsilk subtractmaskfromsilk outputformat mirror drillshape scaleselection outputdirectory usegerberattributes gerberprecision plotfptext pscolor";

/// more of them than a number can hold are not kept as they stand
fn digits(what: &str) -> usize {
    what.rsplit('=').next().unwrap_or("").chars().filter(|c| c.is_ascii_digit()).count()
}

fn points(n: usize) -> X {
    sx::l("pts", (0..n).map(|i| sx::l("xy", vec![sx::i(i as i64), sx::n(i as f64 / 4.0)])).collect())
}

fn tail(k: &str) -> bool {
    !["locked", "layer", "tedit", "tstamp"].contains(&k)
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough();
    ctx.assumptions.push("strings are quoted by the rule of the library's S-expression writer; pads with a trapezoid delta and zones with fill segments, and elements the library only passes through, are left out".into());
    // footprints of one element
    let k = if t { 3 } else { 2 };
    let mut docs: Vec<(String, X)> = vec![];
    for kind in fpgen::KINDS {
        for d in fpgen::variants(kind, k) {
            let e = fpgen::build(kind, &d).output;
            if plain(&e) {
                docs.push((format!("{}:{:?}", kind, d), e))
            }
        }
    }
    parallel(ctx, |c, shard, of| {
        for (i, (label, e)) in docs.iter().enumerate() {
            if i % of != shard {
                continue;
            }
            c.transitions += 4;
            let x = sx::l("module", vec![sx::a("m"), e.clone()]);
            if c.state(&("footprint", x.text())) {
                c.sample("footprint", || module(&x, 0));
                c.case(&format!("footprint:{}", label), || footprint(&x));
            }
        }
    });
    // point lists of every length
    let most = if t { 60 } else { 26 };
    for n in 1..most {
        for m in [0, 1, 3, 4, 5, 6, 10] {
            let poly = |n: usize| sx::l("fp_poly", vec![points(n), sx::l1("layer", sx::a("F.Cu")), sx::l1("width", sx::n(0.1))]);
            let mut v = vec![sx::a("m"), poly(n)];
            if m > 0 {
                v.push(poly(m))
            }
            let x = sx::l("module", v);
            ctx.transitions += 4;
            if ctx.state(&("points", n, m)) {
                ctx.case(&format!("points:{}:{}", n, m), || footprint(&x));
            }
        }
    }
    // long point lists, and deep below the margin
    let poly = |n: usize| sx::l("fp_poly", vec![points(n), sx::l1("layer", sx::a("F.Cu")), sx::l1("width", sx::n(0.1))]);
    for n in LONG {
        ctx.transitions += 4;
        if ctx.state(&("points", n)) {
            ctx.case(&format!("points:{}", n), || footprint(&sx::l("module", vec![sx::a("m"), poly(*n), poly(3)])));
        }
    }
    for (name, r) in fpgen::representatives() {
        if !plain(&r.output) {
            continue;
        }
        ctx.transitions += 70;
        if ctx.state(&("deep", &name)) {
            ctx.case(&format!("deep:{}", name), || nested(&sx::l("module", vec![sx::a("m"), r.output.clone()]), 0..70));
        }
    }
    // sequences of elements, those on the first line in front
    let reps: Vec<(String, X)> = fpgen::representatives().into_iter().map(|r| (r.0, r.1.output)).filter(|r| plain(&r.1)).collect();
    let lines: Vec<usize> = (0..reps.len()).filter(|&i| tail(&reps[i].0)).collect();
    let inline: Vec<usize> = (0..reps.len()).filter(|&i| !tail(&reps[i].0)).collect();
    let seqs = sequences(lines.len(), if t { 4 } else { 3 });
    let fronts = sequences(inline.len(), 2);
    parallel(ctx, |c, shard, of| {
        for (i, q) in seqs.iter().enumerate() {
            if i % of != shard {
                continue;
            }
            for f in &fronts {
                if f.len() + q.len() > if t { 5 } else { 4 } {
                    continue;
                }
                let mut v = vec![sx::a("m")];
                v.extend(f.iter().map(|&j| reps[inline[j]].1.clone()));
                v.extend(q.iter().map(|&j| reps[lines[j]].1.clone()));
                let x = sx::l("module", v);
                c.transitions += 4;
                if c.state(&("sequence", f, q)) {
                    c.case(&format!("sequence:{:?}:{:?}", f, q), || footprint(&x));
                }
            }
        }
    });
    // boards: every element of KiCad's order, alone and in pairs and triples
    let mut head = lagen::head0();
    let base = |head: &[usize], els: &[X]| {
        let mut v = items(&lagen::layout_case(head, &[], 0).output).to_vec();
        v.push(sx::l("net", vec![sx::i(0), sx::a("")]));
        v.push(lagen::build("net_class", &vec![0; lagen::dims("net_class").len()]).output);
        v.extend(els.iter().cloned());
        X::L(v)
    };
    let order = |x: &X| -> usize {
        match x.head() {
            "net" => 0,
            "net_class" => 1,
            "module" => 2,
            "segment" | "via" => 4,
            "zone" => 5,
            _ => 3,
        }
    };
    let mut docs: Vec<(String, X)> = vec![];
    for kind in lagen::KINDS {
        if *kind == "other" {
            continue;
        }
        for d in deviations(&lagen::dims(kind), k) {
            let e = lagen::build(kind, &d).output;
            // the parts of a zone that are only passed through
            if plain(&e) && (*kind != "zone" || d[21] == 0) {
                docs.push((format!("{}:{:?}", kind, d), e))
            }
        }
    }
    let place = |els: Vec<X>| {
        // nets in front of the net class
        let mut v = els;
        v.sort_by_key(|e| order(e));
        v
    };
    parallel(ctx, |c, shard, of| {
        for (i, (label, e)) in docs.iter().enumerate() {
            if i % of != shard {
                continue;
            }
            c.step();
            let x = sorted(base(&head, &place(vec![e.clone()])));
            if c.state(&("board", x.text())) {
                c.sample("board", || board(&x));
                c.case(&format!("board:{}", label), || layout(&x));
            }
        }
    });
    for n in 1..most {
        for m in [0, 1, 5, 6, 11] {
            let mut v: Vec<X> = items(&lagen::build("zone", &vec![0; lagen::dims("zone").len()]).output).iter().filter(|p| !is(p, &["polygon", "filled_polygon"])).cloned().collect();
            v.push(sx::l1("polygon", points(n)));
            if m > 0 {
                v.push(sx::l1("filled_polygon", points(m)));
                v.push(sx::l1("filled_polygon", points(n)));
            }
            let x = base(&head, &[X::L(v)]);
            ctx.step();
            if ctx.state(&("zone", n, m)) {
                ctx.case(&format!("zone:{}:{}", n, m), || layout(&x));
            }
        }
    }
    for n in LONG {
        let mut v: Vec<X> = items(&lagen::build("zone", &vec![0; lagen::dims("zone").len()]).output).iter().filter(|p| !is(p, &["polygon", "filled_polygon"])).cloned().collect();
        v.push(sx::l1("polygon", points(*n)));
        v.push(sx::l1("filled_polygon", points(*n)));
        let x = base(&head, &[X::L(v)]);
        ctx.step();
        if ctx.state(&("zone", n)) {
            ctx.case(&format!("zone:{}", n), || layout(&x));
        }
    }
    // every number of every magnitude and every text of every form
    let words = shape::texts("\"\\");
    let kinds: Vec<(String, bool, X)> = shape::structures(1).into_iter().filter(|e| plain(&e.2) && (!e.0.starts_with("zone:") || e.0.ends_with(" 0]")) && !e.0.starts_with("other") && !e.0.contains("zone_full")).collect();
    parallel(ctx, |c, shard, of| {
        for (i, (label, f, e)) in kinds.iter().enumerate() {
            for (j, (what, y)) in shape::sized(e).into_iter().filter(|w| digits(&w.0) < 16).chain(shape::worded(e, &words)).enumerate() {
                if (i + j) % of != shard {
                    continue;
                }
                let y = shape::written(&y);
                // refused
                if y.text().contains("(priority -") {
                    continue;
                }
                let label = format!("form:{}:{}", label, what);
                c.step();
                if *f {
                    let x = shape::footprint(vec![y]);
                    if c.state(&("form", x.text())) {
                        c.case(&label, || nested(&x, 0..0));
                    }
                } else {
                    let x = sorted(base(&head, &place(vec![y])));
                    if c.state(&("form", x.text())) {
                        c.case(&label, || layout(&x));
                    }
                }
            }
        }
    });
    // the settings of a board by name: every one KiCad has, and names of every length
    let names: Vec<String> = SETUP.split(' ').map(String::from).chain((1..70).map(|n| "abcdefghi_".chars().cycle().take(n).collect())).collect();
    let plots: Vec<String> = PLOT.split(' ').map(String::from).chain((1..70).map(|n| "abcdefghi_".chars().cycle().take(n).collect())).collect();
    let with = |setup: &[String], plot: &[String]| {
        let mut x = base(&head, &[]);
        if let X::L(ref mut v) = x {
            for p in v.iter_mut() {
                if is(p, &["setup"]) {
                    let mut s: Vec<X> = setup.iter().map(|n| sx::l(n, vec![sx::a("0.25")])).collect();
                    s.push(sx::l("pcbplotparams", plot.iter().map(|n| sx::l(n, vec![sx::a("false")])).collect()));
                    *p = sx::l("setup", s);
                }
            }
        }
        x
    };
    let mut sets: Vec<(Vec<String>, Vec<String>)> = vec![(names.clone(), plots.clone())];
    for n in &names {
        sets.push((vec![n.clone()], vec!["mirror".into()]));
        sets.push((vec!["via_size".into(), n.clone(), "via_drill".into()], vec!["mirror".into()]));
    }
    for n in &plots {
        sets.push((vec!["via_size".into()], vec![n.clone()]));
        sets.push((vec!["via_size".into()], vec!["mirror".into(), n.clone(), "excludeedgelayer".into()]));
    }
    for (s, p) in &sets {
        ctx.step();
        let x = with(s, p);
        if ctx.state(&("settings", s, p)) {
            ctx.case(&format!("settings:{:?}:{:?}", s, p), || layout(&x));
        }
    }
    // the header
    for d in deviations(&lagen::head_dims(), k) {
        if d[19] != 0 {
            continue;
        }
        ctx.step();
        let x = base(&d, &[]);
        if ctx.state(&("head", &d)) {
            ctx.case(&format!("head:{:?}", d), || layout(&x));
        }
    }
    // groups of elements: none, one or two of each kind, in KiCad's order
    head[17] = 1;
    head[18] = 1;
    let rep: Vec<(String, X)> = lagen::la_representatives().into_iter().map(|r| (r.0, r.1.output)).filter(|r| plain(&r.1) && !r.0.starts_with("other") && r.0 != "zone_full").collect();
    let seqs = sequences(rep.len(), if t { 6 } else { 5 });
    parallel(ctx, |c, shard, of| {
        for (i, q) in seqs.iter().enumerate() {
            if i % of != shard {
                continue;
            }
            let els: Vec<X> = q.iter().map(|&j| rep[j].1.clone()).collect();
            if els.windows(2).any(|w| order(&w[0]) > order(&w[1])) {
                continue;
            }
            c.step();
            let x = sorted(base(&head, &els));
            if c.state(&("groups", q)) {
                c.case(&format!("groups:{:?}", q), || layout(&x));
            }
        }
    });
    // any order: an element does not change what is in front of it
    let rep: Vec<(String, X)> = lagen::la_representatives().into_iter().map(|r| (r.0, r.1.input)).collect();
    let seqs = sequences(rep.len(), if t { 4 } else { 3 });
    parallel(ctx, |c, shard, of| {
        for (i, q) in seqs.iter().enumerate() {
            if i % of != shard {
                continue;
            }
            c.transitions += q.len() as u64;
            if c.state(&("prefix", q)) {
                c.case(&format!("prefix:{:?}", q), || {
                    let mut texts = vec![];
                    for n in 0..=q.len() {
                        let x = base(&head, &q[..n].iter().map(|&j| rep[j].1.clone()).collect::<Vec<_>>());
                        let m = la::parse(&x.text()).map_err(|e| bad("read", format!("{}\n{}", e, x.text())))?;
                        texts.push(la::layout_to_string(&m, 0).map_err(|e| bad("write", e.to_string()))?);
                    }
                    prefix(&texts)
                });
            }
        }
    });
    // library tables
    let one: Vec<Vec<usize>> = deviations(&c05::lib_dims(), k);
    for d in &one {
        for more in 0..3 {
            let mut v = vec![d.clone()];
            v.extend((0..more).map(|i| one[i].clone()));
            ctx.step();
            let x = c05::table(&v).0;
            if ctx.state(&("table", &v)) {
                ctx.case(&format!("table:{:?}", v), || libs(&x));
            }
        }
    }
    ctx.step();
    if ctx.state("no-libraries") {
        ctx.case("table:none", || libs(&sx::l("fp_lib_table", vec![])));
    }
}

/// nets, then net classes, then the rest, keeping the order otherwise
fn sorted(x: X) -> X {
    let rank = |p: &X| {
        if is(p, &["net"]) {
            1
        } else if is(p, &["net_class"]) {
            2
        } else if is(p, &["module"]) || is(p, DRAWINGS) || is(p, TRACKS) || is(p, &["zone"]) {
            3
        } else {
            0
        }
    };
    let mut v = items(&x).to_vec();
    v.sort_by_key(rank);
    X::L(v)
}
