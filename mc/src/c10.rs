use crate::c09;
use crate::core::*;
use crate::fpgen::{self, Case};
use crate::geo::{self, Box4};
use crate::lagen;
use crate::shape;
use crate::scgen;
use crate::c03;
use crate::sx::{self, X};
use kicad_parse_gen::footprint as fp;
use kicad_parse_gen::layout as la;
use kicad_parse_gen::schematic as sc;
use kicad_parse_gen::{Adjust, Bound, BoundingBox};

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

fn compare(want: Option<Box4>, got: &Bound, what: &str) -> Result<String, (String, String)> {
    let show = || format!("{:?} instead of {:?} for {}", got, want, what);
    match want {
        None => {
            if got.is_bounded {
                return Err(bad("bounded", show()));
            }
            Ok("unbounded".into())
        }
        Some(w) => {
            if !got.is_bounded {
                return Err(bad("unbounded", show()));
            }
            if got.x1 > got.x2 || got.y1 > got.y2 {
                return Err(bad("not-normal", show()));
            }
            if !(geo::close(w.0, got.x1) && geo::close(w.1, got.y1) && geo::close(w.2, got.x2) && geo::close(w.3, got.y2)) {
                return Err(bad("box", show()));
            }
            if !geo::close(got.width(), w.2 - w.0) || !geo::close(got.height(), w.3 - w.1) {
                return Err(bad("size", show()));
            }
            Ok("bounded".into())
        }
    }
}

fn moved(b: Option<Box4>, dx: f64, dy: f64) -> Option<Box4> {
    b.map(|q| Box4(q.0 + dx, q.1 + dy, q.2 + dx, q.3 + dy))
}

fn board(m: &la::Layout, tree: &X) -> Result<String, (String, String)> {
    let want = geo::extent(tree);
    let r = compare(want, &m.bounding_box(), &tree.text())?;
    for &(dx, dy) in &c09::OFFSETS[1..4] {
        let mut n = lagen::copy(m);
        n.adjust(dx, dy);
        let t = geo::shift(tree, dx, dy);
        let w = geo::extent(&t);
        compare(w, &n.bounding_box(), &format!("{} moved by {} {}", tree.text(), dx, dy))?;
        // a footprint without a position stays where it is
        let fixed = geo::kids(tree, "module").iter().any(|m| geo::kid(m, "at").is_none());
        if let (false, Some(a), Some(b)) = (fixed, moved(want, dx, dy), w) {
            if !geo::close(a.0, b.0) || !geo::close(a.3, b.3) {
                return Err(bad("moved", format!("{} {:?} {:?}", tree.text(), a, b)));
            }
        }
    }
    Ok(r)
}

/// shapes on a small grid: every pair of corners in every order
fn grid() -> Vec<(f64, f64, f64, f64)> {
    let g = [-3.0, -0.5, 0.0, 1.25, 4.0];
    let mut v = vec![];
    for a in g {
        for b in g {
            for c in g {
                for d in g {
                    v.push((a, b, c, d))
                }
            }
        }
    }
    v
}

fn shapes() -> Vec<(String, Case<fp::Element>)> {
    use crate::sx::{a, l, n};
    let mut v: Vec<(String, Case<fp::Element>)> = vec![];
    let both = |e: fp::Element, x: X| Case {
        input: x.clone(),
        value: e,
        output: x,
    };
    for (x1, y1, x2, y2) in grid() {
        for lay in ["F.Fab", "B.Fab", "F.SilkS", "F.CrtYd"] {
            let layer = || fp::Layer::from_string(lay).unwrap();
            let lx = || l("layer", vec![a(lay)]);
            let p = |name: &str, x: f64, y: f64| l(name, vec![n(x), n(y)]);
            v.push((
                format!("line:{:?}:{}", (x1, y1, x2, y2), lay),
                both(
                    fp::Element::FpLine(fp::FpLine {
                        start: fp::Xy::new(x1, y1, fp::XyType::Start),
                        end: fp::Xy::new(x2, y2, fp::XyType::End),
                        layer: layer(),
                        width: 0.1,
                    }),
                    l("fp_line", vec![p("start", x1, y1), p("end", x2, y2), lx(), l("width", vec![n(0.1)])]),
                ),
            ));
            v.push((
                format!("arc:{:?}:{}", (x1, y1, x2, y2), lay),
                both(
                    fp::Element::FpArc(fp::FpArc {
                        start: fp::Xy::new(x1, y1, fp::XyType::Start),
                        end: fp::Xy::new(x2, y2, fp::XyType::End),
                        angle: 90.0,
                        layer: layer(),
                        width: 0.1,
                    }),
                    l("fp_arc", vec![p("start", x1, y1), p("end", x2, y2), l("angle", vec![n(90.0)]), lx(), l("width", vec![n(0.1)])]),
                ),
            ));
            v.push((
                format!("circle:{:?}:{}", (x1, y1, x2, y2), lay),
                both(
                    fp::Element::FpCircle(fp::FpCircle {
                        center: fp::Xy::new(x1, y1, fp::XyType::Center),
                        end: fp::Xy::new(x2, y2, fp::XyType::End),
                        layer: layer(),
                        width: 0.1,
                    }),
                    l("fp_circle", vec![p("center", x1, y1), p("end", x2, y2), lx(), l("width", vec![n(0.1)])]),
                ),
            ));
        }
    }
    for (w, h) in [(2.0, 6.0), (6.0, 2.0), (0.0, 1.0), (3.0, 3.0)] {
        for (x, y) in [(0.0, 0.0), (-5.0, 7.5), (1.25, -2.0)] {
            for rot in [0.0, 90.0, 180.0, 270.0, -90.0, -180.0, -270.0] {
                let mut p = fp::Pad::new("1".into(), fp::PadType::Smd, fp::PadShape::Rect);
                p.at = fp::At::new(x, y, rot);
                p.size = fp::Xy::new(w, h, fp::XyType::Size);
                let x = l("pad", vec![a("1"), a("smd"), a("rect"), l("at", vec![n(x), n(y), n(rot)]), l("size", vec![n(w), n(h)])]);
                v.push((format!("pad:{}", x.text()), both(fp::Element::Pad(p), x)));
            }
        }
    }
    v
}

/// the joining of boxes itself
fn bounds(ctx: &mut Ctx) {
    let mut all: Vec<Option<Box4>> = vec![None];
    let g = [-2.0, 0.0, 1.5];
    for a in g {
        for b in g {
            for c in g {
                for d in g {
                    if a <= c && b <= d {
                        all.push(Some(Box4(a, b, c, d)))
                    }
                }
            }
        }
    }
    let make = |b: &Option<Box4>| match *b {
        None => Bound::default(),
        Some(q) => Bound::new(q.0, q.1, q.2, q.3),
    };
    let depth = if ctx.thorough() { 3 } else { 2 };
    for s in sequences(all.len(), depth) {
        if s.is_empty() {
            continue;
        }
        ctx.step();
        ctx.state(&("bounds", &s));
        ctx.case(&format!("bounds:{:?}", s), || {
            let mut b = Bound::default();
            let mut w = None;
            for &i in &s {
                b.update(&make(&all[i]));
                w = geo::join(w, all[i]);
                compare(w, &b, &format!("{:?}", s.iter().map(|&i| all[i]).collect::<Vec<_>>()))?;
            }
            Ok("joined".into())
        });
    }
    for a in [-2i64, 0, 3] {
        for b in [-1i64, 5] {
            for c in [-7i64, 0, 9] {
                for d in [-4i64, 8] {
                    ctx.step();
                    ctx.state(&("new", a, b, c, d));
                    ctx.case(&format!("new:{},{},{},{}", a, b, c, d), || {
                        let mut x = Bound::new_from_i64(a, b, c, d);
                        x.swap_if_needed();
                        let w = Box4(a.min(c) as f64, b.min(d) as f64, a.max(c) as f64, b.max(d) as f64);
                        compare(Some(w), &x, "corners in any order")?;
                        let x = Bound::new_from_i64(a, b, c, d);
                        if x.width() != (a - c).abs() as f64 || x.height() != (b - d).abs() as f64 {
                            return Err(bad("size", format!("{:?}", x)));
                        }
                        Ok("normalised".into())
                    });
                }
            }
        }
    }
}

fn schematics(ctx: &mut Ctx) {
    // what each part of a schematic adds
    let part = |p: &scgen::Part| -> Option<Box4> {
        match p.value {
            scgen::El::E(sc::Element::Component(ref c)) => Some(Box4(c.x as f64, c.y as f64, c.x as f64, c.y as f64)),
            scgen::El::E(_) => None,
            scgen::El::S(ref s) => Some(Box4(s.x as f64, (s.y - 100) as f64, (s.x + s.dimx) as f64, (s.y + s.dimy + 100) as f64)),
        }
    };
    let h = scgen::head(&scgen::head0());
    let mut all: Vec<(String, Vec<scgen::Part>)> = vec![];
    for kind in scgen::KINDS {
        for d in deviations(&scgen::dims(kind), 2) {
            all.push((format!("{}:{:?}", kind, d), scgen::build(kind, &d)));
        }
    }
    let places = [(0i64, 0i64), (100, -200), (-300, 5), (7, 7000)];
    let reps = scgen::representatives();
    let pick = |i: usize| {
        if i < places.len() {
            let mut c = scgen::comp0();
            c.x = places[i].0;
            c.y = places[i].1;
            vec![scgen::component(&c)]
        } else {
            scgen::build(reps[i - places.len()].0, &reps[i - places.len()].1)
        }
    };
    for s in sequences(places.len() + reps.len(), if ctx.thorough() { 4 } else { 3 }) {
        all.push((format!("seq:{:?}", s), s.iter().flat_map(|&i| pick(i)).collect()));
    }
    for (label, parts) in &all {
        let mut want = None;
        for p in parts {
            want = geo::join(want, part(p))
        }
        ctx.step();
        let text = c03::canonical(&h, parts);
        if !ctx.state(&text) {
            continue;
        }
        // sizes below zero do not describe a sheet
        if parts.iter().any(|p| matches!(p.value, scgen::El::S(ref s) if s.dimx < 0 || s.dimy < 0)) {
            continue;
        }
        ctx.case(&format!("sch:{}", label), || {
            let s = sc::parse_str(&text).map_err(|e| bad("read", e.to_string()))?;
            compare(want, &s.bounding_box(), &text)
        });
    }
}

/// whole numbers of every magnitude in each place, one at a time
fn wide(ctx: &mut Ctx) {
    let ints: Vec<i64> = shape::ints().into_iter().filter(|i| i.abs() < 1 << 53).collect();
    for k in 0..4 {
        for &i in &ints {
            for other in [[3i64, 5, 40, 70], [0, 0, 0, 0], [-9, 900, 40, -70]] {
                let mut v = other;
                v[k] = i;
                ctx.step();
                ctx.state(&("wide", v));
                ctx.case(&format!("wide:{:?}", v), || {
                    let mut x = Bound::new_from_i64(v[0], v[1], v[2], v[3]);
                    if x.width() != (v[0] - v[2]).abs() as f64 || x.height() != (v[1] - v[3]).abs() as f64 {
                        return Err(bad("size", format!("{:?}", x)));
                    }
                    x.swap_if_needed();
                    let f = |a: i64, b: i64| (a.min(b) as f64, a.max(b) as f64);
                    let ((x1, x2), (y1, y2)) = (f(v[0], v[2]), f(v[1], v[3]));
                    compare(Some(Box4(x1, y1, x2, y2)), &x, "corners")?;
                    let mut s = sc::Sheet::default();
                    s.x = v[0];
                    s.y = v[1];
                    s.dimx = v[2].abs();
                    s.dimy = v[3].abs();
                    let w = Box4(s.x as f64, (s.y - 100) as f64, (s.x + s.dimx) as f64, (s.y + s.dimy + 100) as f64);
                    compare(Some(w), &s.bounding_box(), "sheet")?;
                    let mut c = sc::Component::default();
                    c.x = v[0];
                    c.y = v[1];
                    let p = Box4(c.x as f64, c.y as f64, c.x as f64, c.y as f64);
                    compare(Some(p), &c.bounding_box(), "component")?;
                    let mut t = sc::Schematic::default();
                    t.elements.push(sc::Element::Component(c));
                    compare(Some(p), &t.bounding_box(), "schematic")?;
                    t.sheets.push(s);
                    compare(geo::join(Some(p), Some(w)), &t.bounding_box(), "schematic")
                });
            }
        }
    }
}

fn read(foot: bool, x: &X) -> Result<String, (String, String)> {
    let text = x.text();
    // a number of a kind that is not taken there is refused
    if foot {
        match fp::parse(&text) {
            Ok(m) => compare(geo::extent(x), &m.bounding_box(), &text),
            Err(_) => Ok("refused".into()),
        }
    } else {
        match la::parse(&text) {
            Ok(l) => board(&l, x),
            Err(_) => Ok("refused".into()),
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.assumptions.push("numbers are compared up to rounding (1e-9); sizes are not negative, numbers below 1e9".into());
    let k = if ctx.thorough() { 3 } else { 2 };
    let mut small = lagen::head0();
    small[19] = 6;
    let mut jobs: Vec<(String, Vec<usize>, bool)> = vec![];
    for kind in lagen::KINDS {
        for d in deviations(&lagen::dims(kind), k) {
            jobs.push((kind.to_string(), d, false));
        }
    }
    for kind in fpgen::KINDS {
        for d in fpgen::variants(kind, k) {
            jobs.push((kind.to_string(), d, true));
        }
    }
    parallel(ctx, |c, shard, of| {
        for (n, (kind, d, foot)) in jobs.iter().enumerate() {
            if n % of != shard {
                continue;
            }
            let label = format!("{}:{:?}", kind, d);
            c.step();
            if *foot {
                let e = fpgen::build(kind, d);
                if geo::sane(&e.output) && c.state(&e.output.text()) {
                    c.sample(kind, || e.output.text());
                    c.case(&label, || compare(geo::extent(&e.output), &e.value.bounding_box(), &e.output.text()));
                    c.case(&format!("module:{}", label), || {
                        let m = fpgen::module_case("m", &[e.clone()]);
                        compare(geo::extent(&m.output), &m.value.bounding_box(), &m.output.text())
                    });
                }
            } else {
                let e = lagen::build(kind, d);
                if geo::sane(&e.output) && c.state(&e.output.text()) {
                    c.case(&label, || compare(geo::extent(&e.output), &e.value.bounding_box(), &e.output.text()));
                    let m = lagen::layout_case(&small, &[e], 0);
                    c.case(&format!("board:{}", label), || board(&m.value, &m.output));
                }
            }
        }
    });
    // every shape alone, in a footprint, and in a placed footprint on a board
    let shapes = shapes();
    parallel(ctx, |c, shard, of| {
        for (n, (label, e)) in shapes.iter().enumerate() {
            if n % of != shard {
                continue;
            }
            c.step();
            if !c.state(label) {
                continue;
            }
            c.case(label, || compare(geo::extent(&e.output), &e.value.bounding_box(), &e.output.text()));
            for at in [(0.0, 0.0), (10.0, -20.0), (-0.5, 0.25)] {
                let b = c09::placed(e, at);
                let m = lagen::layout_case(&small, &[b], 0);
                c.case(&format!("{}:{:?}", label, at), || board(&m.value, &m.output));
            }
        }
    });
    // two and three shapes together, in every order
    let corners = ["(-3.0, -0.5, 4.0, 1.25)", "(4.0, 1.25, -3.0, -0.5)", "(0.0, 0.0, 1.25, 4.0)", "(1.25, -3.0, -0.5, 4.0)"];
    let few: Vec<_> = shapes
        .iter()
        .filter(|(l, _)| {
            let p: Vec<&str> = l.splitn(2, ':').collect();
            match p[0] {
                "pad" => ["2 6", "6 2"].iter().any(|s| p[1].contains(&format!("(size {})", s))) && ["-5 7.5 0)", "1.25 -2 90)", "0 0 -90)"].iter().any(|s| p[1].contains(s)),
                _ => corners.iter().any(|c| p[1].starts_with(c)) && !p[1].ends_with("CrtYd"),
            }
        })
        .collect();
    let seqs = sequences(few.len(), if ctx.thorough() { 3 } else { 2 });
    let lreps = lagen::la_representatives();
    let lseqs = sequences(lreps.len(), if ctx.thorough() { 4 } else { 3 });
    let freps = fpgen::representatives();
    let fseqs = sequences(freps.len(), if ctx.thorough() { 4 } else { 3 });
    parallel(ctx, |c, shard, of| {
        for (n, s) in seqs.iter().enumerate() {
            if n % of == shard {
                let els: Vec<_> = s.iter().map(|&i| few[i].1.clone()).collect();
                let m = fpgen::module_case("m", &els);
                c.step();
                c.state(&("shapes", s));
                c.case(&format!("shapes:{:?}", s), || compare(geo::extent(&m.output), &m.value.bounding_box(), &m.output.text()));
            }
        }
        for (n, s) in lseqs.iter().enumerate() {
            if n % of == shard {
                let els: Vec<_> = s.iter().map(|&i| lreps[i].1.clone()).collect();
                let m = lagen::layout_case(&small, &els, 0);
                c.step();
                c.state(&("board", s));
                c.case(&format!("boards:{:?}", s), || board(&m.value, &m.output));
            }
        }
        for (n, s) in fseqs.iter().enumerate() {
            if n % of == shard {
                let els: Vec<_> = s.iter().map(|&i| freps[i].1.clone()).collect();
                let m = fpgen::module_case("m", &els);
                c.step();
                c.state(&("module", s));
                c.case(&format!("modules:{:?}", s), || compare(geo::extent(&m.output), &m.value.bounding_box(), &m.output.text()));
            }
        }
    });
    // equal numbers, numbers far from the others, lists of every length
    let els = shape::elements(1);
    parallel(ctx, |c, shard, of| {
        for (n, (label, foot, e)) in els.iter().enumerate() {
            if n % of != shard {
                continue;
            }
            let mut all = shape::equal(e);
            all.extend(shape::far(e));
            for (what, y) in all {
                c.step();
                if geo::sane(&y) && c.state(&(*foot, y.text())) {
                    c.case(&format!("{}:{}", label, what), || read(*foot, &if *foot { shape::footprint(vec![y.clone()]) } else { shape::board(vec![y.clone()]) }));
                }
            }
        }
    });
    // numbers of every magnitude
    let els = shape::elements(0);
    parallel(ctx, |c, shard, of| {
        for (label, foot, e) in &els {
            for (n, (what, y)) in shape::proper(e).into_iter().enumerate() {
                if n % of != shard {
                    continue;
                }
                c.step();
                if geo::sane(&y) && c.state(&(*foot, y.text())) {
                    c.case(&format!("{}:{}", label, what), || read(*foot, &if *foot { shape::footprint(vec![y.clone()]) } else { shape::board(vec![y.clone()]) }));
                }
            }
        }
    });
    // words of every form, and footprints with every name
    parallel(ctx, |c, shard, of| {
        for (label, foot, e) in &els {
            for (n, (what, y)) in shape::voiced(e).into_iter().enumerate() {
                if n % of != shard {
                    continue;
                }
                c.step();
                let x = if *foot { shape::footprint(vec![y]) } else { shape::board(vec![y]) };
                if c.state(&(*foot, x.text())) {
                    c.case(&format!("word:{}:{}", label, what), || read(*foot, &x));
                }
            }
        }
        for (n, w) in shape::texts("\"\\").iter().enumerate() {
            for (label, foot, e) in els.iter().filter(|e| e.1) {
                if n % of != shard {
                    continue;
                }
                let x = sx::l("module", vec![sx::a(&w[..]), e.clone()]);
                c.step();
                if c.state(&x.text()) {
                    c.case(&format!("named:{:?}:{}", w, label), || read(*foot, &x));
                }
            }
        }
    });
    let docs = shape::many(if ctx.thorough() { 100 } else { 40 });
    parallel(ctx, |c, shard, of| {
        for (n, (label, foot, x)) in docs.iter().enumerate() {
            if n % of == shard {
                c.step();
                if geo::sane(x) && c.state(&x.text()) {
                    c.case(&format!("many:{}", label), || read(*foot, x));
                }
            }
        }
    });
    bounds(ctx);
    schematics(ctx);
    wide(ctx);
}
