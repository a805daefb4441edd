use crate::core::*;
use crate::shape;
use crate::fpgen::{self, Case};
use crate::geo;
use crate::sx::{self, a, l, n, X};
use kicad_parse_gen::footprint::{self as fp, Flip, Rotate};

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

#[derive(Clone, Debug)]
enum Op {
    Flip,
    Rotate(f64),
}

fn kids(x: &X, f: &dyn Fn(&X) -> X) -> X {
    match x {
        X::L(v) => X::L(v.iter().enumerate().map(|(i, y)| if i > 0 && matches!(y, X::L(_)) { f(y) } else { y.clone() }).collect()),
        X::A(_) => x.clone(),
    }
}

/// negate the second number
fn negated(x: &X) -> X {
    match x {
        X::L(v) if v.len() > 2 => {
            let mut v = v.clone();
            v[2] = n(-geo::nums(x)[1]);
            X::L(v)
        }
        _ => x.clone(),
    }
}

/// a position: (at x y rot) with the rotation reduced to one turn
fn at(x: &X, f: &dyn Fn(f64, f64, f64) -> (f64, f64, f64)) -> X {
    let v = geo::nums(x);
    let (px, py, r) = f(v[0], v[1], v.get(2).cloned().unwrap_or(0.0));
    l("at", vec![n(px), n(py), n(r.rem_euclid(360.0) % 360.0)])
}

fn layers(x: &X) -> X {
    match x {
        X::L(v) => X::L(
            v.iter()
                .enumerate()
                .map(|(i, y)| match y {
                    // a name of more parts has no side
                    X::A(s) if i > 0 && s.matches('.').count() > 1 => a(&s[..]),
                    X::A(s) if i > 0 && s.starts_with("F.") => a(format!("B.{}", &s[2..])),
                    X::A(s) if i > 0 && s.starts_with("B.") => a(format!("F.{}", &s[2..])),
                    _ => y.clone(),
                })
                .collect(),
        ),
        X::A(_) => x.clone(),
    }
}

fn mirror_text(x: &X) -> X {
    match x {
        X::L(v) => {
            let mut v = v.clone();
            match geo::word(x, "justify") {
                None => v.push(l("justify", vec![a("mirror")])),
                Some(ref s) if s == "mirror" => v.retain(|y| y.head() != "justify"),
                Some(_) => (),
            }
            X::L(v)
        }
        X::A(_) => x.clone(),
    }
}

fn flip_element(e: &X) -> X {
    let turn = |p: &X| at(p, &|x, y, r| (x, -y, 360.0 - r));
    match e.head() {
        "at" => turn(e),
        "layer" => layers(e),
        "pad" | "fp_text" | "fp_line" | "fp_circle" | "fp_arc" | "fp_poly" => kids(e, &|p| match p.head() {
            "at" => turn(p),
            "layer" | "layers" => layers(p),
            "start" | "end" | "center" | "rect_delta" => negated(p),
            "pts" => kids(p, &negated),
            "drill" => kids(p, &|q| if q.head() == "offset" { negated(q) } else { q.clone() }),
            "angle" => l("angle", vec![n(-geo::nums(p)[0])]),
            "effects" => mirror_text(p),
            _ => p.clone(),
        }),
        _ => e.clone(),
    }
}

fn rotate_element(e: &X, by: f64) -> X {
    let turn = |p: &X| at(p, &|x, y, r| (x, y, r + by));
    match e.head() {
        "at" => turn(e),
        "pad" | "fp_text" => kids(e, &|p| if p.head() == "at" { turn(p) } else { p.clone() }),
        _ => e.clone(),
    }
}

/// positions with their rotation within one turn
fn norm(m: &X) -> X {
    kids(m, &|e| rotate_element(e, 0.0))
}

fn rotations(m: &fp::Module) -> Vec<f64> {
    m.elements
        .iter()
        .filter_map(|e| match *e {
            fp::Element::At(ref a) => Some(a.rot),
            fp::Element::Pad(ref p) => Some(p.at.rot),
            fp::Element::FpText(ref t) => Some(t.at.rot),
            _ => None,
        })
        .collect()
}

fn written(m: &fp::Module) -> Result<X, (String, String)> {
    let s = fp::module_to_string(m, 0).map_err(|e| bad("write", e.to_string()))?;
    sx::read(&s).map_err(|e| bad("write", e))
}

fn history(start: &fp::Module, ops: &[&Op]) -> Result<String, (String, String)> {
    let mut m = start.clone();
    let first = norm(&written(&m)?);
    let mut want = first.clone();
    let mut turned = 0.0;
    let mut flips = 0;
    for op in ops {
        match **op {
            Op::Flip => {
                m.flip();
                want = kids(&want, &flip_element);
                flips += 1;
                turned = -turned;
            }
            Op::Rotate(r) => {
                m.rotate(r);
                want = kids(&want, &|e| rotate_element(e, r));
                turned += r;
                if let Some(q) = rotations(&m).iter().find(|q| !(**q >= 0.0 && **q < 360.0)) {
                    return Err(bad("range", format!("rotation {} after {:?} of {:?} on {}", q, op, ops, first.text())));
                }
            }
        }
        let got = norm(&written(&m)?);
        geo::near(&want, &got).map_err(|e| bad("content", format!("{:?} of {:?}: {}\non {}", op, ops, e, first.text())))?;
    }
    // back to where it was
    if flips % 2 == 1 {
        m.flip();
        turned = -turned;
    }
    m.rotate(-turned);
    geo::near(&first, &norm(&written(&m)?)).map_err(|e| bad("back", format!("{:?} and back: {}\non {}", ops, e, first.text())))?;
    Ok(if want == first { "same" } else { "changed" }.into())
}

fn wrapped(v: Vec<Case<fp::Element>>) -> (fp::Module, String) {
    let m = fpgen::module_case("m", &v);
    let t = m.output.text();
    (m.value, t)
}

fn read(x: &X, ops: &[&Op]) -> Result<String, (String, String)> {
    match fp::parse(&x.text()) {
        Ok(m) => history(&m, ops),
        // a number of a kind that is not taken there
        Err(_) => Ok("refused".into()),
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.assumptions.push("numbers are compared up to rounding (1e-9), rotations up to a full turn".into());
    let t = ctx.thorough();
    let k = if t { 3 } else { 2 };
    let mut jobs: Vec<(&str, Vec<usize>)> = vec![];
    for kind in fpgen::KINDS {
        for d in fpgen::variants(kind, k) {
            jobs.push((kind, d));
        }
    }
    let angles = [90.0, -90.0, 45.5, 180.0, 359.0, -450.0, 720.0];
    let mut ops = vec![Op::Flip];
    ops.extend(angles.iter().map(|r| Op::Rotate(*r)));
    let (one, two, three) = (sequences(ops.len(), 1), sequences(ops.len(), 2), sequences(ops.len(), if t { 4 } else { 3 }));
    parallel(ctx, |c, shard, of| {
        for (q, (kind, d)) in jobs.iter().enumerate() {
            if q % of != shard {
                continue;
            }
            let (m, text) = wrapped(vec![fpgen::build(kind, d)]);
            if text.contains("00000000000000000000") {
                // no room for rounding
                continue;
            }
            let hs = match d.iter().filter(|x| **x != 0).count() {
                0 => &three,
                1 => &two,
                _ => &one,
            };
            for h in hs {
                c.transitions += h.len() as u64;
                if !c.state(&(&text, h)) {
                    continue;
                }
                let o: Vec<&Op> = h.iter().map(|&x| &ops[x]).collect();
                c.sample(kind, || format!("{:?} on {}", o, text));
                c.case(&format!("{}:{:?}:{:?}", kind, d, h), || history(&m, &o));
            }
        }
    });
    let reps = fpgen::representatives();
    let seqs = sequences(reps.len(), 3);
    let mut some = one.clone();
    some.extend((1..ops.len()).flat_map(|r| vec![vec![0, r], vec![r, 0]]));
    parallel(ctx, |c, shard, of| {
        for (q, s) in seqs.iter().enumerate() {
            if q % of != shard {
                continue;
            }
            let (m, text) = wrapped(s.iter().map(|&r| reps[r].1.clone()).collect());
            let hs = if s.len() < 3 { &two } else { &some };
            for h in hs {
                c.transitions += h.len() as u64;
                c.state(&(s, h));
                let o: Vec<&Op> = h.iter().map(|&x| &ops[x]).collect();
                c.case(&format!("seq:{:?}:{:?}", s, h), || history(&m, &o).map_err(|e| (e.0, format!("{}\n{}", e.1, text))));
            }
        }
    });
    // equal numbers, numbers far from the others, lists of every length
    let els = shape::elements(if t { 1 } else { 0 });
    // every element turned by every multiple of 7.5 degrees and some others
    let wide = shape::elements(1);
    let mut turns: Vec<f64> = (-100..=100).map(|n| n as f64 * 7.5).collect();
    turns.extend([0.125, -0.125, 359.875, 1.0, -1.0, 33.25, 0.0009765625, 12345.5].iter());
    parallel(ctx, |c, shard, of| {
        for (n, (label, foot, e)) in wide.iter().enumerate() {
            let x = shape::footprint(vec![e.clone()]);
            if n % of != shard || !*foot || x.text().contains("00000000000000000000") {
                continue;
            }
            for r in &turns {
                c.step();
                if c.state(&(x.text(), format!("{}", r))) {
                    c.case(&format!("turn:{}:{}", label, r), || read(&x, &[&Op::Rotate(*r)]));
                }
            }
        }
    });
    parallel(ctx, |c, shard, of| {
        for (n, (label, foot, e)) in els.iter().enumerate() {
            if n % of != shard || !*foot {
                continue;
            }
            let mut all = shape::equal(e);
            all.extend(shape::far(e));
            for (what, y) in all {
                let x = shape::footprint(vec![y]);
                for h in &one {
                    c.transitions += h.len() as u64;
                    if c.state(&(x.text(), h)) {
                        let o: Vec<&Op> = h.iter().map(|&x| &ops[x]).collect();
                        c.case(&format!("{}:{}:{:?}", label, what, h), || read(&x, &o));
                    }
                }
            }
        }
    });
    // words of every form, and footprints with every name
    let plain = shape::elements(0);
    parallel(ctx, |c, shard, of| {
        let mut try_it = |x: X, label: String| {
            for h in &one {
                c.transitions += h.len() as u64;
                if c.state(&(x.text(), h)) {
                    let o: Vec<&Op> = h.iter().map(|&x| &ops[x]).collect();
                    c.case(&format!("{}:{:?}", label, h), || read(&x, &o));
                }
            }
        };
        for (label, _, e) in plain.iter().filter(|e| e.1) {
            for (n, (what, y)) in shape::voiced(e).into_iter().enumerate() {
                if n % of == shard {
                    try_it(shape::footprint(vec![y]), format!("word:{}:{}", label, what));
                }
            }
            for (n, w) in shape::texts("\"\\").iter().enumerate() {
                if n % of == shard {
                    try_it(sx::l("module", vec![sx::a(&w[..]), e.clone()]), format!("named:{:?}:{}", w, label));
                }
            }
        }
    });
    let docs = shape::many(if t { 60 } else { 24 });
    parallel(ctx, |c, shard, of| {
        for (n, (label, foot, x)) in docs.iter().enumerate() {
            if n % of != shard || !*foot || x.text().contains("00000000000000000000") {
                continue;
            }
            for h in &one {
                c.transitions += h.len() as u64;
                if c.state(&(x.text(), h)) {
                    let o: Vec<&Op> = h.iter().map(|&x| &ops[x]).collect();
                    c.case(&format!("many:{}:{:?}", label, h), || read(x, &o));
                }
            }
        }
    });
}
