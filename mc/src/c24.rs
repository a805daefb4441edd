use crate::core::*;
use crate::fpgen;
use crate::shape;
use crate::sx::{self, X};
use kicad_parse_gen::footprint as fp;

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

/// what is left of an element when everything that belongs to an instance is taken away
fn key(e: &fp::Element) -> String {
    let mut e = e.clone();
    let side = |l: &mut fp::Layer| l.side = fp::LayerSide::None;
    match e {
        fp::Element::Layer(ref mut l) => side(l),
        fp::Element::Pad(ref mut p) => {
            p.net = None;
            p.layers.layers.iter_mut().for_each(side);
        }
        fp::Element::FpText(ref mut t) => {
            if t.name == "reference" || t.name == "value" {
                return format!("text {}", t.name);
            }
            side(&mut t.layer)
        }
        fp::Element::FpLine(ref mut p) => side(&mut p.layer),
        fp::Element::FpArc(ref mut p) => side(&mut p.layer),
        fp::Element::FpCircle(ref mut p) => side(&mut p.layer),
        fp::Element::FpPoly(ref mut p) => side(&mut p.layer),
        _ => (),
    }
    format!("{:?}", e).replace("-0.0", "0.0")
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough();
    let mut firsts: Vec<(String, u64, fp::Element)> = vec![];
    let mut seconds: Vec<(String, String, fp::Element)> = vec![];
    for kind in fpgen::KINDS {
        for d in fpgen::variants(kind, if t { 2 } else { 1 }) {
            let e = fpgen::build(kind, &d).value;
            firsts.push((format!("{}:{:?}", kind, d), hash64(&key(&e)), e));
        }
        for d in fpgen::variants(kind, 2) {
            let e = fpgen::build(kind, &d).value;
            seconds.push((format!("{}:{:?}", kind, d), kind.to_string(), e));
        }
    }
    ctx.assumptions.push(format!("{} elements are each compared with {}", seconds.len(), firsts.len()));
    let kinds = |s: &str| s.split(':').next().unwrap_or("").to_string();
    let firsts: Vec<(String, u64, fp::Element, String)> = firsts.into_iter().map(|f| (f.0.clone(), f.1, f.2, kinds(&f.0))).collect();
    parallel(ctx, |c, shard, of| {
        for (q, s) in seconds.iter().enumerate() {
            if q % of != shard {
                continue;
            }
            let k = hash64(&key(&s.2));
            c.state(&s.0);
            c.sample(&s.1, || s.0.clone());
            let mut pairs = 0;
            c.case(&s.0, || {
                let mut equal = 0;
                for f in &firsts {
                    // of other kinds only the base forms
                    if f.3 != s.1 && f.0.contains(|q| ('1'..='9').contains(&q)) {
                        continue;
                    }
                    pairs += 1;
                    let want = k == f.1;
                    if (s.2 == f.2) != want {
                        return Err(bad("equal", format!("{:?}\nand {:?}\ncompare {}", s.2, f.2, !want)));
                    }
                    if (f.2 == s.2) != want || (f.2 != s.2) == want {
                        return Err(bad("symmetric", format!("{:?}\nand {:?}\ncompare differently in the other order", s.2, f.2)));
                    }
                    equal += want as usize;
                }
                if s.2 != s.2.clone() {
                    return Err(bad("reflexive", format!("{:?}", s.2)));
                }
                Ok(match equal {
                    0 => "equal to none".into(),
                    1 => "equal to one".into(),
                    _ => "equal to several".into(),
                })
            });
            c.transitions += pairs;
        }
    });
    wide(ctx);
}

/// every way to the atoms of a tree
fn atoms(x: &X, way: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, String)>) {
    match x {
        X::A(s) => out.push((way.clone(), s.clone())),
        X::L(v) => {
            for (i, e) in v.iter().enumerate() {
                // not the word that says what it is
                if i > 0 || matches!(e, X::L(_)) {
                    way.push(i);
                    atoms(e, way, out);
                    way.pop();
                }
            }
        }
    }
}

fn with(x: &X, way: &[usize], s: &str) -> X {
    match x {
        X::L(v) if !way.is_empty() => X::L(v.iter().enumerate().map(|(i, e)| if i == way[0] { with(e, &way[1..], s) } else { e.clone() }).collect()),
        _ => sx::a(s),
    }
}

/// elements that differ in one place, by little
fn wide(ctx: &mut Ctx) {
    let mut jobs: Vec<(String, X, bool)> = vec![];
    for kind in fpgen::KINDS {
        for d in fpgen::variants(kind, 1) {
            jobs.push((format!("{}:{:?}", kind, d), fpgen::build(kind, &d).output, d.iter().all(|q| *q == 0)))
        }
    }
    for (l, e) in fpgen::representatives() {
        jobs.push((format!("rep:{}", l), e.output, true))
    }
    let read = |x: &X| -> Option<fp::Element> {
        match fp::parse(&sx::l("module", vec![sx::a("m"), x.clone()]).text()) {
            Ok(ref m) if m.elements.len() == 1 => Some(m.elements[0].clone()),
            _ => None,
        }
    };
    parallel(ctx, |c, shard, of| {
        for (n, (label, x, full)) in jobs.iter().enumerate() {
            if n % of != shard {
                continue;
            }
            let base = match read(x) {
                Some(b) => b,
                None => continue,
            };
            let mut places = vec![];
            atoms(x, &mut vec![], &mut places);
            for (way, now) in places {
                let mut others: Vec<String> = match now.parse::<f64>() {
                    Ok(f) => [f, -f, 0.0, f + 1e-12, f + 1e-9, f - 1e-7, f + 1e-6, f + 1e-4, f - 0.001, f + 0.01, f + 0.5, f - 1.0, f + 1.0, f * 10.0, f + 90.0, f + 180.0, f + 360.0, f - 360.0, -1.0, 1.0].iter().map(|&r| sx::num(r)).collect(),
                    Err(_) => vec![],
                };
                others.extend(shape::near(&now).into_iter().filter(|w| !w.contains('"') && !w.contains('\\')));
                others.push(now.clone());
                others.sort();
                others.dedup();
                let made: Vec<(String, fp::Element, u64)> = others
                    .iter()
                    .filter_map(|w| {
                        let e = read(&with(x, &way, w))?;
                        let k = hash64(&key(&e));
                        Some((w.clone(), e, k))
                    })
                    .collect();
                let k = hash64(&key(&base));
                c.transitions += made.len() as u64;
                c.state(&("place", label, &way));
                c.sample("place", || format!("{} {:?} as {:?}", label, way, made.iter().map(|m| &m.0[..]).collect::<Vec<_>>()));
                c.case(&format!("place:{}:{:?}", label, way), || {
                    let mut equal = 0;
                    for (w, e, h) in &made {
                        let want = *h == k;
                        if (*e == base) != want || (base == *e) != want || (base != *e) == want {
                            return Err(bad("equal", format!("{:?} in place of {:?}: {:?}\nand {:?}\ncompare {}", w, now, e, base, !want)));
                        }
                        equal += want as usize;
                        if *full {
                            for (v, f, g) in &made {
                                if (e == f) != (h == g) {
                                    return Err(bad("equal", format!("{:?} and {:?}: {:?}\nand {:?}\ncompare {}", w, v, e, f, e == f)));
                                }
                            }
                        }
                    }
                    Ok(format!("equal to {}", if equal == made.len() { "all" } else { "some" }))
                });
            }
        }
    });
}
