//! Positions and extents, worked out on the text tree of a document.

use crate::sx::{self, X};

pub fn words(x: &X) -> Vec<&str> {
    match x {
        X::L(v) => v
            .iter()
            .skip(1)
            .filter_map(|y| match y {
                X::A(s) => Some(&s[..]),
                _ => None,
            })
            .collect(),
        X::A(_) => vec![],
    }
}

pub fn nums(x: &X) -> Vec<f64> {
    words(x).iter().filter_map(|s| s.parse().ok()).collect()
}

pub fn kids<'a>(x: &'a X, name: &str) -> Vec<&'a X> {
    match x {
        X::L(v) => v.iter().filter(|y| matches!(y, X::L(_)) && y.head() == name).collect(),
        X::A(_) => vec![],
    }
}

pub fn kid<'a>(x: &'a X, name: &str) -> Option<&'a X> {
    kids(x, name).into_iter().next()
}

/// the value of a part of one word
pub fn word(x: &X, name: &str) -> Option<String> {
    kid(x, name).and_then(|k| words(k).first().map(|s| s.to_string()))
}

/// add an offset to the first two numbers of a list
fn moved(x: &X, dx: f64, dy: f64) -> X {
    match x {
        X::L(v) if v.len() >= 3 => {
            let mut v = v.clone();
            for (i, d) in [(1, dx), (2, dy)] {
                if let X::A(ref s) = v[i] {
                    if let Ok(f) = s.parse::<f64>() {
                        v[i] = sx::n(f + d)
                    }
                }
            }
            X::L(v)
        }
        _ => x.clone(),
    }
}

fn map_kids(x: &X, f: &dyn Fn(&X) -> X) -> X {
    match x {
        X::L(v) => X::L(v.iter().map(|y| if matches!(y, X::L(_)) { f(y) } else { y.clone() }).collect()),
        X::A(_) => x.clone(),
    }
}

fn move_pts(x: &X, dx: f64, dy: f64) -> X {
    map_kids(x, &|p| if p.head() == "pts" { map_kids(p, &|q| moved(q, dx, dy)) } else { p.clone() })
}

/// a board element after a move
pub fn shift_element(x: &X, dx: f64, dy: f64) -> X {
    let named = |names: &'static [&'static str]| move |p: &X| if names.contains(&p.head()) { moved(p, dx, dy) } else { p.clone() };
    match x.head() {
        "module" | "gr_text" | "via" => map_kids(x, &named(&["at"])),
        "gr_line" | "gr_arc" | "gr_circle" | "segment" => map_kids(x, &named(&["start", "end", "center"])),
        "dimension" => map_kids(x, &|p| match p.head() {
            "gr_text" => shift_element(p, dx, dy),
            "feature1" | "feature2" | "crossbar" | "arrow1a" | "arrow1b" | "arrow2a" | "arrow2b" => move_pts(p, dx, dy),
            _ => p.clone(),
        }),
        "zone" => map_kids(x, &|p| match p.head() {
            "polygon" | "filled_polygon" | "fill_segments" => move_pts(p, dx, dy),
            _ => p.clone(),
        }),
        _ => x.clone(),
    }
}

/// a board after a move
pub fn shift(x: &X, dx: f64, dy: f64) -> X {
    map_kids(x, &|e| shift_element(e, dx, dy))
}

/// the same, with numbers equal up to rounding
pub fn near(x: &X, y: &X) -> Result<(), String> {
    near_in("", x, y)
}
fn near_in(head: &str, x: &X, y: &X) -> Result<(), String> {
    match (x, y) {
        (X::A(s), X::A(t)) => {
            if s == t {
                return Ok(());
            }
            match (s.parse::<f64>(), t.parse::<f64>()) {
                (Ok(a), Ok(b)) if close(a, b) => Ok(()),
                _ => Err(format!("in ({} ..): '{}' against '{}'", head, s, t)),
            }
        }
        (X::L(v), X::L(w)) if v.len() == w.len() => {
            let h = x.head();
            for (a, b) in v.iter().zip(w) {
                near_in(h, a, b)?
            }
            Ok(())
        }
        _ => Err(format!("in ({} ..): {} against {}", head, x.text(), y.text())),
    }
}

pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Box4(pub f64, pub f64, pub f64, pub f64);

pub fn join(a: Option<Box4>, b: Option<Box4>) -> Option<Box4> {
    match (a, b) {
        (Some(a), Some(b)) => Some(Box4(a.0.min(b.0), a.1.min(b.1), a.2.max(b.2), a.3.max(b.3))),
        (Some(a), None) => Some(a),
        (None, b) => b,
    }
}

fn point(p: &X) -> Option<Box4> {
    let v = nums(p);
    if v.len() >= 2 {
        Some(Box4(v[0], v[1], v[0], v[1]))
    } else {
        None
    }
}

fn points(x: &X) -> Option<Box4> {
    let mut b = None;
    for p in kids(x, "pts") {
        if let X::L(v) = p {
            for q in &v[1..] {
                b = join(b, point(q))
            }
        }
    }
    b
}

fn around(x: f64, y: f64, rx: f64, ry: f64) -> Option<Box4> {
    Some(Box4(x - rx, y - ry, x + rx, y + ry))
}

fn zero() -> Vec<f64> {
    vec![0.0, 0.0]
}

/// the box of an element of a footprint or of a board
pub fn extent(x: &X) -> Option<Box4> {
    let at = |n: &str| kid(x, n).map(|k| nums(k)).filter(|v| v.len() >= 2).unwrap_or_else(zero);
    match x.head() {
        "pad" => {
            let p = at("at");
            let s = at("size");
            let quarter = p.len() > 2 && [90.0, -90.0, 270.0, -270.0].contains(&p[2]);
            let (w, h) = if quarter { (s[1], s[0]) } else { (s[0], s[1]) };
            around(p[0], p[1], w / 2.0, h / 2.0)
        }
        "fp_line" | "fp_arc" | "gr_line" | "gr_arc" | "segment" => {
            let (s, e) = (at("start"), at("end"));
            join(Some(Box4(s[0], s[1], s[0], s[1])), Some(Box4(e[0], e[1], e[0], e[1])))
        }
        "fp_circle" | "gr_circle" => {
            let (c, e) = (at("center"), at("end"));
            let r = ((c[0] - e[0]).powi(2) + (c[1] - e[1]).powi(2)).sqrt();
            around(c[0], c[1], r, r)
        }
        "fp_poly" => points(x),
        "fp_text" | "gr_text" => {
            let p = at("at");
            around(p[0], p[1], 0.0, 0.0)
        }
        "via" => {
            let p = at("at");
            let s = kid(x, "size").map(|k| nums(k)).filter(|v| !v.is_empty()).map(|v| v[0]).unwrap_or(0.0);
            around(p[0], p[1], s / 2.0, s / 2.0)
        }
        "dimension" => {
            let mut b = kid(x, "gr_text").and_then(extent);
            for n in ["feature1", "feature2", "crossbar", "arrow1a", "arrow1b", "arrow2a", "arrow2b"] {
                for k in kids(x, n) {
                    b = join(b, points(k))
                }
            }
            b
        }
        "zone" => {
            let mut b = None;
            for n in ["polygon", "filled_polygon", "fill_segments"] {
                for k in kids(x, n) {
                    b = join(b, points(k))
                }
            }
            b
        }
        "module" => {
            let p = at("at");
            let mut b = around(p[0], p[1], 0.0, 0.0);
            if let X::L(v) = x {
                for e in v {
                    let part = match e.head() {
                        "pad" => true,
                        "fp_line" | "fp_arc" | "fp_circle" | "fp_poly" => word(e, "layer").map(|l| l == "Fab" || l.ends_with(".Fab")).unwrap_or(false),
                        _ => false,
                    };
                    if part && matches!(e, X::L(_)) {
                        b = join(b, extent(e).map(|q| Box4(q.0 + p[0], q.1 + p[1], q.2 + p[0], q.3 + p[1])))
                    }
                }
            }
            b
        }
        "kicad_pcb" => {
            let mut b = None;
            if let X::L(v) = x {
                for e in v {
                    if matches!(e, X::L(_)) {
                        b = join(b, extent(e))
                    }
                }
            }
            b
        }
        _ => None,
    }
}

/// sizes that are not negative and numbers that leave room for rounding
pub fn sane(x: &X) -> bool {
    match *x {
        X::A(ref s) => s.parse::<f64>().map(|f| f.abs() < 1e9).unwrap_or(true),
        X::L(ref v) => {
            if x.head() == "size" && nums(x).iter().any(|f| *f < 0.0) {
                return false;
            }
            v.iter().all(sane)
        }
    }
}

pub fn first(x: &X) -> X {
    match x {
        X::L(v) => v[0].clone(),
        X::A(_) => x.clone(),
    }
}
