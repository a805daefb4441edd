//! Footprint elements: for every kind the attribute domains and, for every
//! choice of attributes, the text to read, the value it must yield and the
//! text that value must be written as.

use crate::core::deviations;
use crate::sx::*;
use kicad_parse_gen::footprint as fp;

#[derive(Clone)]
pub struct Case<E> {
    pub input: X,
    pub value: E,
    pub output: X,
}

/// number domain: index 0 is a value of its own for every slot
pub const NN: usize = 6;
pub fn nv(slot: usize, d: usize) -> f64 {
    let base = slot as f64 + 1.25;
    match d {
        0 => base,
        1 => 0.0,
        2 => -base,
        3 => 0.000001,
        4 => 123456.789,
        5 => 1e21,
        _ => unreachable!(),
    }
}
/// same without negative numbers
pub const NP: usize = 5;
pub fn nvp(slot: usize, d: usize) -> f64 {
    nv(slot, if d >= 2 { d + 1 } else { d })
}
pub const STRS: &[&str] = &["word", "", "two words", "(x)", "a%b", "{c}", "tab\tx", "\u{3a9}\u{2126}", "a,b;#'", "%R", "12", "-", " lead", "end ", "${K}/x.wrl", "a.b-c_d/e~f"];
pub const SIDES: &[(&str, fp::LayerSide)] = &[
    ("F.", fp::LayerSide::Front),
    ("B.", fp::LayerSide::Back),
    ("Dwgs.", fp::LayerSide::Dwgs),
    ("Cmts.", fp::LayerSide::Cmts),
    ("Eco1.", fp::LayerSide::Eco1),
    ("Eco2.", fp::LayerSide::Eco2),
    ("Edge.", fp::LayerSide::Edge),
    ("In1.", fp::LayerSide::In1),
    ("In2.", fp::LayerSide::In2),
    ("*.", fp::LayerSide::Both),
    ("", fp::LayerSide::None),
];
pub fn layer_types() -> Vec<(&'static str, fp::LayerType)> {
    use fp::LayerType::*;
    vec![
        ("SilkS", SilkS),
        ("Cu", Cu),
        ("Paste", Paste),
        ("Mask", Mask),
        ("User", User),
        ("Adhes", Adhes),
        ("Cuts", Cuts),
        ("CrtYd", CrtYd),
        ("Fab", Fab),
        ("Margin", Margin),
        ("Inner1", Other("Inner1".into())),
        ("my layer", Other("my layer".into())),
    ]
}
pub const NLAYER: usize = 11 * 12;
pub fn layer(k: usize) -> (X, fp::Layer) {
    let (s, side) = &SIDES[k % 11];
    let (t, ty) = layer_types()[k / 11].clone();
    (
        a(format!("{}{}", s, t)),
        fp::Layer {
            side: side.clone(),
            t: ty,
        },
    )
}
pub fn layer_l(k: usize) -> (X, fp::Layer) {
    let (x, l) = layer(k);
    (l1("layer", x), l)
}
pub fn default_layer() -> (X, fp::Layer) {
    (
        l1("layer", a("F.Cu")),
        fp::Layer {
            side: fp::LayerSide::Front,
            t: fp::LayerType::Cu,
        },
    )
}
pub fn xy(name: &str, x: f64, y: f64) -> (X, fp::Xy) {
    let t = match name {
        "xy" => fp::XyType::Xy,
        "start" => fp::XyType::Start,
        "end" => fp::XyType::End,
        "size" => fp::XyType::Size,
        "center" => fp::XyType::Center,
        "rect_delta" => fp::XyType::RectDelta,
        _ => panic!("{}", name),
    };
    (l(name, vec![n(x), n(y)]), fp::Xy { x, y, t })
}
/// (input, value, output)
pub fn at(x: f64, y: f64, rot: Option<f64>) -> (X, fp::At, X) {
    let mut v = vec![n(x), n(y)];
    let mut o = v.clone();
    if let Some(r) = rot {
        v.push(n(r));
        if r != 0.0 {
            o.push(n(r))
        }
    }
    let r = rot.unwrap_or(0.0);
    (l("at", v), fp::At { x, y, rot: r }, l("at", o))
}
pub const NROT: usize = 8;
pub fn rot(k: usize) -> Option<f64> {
    [None, Some(90.0), Some(0.0), Some(-90.0), Some(180.0), Some(45.5), Some(359.9), Some(720.0)][k]
}
pub fn pts(p: &[(f64, f64)]) -> (X, fp::Pts) {
    let mut v = vec![];
    let mut e = vec![];
    for &(x, y) in p {
        let (t, q) = xy("xy", x, y);
        v.push(t);
        e.push(q);
    }
    (l("pts", v), fp::Pts { elements: e })
}
pub fn some_pts(seed: usize, count: usize) -> Vec<(f64, f64)> {
    (0..count)
        .map(|k| ((seed * 100 + k) as f64 + 0.5, -((seed * 100 + k) as f64) - 0.25))
        .collect()
}
pub fn xyz(x: f64, y: f64, z: f64) -> (X, fp::Xyz) {
    (l("xyz", vec![n(x), n(y), n(z)]), fp::Xyz { x, y, z })
}
pub fn justify(k: usize) -> Option<(&'static str, fp::Justify)> {
    match k {
        0 => None,
        1 => Some(("mirror", fp::Justify::Mirror)),
        2 => Some(("left", fp::Justify::Left)),
        3 => Some(("right", fp::Justify::Right)),
        _ => panic!(),
    }
}
/// effects attributes: size present/kind, size x, size y, thickness present, thickness, italic, justify
pub const EFF: &[usize] = &[2, NP, NP, 2, NN, 2, 4];
pub fn effects(d: &[usize], slot: usize) -> (X, fp::Effects, X) {
    let mut fin = vec![];
    let mut fout = vec![];
    let (sx, sy) = (nvp(slot, d[1]), nvp(slot + 1, d[2]));
    let mut font = fp::Font {
        size: fp::Xy {
            x: 0.0,
            y: 0.0,
            t: fp::XyType::Xy,
        },
        thickness: 0.0,
        italic: false,
    };
    if d[0] == 0 {
        fin.push(l("size", vec![n(sx), n(sy)]));
        font.size.x = sx;
        font.size.y = sy;
        if sx > 0.0 || sy > 0.0 {
            fout.push(l("size", vec![n(sx), n(sy)]));
        }
    }
    if d[3] == 0 {
        font.thickness = nv(slot + 2, d[4]);
        fin.push(l1("thickness", n(font.thickness)));
    }
    fout.push(l1("thickness", n(font.thickness)));
    if d[5] == 1 {
        font.italic = true;
        fin.push(a("italic"));
        fout.push(a("italic"));
    }
    let mut ein = vec![l("font", fin)];
    let mut eout = vec![l("font", fout)];
    let mut j = None;
    if let Some((s, v)) = justify(d[6]) {
        ein.push(l1("justify", a(s)));
        eout.push(l1("justify", a(s)));
        j = Some(v);
    }
    (l("effects", ein), fp::Effects { font, justify: j }, l("effects", eout))
}

pub const KINDS: &[&str] = &[
    "fp_text", "pad", "fp_line", "fp_circle", "fp_arc", "fp_poly", "model", "at", "layer", "descr", "tags", "attr", "path", "tedit",
    "tstamp", "clearance", "solder_mask_margin", "locked",
];
pub const TEXTKINDS: &[&str] = &["reference", "value", "user", "other"];
pub const STAMPS: &[i64] = &[0x5A5B_DEAD, 0, 1, 0xF, 0x10, 0xFFFF_FFFF, 0x1_0000_0000, 0x7FFF_FFFF_FFFF_FFFF];
pub const PADT: &[(&str, fp::PadType)] = &[
    ("smd", fp::PadType::Smd),
    ("thru_hole", fp::PadType::Pth),
    ("np_thru_hole", fp::PadType::NpPth),
];
pub const PADS: &[(&str, fp::PadShape)] = &[
    ("rect", fp::PadShape::Rect),
    ("circle", fp::PadShape::Circle),
    ("oval", fp::PadShape::Oval),
    ("trapezoid", fp::PadShape::Trapezoid),
];

pub fn dims(kind: &str) -> Vec<usize> {
    let s = STRS.len();
    match kind {
        // kind, text, at present, x, y, rot, layer present, layer, hide, effects present + 7
        "fp_text" => {
            let mut v = vec![TEXTKINDS.len(), s, 2, NN, NN, NROT, 2, NLAYER, 2, 2];
            v.extend(EFF);
            v
        }
        // name, type, shape, at present, x, y, rot, size present, sx, sy, rect_delta, drill kind, drill nums(2), offset, layers, net, net name, zone, paste, mask, clearance, thermal
        "pad" => vec![s, 3, 4, 2, NN, NN, NROT, 2, NP, NP, 2, 7, 3, 3, 3, NLAYERS, 4, s, 4, 4, 4, 4, 4],
        "fp_line" => vec![NN, NN, NN, NN, 2, NLAYER, 2, NN],
        "fp_circle" => vec![NN, NN, NN, NN, 2, NLAYER, 2, NN],
        "fp_arc" => vec![NN, NN, NN, NN, 2, NN, 2, NLAYER, 2, NN],
        "fp_poly" => vec![12, NN, 2, NLAYER, 2, NN],
        "model" => vec![s, NN, NN, NN, NN, NN, NN, NN, NN, NN],
        "at" => vec![NN, NN, NROT],
        "layer" => vec![NLAYER],
        "descr" | "tags" | "attr" | "path" => vec![s],
        "tedit" | "tstamp" => vec![STAMPS.len(), 3],
        "clearance" | "solder_mask_margin" => vec![NN],
        "locked" => vec![],
        _ => panic!("{}", kind),
    }
}

pub const NLAYERS: usize = 6;
pub fn layers(k: usize) -> (X, fp::Layers) {
    let ks: &[&[usize]] = &[&[11, 22, 33], &[], &[20, 31], &[12], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 121], &[131, 110]];
    let mut v = vec![];
    let mut w = vec![];
    for &q in ks[k] {
        let (x, l) = layer(q);
        v.push(x);
        w.push(l);
    }
    (l("layers", v), fp::Layers { layers: w })
}

/// layer and width tail of a drawing
fn tail(present: usize, k: usize, wp: usize, w: f64) -> (Vec<X>, fp::Layer, f64, Vec<X>) {
    let (lx, lv) = layer_l(k);
    let mut i = vec![];
    let mut o = vec![];
    let lay;
    if present == 0 {
        i.push(lx.clone());
        o.push(lx);
        lay = lv;
    } else {
        let (dx, dv) = default_layer();
        o.push(dx);
        lay = dv;
    }
    let wid = if wp == 0 { w } else { 0.0 };
    if wp == 0 {
        i.push(l1("width", n(w)));
    }
    o.push(l1("width", n(wid)));
    (i, lay, wid, o)
}

fn both(e: fp::Element, x: X) -> Case<fp::Element> {
    Case {
        input: x.clone(),
        value: e,
        output: x,
    }
}

pub fn build(kind: &str, d: &[usize]) -> Case<fp::Element> {
    match kind {
        "fp_text" => {
            let name = TEXTKINDS[d[0]];
            let value = STRS[d[1]];
            let mut i = vec![a(name), a(value)];
            let mut o = i.clone();
            let mut t = fp::FpText {
                name: name.into(),
                value: value.into(),
                at: fp::At { x: 0.0, y: 0.0, rot: 0.0 },
                layer: default_layer().1,
                effects: fp::Effects {
                    font: fp::Font {
                        size: fp::Xy { x: 0.0, y: 0.0, t: fp::XyType::Xy },
                        thickness: 0.0,
                        italic: false,
                    },
                    justify: None,
                },
                hide: false,
            };
            if d[2] == 0 {
                let (ix, v, ox) = at(nv(0, d[3]), nv(1, d[4]), rot(d[5]));
                i.push(ix);
                t.at = v;
                o.push(ox);
            } else {
                o.push(l("at", vec![a("0"), a("0")]));
            }
            if d[6] == 0 {
                let (x, v) = layer_l(d[7]);
                i.push(x.clone());
                o.push(x);
                t.layer = v;
            } else {
                o.push(default_layer().0);
            }
            if d[8] == 1 {
                i.push(a("hide"));
                o.push(a("hide"));
                t.hide = true;
            }
            if d[9] == 0 {
                let (ix, v, ox) = effects(&d[10..], 2);
                i.push(ix);
                t.effects = v;
                o.push(ox);
            } else {
                o.push(l1("effects", l1("font", l1("thickness", a("0")))));
            }
            Case {
                input: l("fp_text", i),
                value: fp::Element::FpText(t),
                output: l("fp_text", o),
            }
        }
        "pad" => {
            let name = STRS[d[0]];
            let (tx, t) = PADT[d[1]].clone();
            let (shx, shape) = PADS[d[2]].clone();
            let mut i = vec![a(name), a(tx), a(shx)];
            let mut o = i.clone();
            let mut p = fp::Pad {
                name: name.into(),
                t,
                shape,
                size: fp::Xy { x: 0.0, y: 0.0, t: fp::XyType::Size },
                rect_delta: None,
                at: fp::At { x: 0.0, y: 0.0, rot: 0.0 },
                layers: fp::Layers { layers: vec![] },
                net: None,
                zone_connect: None,
                drill: None,
                solder_paste_margin: None,
                solder_mask_margin: None,
                clearance: None,
                thermal_gap: None,
            };
            if d[3] == 0 {
                let (ix, v, ox) = at(nv(0, d[4]), nv(1, d[5]), rot(d[6]));
                i.push(ix);
                p.at = v;
                o.push(ox);
            } else {
                o.push(l("at", vec![a("0"), a("0")]));
            }
            if d[7] == 0 {
                let (x, v) = xy("size", nvp(2, d[8]), nvp(3, d[9]));
                i.push(x.clone());
                o.push(x);
                p.size = v;
            } else {
                o.push(l("size", vec![a("0"), a("0")]));
            }
            let mut rd = None;
            if d[10] == 1 {
                let (x, v) = xy("rect_delta", 0.75, -0.5);
                i.push(x.clone());
                rd = Some(x);
                p.rect_delta = Some(v);
            }
            // drill: none, width, oval w h, w h, oval w, offset only, nothing inside
            if d[11] > 0 {
                let w = [0.3, 0.000001, 3.0][d[12]];
                let h = [0.6, 0.4, 12.0][d[13]];
                let (ox, oy) = [(0.0, 0.0), (0.7, -0.8), (0.0, 2.0)][d[14]];
                let mut v = vec![];
                let mut dr = fp::Drill {
                    shape: None,
                    width: 0.0,
                    height: 0.0,
                    offset_x: 0.0,
                    offset_y: 0.0,
                };
                match d[11] {
                    1 => {
                        v.push(n(w));
                        dr.width = w;
                        dr.height = w;
                    }
                    2 | 3 => {
                        if d[11] == 2 {
                            v.push(a("oval"));
                            dr.shape = Some("oval".into());
                        }
                        v.push(n(w));
                        v.push(n(h));
                        dr.width = w;
                        dr.height = h;
                    }
                    4 => {
                        v.push(a("oval"));
                        v.push(n(w));
                        dr.shape = Some("oval".into());
                        dr.width = w;
                        dr.height = w;
                    }
                    _ => {}
                }
                if d[11] == 5 || d[14] > 0 {
                    let (ox, oy) = if d[14] == 0 { (0.9, 0.1) } else { (ox, oy) };
                    v.push(l("offset", vec![n(ox), n(oy)]));
                    dr.offset_x = ox;
                    dr.offset_y = oy;
                }
                let x = l("drill", v);
                i.push(x.clone());
                o.push(x);
                p.drill = Some(dr);
            }
            if let Some(x) = rd {
                // order against the drill is not part of the content
                let at = o.len() - if d[11] > 0 { 1 } else { 0 };
                o.insert(at, x);
            }
            let (x, v) = layers(d[15]);
            i.push(x.clone());
            o.push(x);
            p.layers = v;
            // net
            if d[16] > 0 {
                let num = [7, 0, 4294967296][d[16] - 1];
                let x = l("net", vec![crate::sx::i(num), a(STRS[d[17]])]);
                i.push(x.clone());
                o.push(x);
                p.net = Some(fp::Net {
                    num,
                    name: STRS[d[17]].into(),
                });
            }
            let ms = |slot: usize, k: usize| if k > 0 { Some([slot as f64 + 0.125, 0.0, -0.5][k - 1]) } else { None };
            p.solder_paste_margin = ms(1, d[19]);
            p.solder_mask_margin = ms(2, d[20]);
            p.clearance = ms(3, d[21]);
            p.thermal_gap = ms(4, d[22]);
            p.zone_connect = if d[18] > 0 { Some([1, 0, 2][d[18] - 1]) } else { None };
            for (nm, m) in [
                ("solder_mask_margin", p.solder_mask_margin.map(n)),
                ("solder_paste_margin", p.solder_paste_margin.map(n)),
                ("clearance", p.clearance.map(n)),
                ("zone_connect", p.zone_connect.map(crate::sx::i)),
                ("thermal_gap", p.thermal_gap.map(n)),
            ] {
                if let Some(m) = m {
                    i.push(l1(nm, m.clone()));
                    o.push(l1(nm, m));
                }
            }
            Case {
                input: l("pad", i),
                value: fp::Element::Pad(p),
                output: l("pad", o),
            }
        }
        "fp_line" | "fp_circle" | "fp_arc" => {
            let first = if kind == "fp_circle" { "center" } else { "start" };
            let (sx, sv) = xy(first, nv(0, d[0]), nv(1, d[1]));
            let (ex, ev) = xy("end", nv(2, d[2]), nv(3, d[3]));
            let mut i = vec![sx, ex];
            let mut o = i.clone();
            let mut r = 4;
            let mut angle = 0.0;
            if kind == "fp_arc" {
                if d[4] == 0 {
                    angle = nv(5, d[5]);
                    i.push(l1("angle", n(angle)));
                }
                o.push(l1("angle", n(angle)));
                r = 6;
            }
            let (ti, layer, width, to) = tail(d[r], d[r + 1], d[r + 2], nv(4, d[r + 3]));
            i.extend(ti);
            o.extend(to);
            let value = match kind {
                "fp_line" => fp::Element::FpLine(fp::FpLine { start: sv, end: ev, layer, width }),
                "fp_circle" => fp::Element::FpCircle(fp::FpCircle { center: sv, end: ev, layer, width }),
                _ => fp::Element::FpArc(fp::FpArc { start: sv, end: ev, angle, layer, width }),
            };
            Case {
                input: l(kind, i),
                value,
                output: l(kind, o),
            }
        }
        "fp_poly" => {
            let count = [4, 0, 1, 2, 3, 5, 6, 7, 8, 9, 13, 17][d[0]];
            let mut p = some_pts(1, count);
            if !p.is_empty() {
                p[0].0 = nv(0, d[1]);
            }
            let (px, pv) = pts(&p);
            let (ti, layer, width, to) = tail(d[2], d[3], d[4], nv(4, d[5]));
            let mut i = vec![px.clone()];
            let mut o = vec![px];
            i.extend(ti);
            o.extend(to);
            Case {
                input: l(kind, i),
                value: fp::Element::FpPoly(fp::FpPoly { pts: pv, width, layer }),
                output: l(kind, o),
            }
        }
        "model" => {
            let (x1, v1) = xyz(nv(0, d[1]), nv(1, d[2]), nv(2, d[3]));
            let (x2, v2) = xyz(nv(3, d[4]), nv(4, d[5]), nv(5, d[6]));
            let (x3, v3) = xyz(nv(6, d[7]), nv(7, d[8]), nv(8, d[9]));
            both(
                fp::Element::Model(fp::Model {
                    name: STRS[d[0]].into(),
                    at: v1,
                    scale: v2,
                    rotate: v3,
                }),
                l("model", vec![a(STRS[d[0]]), l1("at", x1), l1("scale", x2), l1("rotate", x3)]),
            )
        }
        "at" => {
            let (i, v, o) = at(nv(0, d[0]), nv(1, d[1]), rot(d[2]));
            Case {
                input: i,
                value: fp::Element::At(v),
                output: o,
            }
        }
        "layer" => {
            let (x, v) = layer_l(d[0]);
            both(fp::Element::Layer(v), x)
        }
        "descr" => both(fp::Element::Descr(STRS[d[0]].into()), l1(kind, a(STRS[d[0]]))),
        "tags" => both(fp::Element::Tags(STRS[d[0]].into()), l1(kind, a(STRS[d[0]]))),
        "attr" => both(fp::Element::Attr(STRS[d[0]].into()), l1(kind, a(STRS[d[0]]))),
        "path" => both(fp::Element::Path(STRS[d[0]].into()), l1(kind, a(STRS[d[0]]))),
        "tedit" | "tstamp" => {
            let s = STAMPS[d[0]];
            let spell = match d[1] {
                0 => format!("{:X}", s),
                1 => format!("{:x}", s),
                _ => format!("{:08X}", s),
            };
            let v = if kind == "tedit" { fp::Element::TEdit(s) } else { fp::Element::TStamp(s) };
            Case {
                input: l1(kind, a(spell)),
                value: v,
                output: l1(kind, a(format!("{:X}", s))),
            }
        }
        "clearance" => both(fp::Element::Clearance(nv(0, d[0])), l1(kind, n(nv(0, d[0])))),
        "solder_mask_margin" => both(fp::Element::SolderMaskMargin(nv(0, d[0])), l1(kind, n(nv(0, d[0])))),
        "locked" => both(fp::Element::Locked, a("locked")),
        _ => panic!("{}", kind),
    }
}

/// a few representative variants of every kind, for sequences
pub fn representatives() -> Vec<(String, Case<fp::Element>)> {
    let mut v = vec![];
    for k in KINDS {
        let d0 = vec![0; dims(k).len()];
        v.push((k.to_string(), build(k, &d0)));
    }
    let mut d = vec![0; dims("pad").len()];
    d[1] = 1;
    d[11] = 2;
    d[16] = 1;
    d[20] = 1;
    v.push(("pad_net".into(), build("pad", &d)));
    let mut d = vec![0; dims("fp_text").len()];
    d[0] = 2;
    d[8] = 1;
    d[16] = 1;
    v.push(("fp_text_user".into(), build("fp_text", &d)));
    let mut d = vec![0; dims("fp_poly").len()];
    d[0] = 8;
    v.push(("fp_poly_8".into(), build("fp_poly", &d)));
    v
}

pub fn module_case(name: &str, els: &[Case<fp::Element>]) -> Case<fp::Module> {
    let mut i = vec![a(name)];
    let mut o = vec![a(name)];
    let mut m = vec![];
    for c in els {
        i.push(c.input.clone());
        o.push(c.output.clone());
        m.push(c.value.clone());
    }
    Case {
        input: l("module", i),
        value: fp::Module {
            name: name.into(),
            elements: m,
        },
        output: l("module", o),
    }
}

pub fn variants(kind: &str, k: usize) -> Vec<Vec<usize>> {
    deviations(&dims(kind), k)
}
