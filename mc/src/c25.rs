use crate::core::*;
use crate::shape;
use kicad_parse_gen::footprint as fp;
use kicad_parse_gen::footprint::Element;
use kicad_parse_gen::Adjust;

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

/// what the model knows of an element
#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Text(&'static str, &'static str),
    Stamp(i64),
    Edit(i64),
    Attr(&'static str),
    Layer(bool),
    At(f64, f64, f64),
    Pad,
    Line,
    Rest,
}

const TEXTS: &[(&str, &str)] = &[("reference", "R1"), ("reference", "R2"), ("value", "V"), ("value", "reference"), ("user", "%R"), ("user", "x y"), ("other", "R1"), ("Reference", "U1")];

fn text(name: &str, value: &str, n: f64) -> fp::FpText {
    let mut t = fp::FpText::new(name.into(), value.into());
    t.at = fp::At::new(n, n + 0.5, 90.0);
    t
}

fn pad(name: &str) -> Element {
    let mut p = fp::Pad::new(name.into(), fp::PadType::Smd, fp::PadShape::Oval);
    p.net = Some(fp::Net { num: 3, name: "GND".into() });
    Element::Pad(p)
}

fn line(n: f64, layer: &str) -> Element {
    Element::FpLine(fp::FpLine {
        start: fp::Xy::new(n, 0.0, fp::XyType::Start),
        end: fp::Xy::new(0.0, n, fp::XyType::End),
        layer: fp::Layer::from_string(layer).unwrap(),
        width: 0.1,
    })
}

fn menu() -> Vec<(Kind, Element)> {
    let mut v: Vec<(Kind, Element)> = TEXTS.iter().enumerate().map(|(i, t)| (Kind::Text(t.0, t.1), Element::FpText(text(t.0, t.1, i as f64)))).collect();
    for s in [5, 0, -7] {
        v.push((Kind::Stamp(s), Element::TStamp(s)));
    }
    for s in [6, 0] {
        v.push((Kind::Edit(s), Element::TEdit(s)));
    }
    for s in ["smd", "virtual", "SMD"] {
        v.push((Kind::Attr(s), Element::Attr(s.into())));
    }
    for (s, f) in [("F.Cu", true), ("B.Cu", false), ("*.Cu", false), ("F.SilkS", true), ("Margin", false)] {
        v.push((Kind::Layer(f), Element::Layer(fp::Layer::from_string(s).unwrap())));
    }
    for (x, y, r) in [(1.0, -2.0, 90.0), (0.0, 3.5, 0.0), (0.0, 0.0, -45.0)] {
        v.push((Kind::At(x, y, r), Element::At(fp::At::new(x, y, r))));
    }
    v.push((Kind::Pad, pad("1")));
    v.push((Kind::Pad, pad("")));
    v.push((Kind::Line, line(1.0, "F.Fab")));
    v.push((Kind::Line, line(2.0, "B.SilkS")));
    v.push((Kind::Rest, Element::Descr("reference".into())));
    v.push((Kind::Rest, Element::Tags("smd".into())));
    v.push((Kind::Rest, Element::Locked));
    v.push((Kind::Rest, Element::FpCircle(fp::FpCircle::default())));
    v.push((Kind::Rest, Element::FpArc(fp::FpArc::default())));
    v
}

type M = Vec<(Kind, Element)>;

fn show<T: std::fmt::Debug>(t: &T) -> String {
    format!("{:?}", t)
}

fn eq(what: &str, got: String, want: String) -> Result<(), (String, String)> {
    if got == want {
        Ok(())
    } else {
        Err(bad(what, format!("{} instead of {}", got, want)))
    }
}

fn first_text<'a>(m: &'a M, name: &str) -> Option<&'a Element> {
    m.iter().find(|x| matches!(x.0, Kind::Text(n, _) if n == name)).map(|x| &x.1)
}

fn queries(real: &fp::Module, name: &str, m: &M) -> Result<String, (String, String)> {
    eq("name", real.name.clone(), name.into())?;
    eq("elements", show(&real.elements), show(&m.iter().map(|x| x.1.clone()).collect::<Vec<_>>()))?;
    let before = show(real);
    let as_text = |e: Option<&Element>| show(&e.map(|e| match e {
        Element::FpText(t) => t.clone(),
        _ => unreachable!(),
    }));
    for n in ["reference", "value", "user", "other", "Reference", "none", ""] {
        eq("get_text", show(&real.get_text(n)), as_text(first_text(m, n)))?;
    }
    eq("reference-text", show(&real.get_reference_text()), as_text(first_text(m, "reference")))?;
    eq("reference2-text", show(&real.get_reference2_text()), as_text(first_text(m, "user")))?;
    eq("value-text", show(&real.get_value_text()), as_text(first_text(m, "value")))?;
    let first_ref = m.iter().find_map(|x| match x.0 {
        Kind::Text("reference", v) => Some(v.to_string()),
        _ => None,
    });
    // an edited text is a new one in the model, so take it from the element
    let first_ref = match first_text(m, "reference") {
        Some(Element::FpText(t)) => Some(t.value.clone()),
        _ => first_ref,
    };
    eq("reference", show(&real.get_reference()), show(&first_ref))?;
    let mut asked: Vec<String> = ["R1", "R2", "V", "x y", "", "new"].iter().map(|r| r.to_string()).collect();
    for x in m.iter().take(8) {
        if let Element::FpText(ref t) = x.1 {
            asked.extend(vec![t.value.clone(), t.value.trim().into(), t.value.to_uppercase(), t.value.to_lowercase(), format!("{} ", t.value)])
        }
    }
    for r in &asked {
        let want = m.iter().any(|x| matches!(&x.1, Element::FpText(t) if t.name == "reference" && t.value == *r));
        eq("is-reference", show(&real.is_reference_with_name(r)), show(&want))?;
    }
    eq("smd", show(&real.has_smd_attr()), show(&m.iter().any(|x| x.0 == Kind::Attr("smd"))))?;
    eq("tstamp", show(&real.get_tstamp()), show(&m.iter().find_map(|x| match x.0 {
        Kind::Stamp(s) => Some(s),
        _ => None,
    })))?;
    eq("tedit", show(&real.get_tedit()), show(&m.iter().find_map(|x| match x.0 {
        Kind::Edit(s) => Some(s),
        _ => None,
    })))?;
    let at = m.iter().find_map(|x| match x.0 {
        Kind::At(x, y, r) => Some((x, y, r)),
        _ => None,
    }).unwrap_or((0.0, 0.0, 0.0));
    eq("at", show(&real.at()), show(&(at.0, at.1)))?;
    eq("rotation", show(&real.get_rotation()), show(&at.2))?;
    eq("front", show(&real.is_front()), show(&m.iter().find_map(|x| match x.0 {
        Kind::Layer(f) => Some(f),
        _ => None,
    }).unwrap_or(true)))?;
    let pads: Vec<fp::Pad> = m.iter().filter_map(|x| match &x.1 {
        Element::Pad(p) => Some(p.clone()),
        _ => None,
    }).collect();
    eq("pads", show(&real.pads()), show(&pads))?;
    let lines: Vec<fp::FpLine> = m.iter().filter_map(|x| match &x.1 {
        Element::FpLine(p) => Some(p.clone()),
        _ => None,
    }).collect();
    eq("lines", show(&real.lines()), show(&lines))?;
    eq("changed", show(real), before)?;
    Ok("asked".into())
}

#[derive(Clone, Debug)]
enum Op {
    /// the way to the text, what is set
    Edit(usize, usize),
    Append(usize),
    AdjustAt(f64, f64),
    Adjust(f64, f64),
    SetReference(&'static str, &'static str),
}

const WAYS: &[&str] = &["reference", "user", "value", "reference", "other", "none"];

fn apply(real: &mut fp::Module, m: &mut M, op: &Op, all: &M) -> Result<(), (String, String)> {
    match op {
        Op::Edit(way, what) => {
            let effects = fp::Effects::from_font(
                fp::Font {
                    size: fp::Xy::new(2.5, 3.5, fp::XyType::Size),
                    thickness: 0.3,
                    italic: true,
                },
                Some(fp::Justify::Left),
            );
            let layer = fp::Layer::from_string("B.Mask").unwrap();
            let set = |t: &mut fp::FpText| match what {
                0 => t.value = "new".into(),
                1 => t.set_effects(&effects),
                2 => t.set_layer(&layer),
                _ => t.hide = !t.hide,
            };
            let found = {
                let t = match way {
                    0 => real.get_reference_text_mut(),
                    1 => real.get_reference2_text_mut(),
                    2 => real.get_value_text_mut(),
                    w => real.get_text_mut(WAYS[*w]),
                };
                match t {
                    Some(t) => {
                        set(t);
                        true
                    }
                    None => false,
                }
            };
            let want = m.iter_mut().find(|x| matches!(x.0, Kind::Text(n, _) if n == WAYS[*way]));
            eq("text-mut", show(&found), show(&want.is_some()))?;
            if let Some((_, Element::FpText(t))) = want {
                match what {
                    0 => t.value = "new".into(),
                    1 => t.effects = effects.clone(),
                    2 => {
                        t.layer.side = fp::LayerSide::Back;
                        t.layer.t = fp::LayerType::Mask;
                    }
                    _ => t.hide = !t.hide,
                }
            }
        }
        Op::Append(k) => {
            real.append(all[*k].1.clone());
            m.push(all[*k].clone());
        }
        Op::AdjustAt(x, y) | Op::Adjust(x, y) => {
            if matches!(op, Op::Adjust(..)) {
                real.adjust(*x, *y)
            } else {
                real.adjust_at(*x, *y)
            }
            for e in m {
                if let (Kind::At(ax, ay, _), Element::At(at)) = (&mut e.0, &mut e.1) {
                    *ax += x;
                    *ay += y;
                    at.x = *ax;
                    at.y = *ay;
                }
            }
        }
        Op::SetReference(from, to) => {
            real.set_reference(from, to);
            for e in m {
                if let Element::FpText(t) = &mut e.1 {
                    if t.name == "reference" && t.value == *from {
                        t.value = to.to_string();
                    }
                }
            }
        }
    }
    Ok(())
}

fn history(els: &[usize], ops: &[&Op], all: &M) -> Result<String, (String, String)> {
    let mut m: M = els.iter().map(|&k| all[k].clone()).collect();
    let mut real = fp::Module::new("a name".into());
    for e in &m {
        real.append(e.1.clone());
    }
    queries(&real, "a name", &m)?;
    let mut changed = 0;
    for op in ops {
        let before = show(&m);
        apply(&mut real, &mut m, op, all)?;
        queries(&real, "a name", &m).map_err(|e| bad(&e.0, format!("after {:?}: {}", op, e.1)))?;
        changed += (before != show(&m)) as usize;
    }
    Ok(format!("{} of {} changed", changed, ops.len()))
}

/// parts made and edited through the API
fn parts(ctx: &mut Ctx) {
    let names = ["", "1", "A 2"];
    let mut words: Vec<String> = vec!["connect".into(), "custom".into()];
    for w in ["smd", "thru_hole", "np_thru_hole", "rect", "circle", "oval", "trapezoid"] {
        words.push(w.into());
        words.extend(shape::near(w))
    }
    words.extend(shape::texts(""));
    for w in &words {
        let w = &w[..];
        ctx.step();
        if ctx.state(&("word", w)) {
            ctx.case(&format!("word:{}", w), || {
                use fp::PadShape::*;
                use fp::PadType::*;
                let t = match w {
                    "smd" => Some(Smd),
                    "thru_hole" => Some(Pth),
                    "np_thru_hole" => Some(NpPth),
                    _ => None,
                };
                let s = match w {
                    "rect" => Some(Rect),
                    "circle" => Some(Circle),
                    "oval" => Some(Oval),
                    "trapezoid" => Some(Trapezoid),
                    _ => None,
                };
                eq("type", show(&fp::PadType::from_string(w).ok()), show(&t))?;
                eq("shape", show(&fp::PadShape::from_string(w).ok()), show(&s))?;
                Ok(if t.is_some() || s.is_some() { "word" } else { "refused" }.into())
            });
        }
    }
    // layer names
    use fp::{LayerSide as S, LayerType as T};
    let sides = vec![("F", S::Front), ("B", S::Back), ("Dwgs", S::Dwgs), ("Cmts", S::Cmts), ("Eco1", S::Eco1), ("Eco2", S::Eco2), ("Edge", S::Edge), ("In1", S::In1), ("In2", S::In2), ("*", S::Both)];
    let types = vec![("Cu", T::Cu), ("Paste", T::Paste), ("Mask", T::Mask), ("SilkS", T::SilkS), ("User", T::User), ("Adhes", T::Adhes), ("Cuts", T::Cuts), ("CrtYd", T::CrtYd), ("Fab", T::Fab), ("Margin", T::Margin), ("cu", T::Other("cu".into())), ("x y", T::Other("x y".into()))];
    for (tn, t) in &types {
        for (sn, s) in sides.iter().chain(std::iter::once(&("", S::None))).chain([("f", S::None), ("Q", S::None), (" F", S::None)].iter()) {
            let name = if *sn == "" { tn.to_string() } else { format!("{}.{}", sn, tn) };
            let unknown = ["f", "Q", " F"].contains(sn);
            ctx.step();
            if ctx.state(&("layer", &name)) {
                ctx.case(&format!("layer:{}", name), || {
                    let got = fp::Layer::from_string(&name);
                    match (unknown, got) {
                        (true, Err(_)) => Ok("refused".into()),
                        (false, Ok(l)) => {
                            eq("layer", show(&l), show(&fp::Layer { side: s.clone(), t: t.clone() }))?;
                            Ok("layer".into())
                        }
                        (_, g) => Err(bad("layer", format!("{}: {:?}", name, g))),
                    }
                });
            }
        }
    }
    // names of one, two and three parts, of every form and nearly a layer's
    let mut layers = shape::texts("");
    for (tn, _) in &types {
        for (sn, _) in &sides {
            layers.extend(shape::near(&format!("{}.{}", sn, tn)));
            for x in ["", "x", "Cu", "F", "B"] {
                for n in [format!("{}.{}.{}", sn, x, tn), format!("{}.{}.{}", x, sn, tn), format!("{}.{}.{}", sn, tn, x)] {
                    layers.push(n)
                }
            }
        }
        layers.extend(shape::near(tn));
    }
    for name in &layers {
        ctx.step();
        if ctx.state(&("layer", name)) {
            ctx.case(&format!("layer:{}", name), || {
                let (side, rest) = match name.find('.') {
                    Some(p) if name.matches('.').count() == 1 => (sides.iter().find(|s| s.0 == &name[..p]).map(|s| s.1.clone()), &name[p + 1..]),
                    _ => (Some(S::None), &name[..]),
                };
                let t = types.iter().find(|t| t.0 == rest).map_or_else(|| T::Other(rest.into()), |t| t.1.clone());
                let want = side.map(|s| fp::Layer { side: s, t: t });
                eq("layer", show(&fp::Layer::from_string(name).ok()), show(&want))?;
                Ok(if want.is_some() { "layer" } else { "refused" }.into())
            });
        }
    }
    // pads and their setters, in every order
    let ops = sequences(6, if ctx.thorough() { 5 } else { 4 });
    for n in names {
        for h in &ops {
            ctx.transitions += h.len() as u64;
            if !ctx.state(&("pad", n, h)) {
                continue;
            }
            ctx.case(&format!("pad:{}:{:?}", n, h), || {
                let mut p = fp::Pad::new(n.into(), fp::PadType::NpPth, fp::PadShape::Circle);
                let mut net: Option<(i64, &str)> = None;
                let mut drill: Option<f64> = None;
                let mut layers: Vec<&str> = vec![];
                for (i, o) in h.iter().enumerate() {
                    match o {
                        0 => {
                            p.set_net(fp::Net { num: i as i64, name: "A".into() });
                            net = Some((i as i64, "A"));
                        }
                        1 => {
                            p.set_net(fp::Net { num: -1, name: "".into() });
                            net = Some((-1, ""));
                        }
                        2 => {
                            p.set_drill(fp::Drill {
                                shape: Some("oval".into()),
                                width: i as f64,
                                height: 2.0,
                                offset_x: 3.0,
                                offset_y: 4.0,
                            });
                            drill = Some(i as f64);
                        }
                        3 => {
                            p.layers.append(fp::Layer::from_string("F.Cu").unwrap());
                            layers.push("F.Cu");
                        }
                        4 => {
                            p.layers.append(fp::Layer::from_string("*.Mask").unwrap());
                            layers.push("*.Mask");
                        }
                        _ => {
                            p.rename_net("A", "B");
                            if let Some((_, ref mut x)) = net {
                                if *x == "A" {
                                    *x = "B"
                                }
                            }
                        }
                    }
                }
                let want = fp::Pad {
                    name: n.into(),
                    t: fp::PadType::NpPth,
                    shape: fp::PadShape::Circle,
                    size: fp::Xy { x: 0.0, y: 0.0, t: fp::XyType::Size },
                    rect_delta: None,
                    at: fp::At { x: 0.0, y: 0.0, rot: 0.0 },
                    layers: fp::Layers { layers: layers.iter().map(|l| fp::Layer::from_string(l).unwrap()).collect() },
                    net: net.map(|(num, s)| fp::Net { num, name: s.into() }),
                    zone_connect: None,
                    drill: drill.map(|w| fp::Drill {
                        shape: Some("oval".into()),
                        width: w,
                        height: 2.0,
                        offset_x: 3.0,
                        offset_y: 4.0,
                    }),
                    solder_paste_margin: None,
                    solder_mask_margin: None,
                    clearance: None,
                    thermal_gap: None,
                };
                eq("pad", show(&p), show(&want))?;
                Ok("pad".into())
            });
        }
    }
    // texts, points and positions
    let nums = [0.0, -0.0, 1.5, -2.25, 1e9];
    for x in nums {
        for y in nums {
            for r in nums {
                ctx.step();
                if !ctx.state(&("point", show(&(x, y, r)))) {
                    continue;
                }
                ctx.case(&format!("point:{}:{}:{}", x, y, r), || {
                    eq("at", show(&fp::At::new(x, y, r)), show(&fp::At { x, y, rot: r }))?;
                    eq("xyz", show(&fp::Xyz::new(x, y, r)), show(&fp::Xyz { x, y, z: r }))?;
                    use fp::XyType as T;
                    for t in [T::Xy, T::Start, T::End, T::Size, T::Center, T::RectDelta] {
                        eq("xy", show(&fp::Xy::new(x, y, t.clone())), show(&fp::Xy { x, y, t: t.clone() }))?;
                        eq("xy-empty", show(&fp::Xy::new_empty(t.clone())), show(&fp::Xy { x: 0.0, y: 0.0, t: t.clone() }))?;
                    }
                    Ok("point".into())
                });
            }
        }
    }
    for n in TEXTS {
        ctx.step();
        ctx.state(&("text", n));
        ctx.case(&format!("text:{:?}", n), || {
            let t = fp::FpText::new(n.0.into(), n.1.into());
            let want = fp::FpText {
                name: n.0.into(),
                value: n.1.into(),
                at: fp::At { x: 0.0, y: 0.0, rot: 0.0 },
                layer: fp::Layer { side: S::Front, t: T::Cu },
                effects: fp::Effects {
                    font: fp::Font {
                        size: fp::Xy { x: 0.0, y: 0.0, t: fp::XyType::Xy },
                        thickness: 0.0,
                        italic: false,
                    },
                    justify: None,
                },
                hide: false,
            };
            eq("text", show(&t), show(&want))?;
            Ok("text".into())
        });
    }
}

pub fn run(ctx: &mut Ctx) {
    let all = menu();
    let t = ctx.thorough();
    let mut ops = vec![];
    for way in 0..WAYS.len() {
        for what in 0..4 {
            ops.push(Op::Edit(way, what));
        }
    }
    for k in 0..all.len() {
        ops.push(Op::Append(k));
    }
    ops.push(Op::AdjustAt(1.5, -2.0));
    ops.push(Op::Adjust(-3.0, 0.25));
    ops.push(Op::SetReference("R1", "new"));
    ops.push(Op::SetReference("new", "R2"));
    ops.push(Op::SetReference("V", "new"));
    let modules = sequences(all.len(), if t { 4 } else { 3 });
    let (one, two) = (sequences(ops.len(), 1), sequences(ops.len(), 2));
    parallel(ctx, |c, shard, of| {
        for (i, els) in modules.iter().enumerate() {
            if i % of != shard {
                continue;
            }
            let hs = match els.len() {
                0 | 1 => &two,
                2 => &one,
                3 if t => &one,
                _ => &one[..1].to_vec(),
            };
            for h in hs {
                c.transitions += h.len() as u64;
                c.state(&(els, h));
                let o: Vec<&Op> = h.iter().map(|&k| &ops[k]).collect();
                c.sample("footprint", || format!("{:?} on {:?}", o, els.iter().map(|&k| &all[k].0).collect::<Vec<_>>()));
                c.case(&format!("{:?}:{:?}", els, h), || history(els, &o, &all));
            }
        }
    });
    parts(ctx);
    wide(ctx);
}

fn lasting(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

/// parts of every form and nearly those asked for, alone and next to the ones asked for
fn wide(ctx: &mut Ctx) {
    let mut more: M = vec![];
    for n in ["reference", "value", "user"] {
        for w in shape::near(n) {
            let w = lasting(&w);
            more.push((Kind::Text(w, "R1"), Element::FpText(text(w, "R1", 1.0))));
            let mut t = text(w, "R3", 1.0);
            t.hide = true;
            more.push((Kind::Text(w, "R3"), Element::FpText(t)));
        }
    }
    let mut values = shape::texts("");
    for w in ["R1", "R12", "REF**"] {
        values.extend(shape::near(w))
    }
    let values: Vec<&'static str> = values.iter().map(|w| lasting(w)).collect();
    for &w in &values {
        for n in ["reference", "value", "user", "other"] {
            more.push((Kind::Text(n, w), Element::FpText(text(n, w, 2.0))))
        }
        more.push((Kind::Attr(w), Element::Attr(w.into())));
        let mut p = pad(w);
        more.push((Kind::Pad, p.clone()));
        if let Element::Pad(ref mut p) = p {
            p.name = "1".into();
            p.net = Some(fp::Net { num: 1, name: w.into() })
        }
        more.push((Kind::Pad, p));
        more.push((Kind::Rest, Element::Descr(w.into())));
        more.push((Kind::Rest, Element::Tags(w.into())));
        more.push((Kind::Rest, Element::Path(w.into())));
    }
    for w in shape::near("smd") {
        let w = lasting(&w);
        more.push((Kind::Attr(w), Element::Attr(w.into())));
    }
    for i in shape::ints() {
        more.push((Kind::Stamp(i), Element::TStamp(i)));
        more.push((Kind::Edit(i), Element::TEdit(i)));
    }
    for r in shape::reals() {
        for (x, y, a) in [(r, 1.0, 2.0), (1.0, r, 2.0), (1.0, 2.0, r)] {
            more.push((Kind::At(x, y, a), Element::At(fp::At::new(x, y, a))))
        }
        more.push((Kind::Line, line(r, "F.Fab")));
    }
    for side in ["F", "B", "Dwgs", "Cmts", "Eco1", "Eco2", "Edge", "*", "In1", "In2", ""] {
        for t in ["Cu", "Paste", "Mask", "SilkS", "User", "Adhes", "Cuts", "CrtYd", "Fab", "Margin", "f", "F"] {
            let name = if side.is_empty() { t.to_string() } else { format!("{}.{}", side, t) };
            more.push((Kind::Layer(side == "F"), Element::Layer(fp::Layer::from_string(&name).unwrap())));
            more.push((Kind::Line, line(1.0, &name)));
        }
    }
    let base = menu();
    let n = more.len();
    let mut all = more;
    all.extend(base);
    let reference = n;
    let smd = (0..all.len()).find(|&k| k >= n && all[k].0 == Kind::Attr("smd")).unwrap();
    let at = (0..all.len()).find(|&k| k >= n && matches!(all[k].0, Kind::At(..))).unwrap();
    parallel(ctx, |c, shard, of| {
        for k in 0..n {
            if k % of != shard {
                continue;
            }
            let own = match all[k].1 {
                Element::FpText(ref t) => lasting(&t.value),
                _ => "R1",
            };
            let ops = [vec![], vec![Op::SetReference(own, "new"), Op::SetReference("new", own)], vec![Op::SetReference("R1", own)], vec![Op::Edit(0, 0), Op::Edit(1, 0), Op::Edit(2, 0)], vec![Op::AdjustAt(0.5, -7.25), Op::Adjust(1.0, 1.0)], vec![Op::Append(k), Op::Append(reference)]];
            for els in [vec![k], vec![reference, k], vec![k, reference], vec![k, k], vec![smd, k, at], vec![k, at, smd]] {
                for (q, h) in ops.iter().enumerate() {
                    c.transitions += h.len() as u64;
                    c.state(&("wide", &els, q));
                    c.sample("wide", || format!("{:?} on {:?}", h, els.iter().map(|&k| &all[k].0).collect::<Vec<_>>()));
                    c.case(&format!("wide:{:?}:{}", els, q), || history(&els, &h.iter().collect::<Vec<_>>(), &all));
                }
            }
        }
    });
    // any number of them
    let t = ctx.thorough();
    let kinds: Vec<usize> = (n..all.len()).collect();
    for m in shape::counts(if t { 60 } else { 12 }) {
        parallel(ctx, |c, shard, of| {
            for (i, &k) in kinds.iter().enumerate() {
                if i % of != shard {
                    continue;
                }
                let mut els = vec![k; m];
                els.push(reference);
                els.push(at);
                for (q, h) in [vec![], vec![Op::Edit(0, 0)], vec![Op::SetReference("R1", "new")], vec![Op::AdjustAt(0.5, 1.5)]].iter().enumerate() {
                    c.transitions += h.len() as u64;
                    c.state(&("many", m, k, q));
                    c.case(&format!("many:{}:{}:{}", m, k, q), || history(&els, &h.iter().collect::<Vec<_>>(), &all));
                }
            }
        });
    }
}
