//! Board layout elements: attribute domains, texts and values.

use crate::fpgen::*;
use crate::sx::*;
use kicad_parse_gen::footprint as fp;
use kicad_parse_gen::layout as la;
use kicad_parse_gen::Sexp;

pub const NI: usize = 4;
pub fn iv(slot: usize, d: usize) -> i64 {
    [slot as i64 + 2, 0, -3, 4294967297][d]
}
pub const TS: &[Option<&str>] = &[None, Some("55E99398"), Some("0"), Some("5A b")];

pub const KINDS: &[&str] = &[
    "net", "net_class", "gr_text", "gr_line", "gr_arc", "gr_circle", "dimension", "segment", "via", "zone", "module", "other",
];

pub fn dims(kind: &str) -> Vec<usize> {
    let s = STRS.len();
    match kind {
        "net" => vec![NI, s],
        // name, desc, then six values (absent, numbers), two optional, nets
        "net_class" => vec![s, s, NN + 1, NN + 1, NN + 1, NN + 1, NN + 1, NN + 1, NN + 1, NN + 1, 5],
        "gr_text" => {
            let mut v = vec![s, NN, NN, NROT, NLAYER, TS.len()];
            v.extend(EFF);
            v
        }
        "gr_line" => vec![NN, NN, NN, NN, NN + 1, NLAYER, NN + 1, TS.len()],
        "gr_arc" => vec![NN, NN, NN, NN, NN, NLAYER, NN + 1, TS.len()],
        "gr_circle" => vec![NN, NN, NN, NN, NLAYER, NN + 1, TS.len()],
        // name, width, layer, tstamp, text tstamp, length of the seven point lists
        "dimension" => vec![s, NN, NLAYER, TS.len(), TS.len(), 4, 4, 4, 4, 4, 4, 4, s],
        "segment" => vec![NN, NN, NN, NN, NN, NLAYER, NI, TS.len(), TS.len()],
        // blind, micro, x, y, rot, size, drill, layers, net
        "via" => vec![2, 2, NN, NN, NROT, NN, NN + 1, NLAYERS, NI + 1],
        // net, name, layer, tstamp, hatch style, pitch, priority, connection, clearance, thickness, keepout, filled, mode,
        // arc segments, gap, bridge, smoothing, radius, polygons, filled polygons, fill segments, other
        "zone" => vec![NI, s, NLAYER, 3, 3, NN, 4, 4, NN, NN, 9, 2, 2, NI, NN, NN, 3, 4, 5, 5, 4, 4],
        "module" => vec![9],
        "other" => vec![5],
        _ => panic!("{}", kind),
    }
}

pub fn sexp(x: &X) -> Sexp {
    match x {
        X::A(s) => Sexp::String(s.clone()),
        X::L(v) => Sexp::List(v.iter().map(sexp).collect()),
    }
}

fn both(e: la::Element, x: X) -> Case<la::Element> {
    Case {
        input: x.clone(),
        value: e,
        output: x,
    }
}

fn ts(v: &mut Vec<X>, k: usize) -> Option<String> {
    TS[k].map(|s| {
        v.push(l1("tstamp", a(s)));
        s.to_string()
    })
}

/// optional number: index 0 base value, NN absent
fn opt(slot: usize, d: usize) -> Option<f64> {
    if d == NN {
        None
    } else {
        Some(nv(slot, d))
    }
}

pub fn gr_text(d: &[usize], slot: usize) -> (X, la::GrText, X) {
    let (ai, av, ao) = at(nv(slot, d[1]), nv(slot + 1, d[2]), rot(d[3]));
    let (lx, lv) = layer_l(d[4]);
    let (ei, ev, eo) = effects(&d[6..], slot + 2);
    // KiCad writes the timestamp in front of the effects; behind them is read too
    let mut i = vec![a(STRS[d[0]]), ai, lx.clone()];
    let mut o = vec![a(STRS[d[0]]), ao, lx];
    let tstamp = if d[5] % 2 == 1 {
        let t = ts(&mut i, d[5]);
        i.push(ei);
        t
    } else {
        i.push(ei);
        ts(&mut i, d[5])
    };
    ts(&mut o, d[5]);
    o.push(eo);
    (
        l("gr_text", i),
        la::GrText {
            value: STRS[d[0]].into(),
            at: av,
            layer: lv,
            effects: ev,
            tstamp,
        },
        l("gr_text", o),
    )
}

pub fn build(kind: &str, d: &[usize]) -> Case<la::Element> {
    match kind {
        "net" => both(
            la::Element::Net(la::Net {
                num: iv(0, d[0]),
                name: STRS[d[1]].into(),
            }),
            l("net", vec![i(iv(0, d[0])), a(STRS[d[1]])]),
        ),
        "net_class" => {
            let mut inp = vec![a(STRS[d[0]]), a(STRS[d[1]])];
            let mut out = inp.clone();
            let names = ["clearance", "trace_width", "via_dia", "via_drill", "uvia_dia", "uvia_drill"];
            let defaults = [0.1524, 0.2032, 0.675, 0.25, 0.508, 0.127];
            let mut vals = [0.0; 6];
            for k in 0..6 {
                match opt(k, d[2 + k]) {
                    Some(v) => {
                        inp.push(l1(names[k], n(v)));
                        out.push(l1(names[k], n(v)));
                        vals[k] = v;
                    }
                    None => {
                        out.push(l1(names[k], n(defaults[k])));
                        vals[k] = defaults[k];
                    }
                }
            }
            let mut o2 = [None, None];
            for k in 0..2 {
                if d[8 + k] > 0 {
                    let v = nv(6 + k, d[8 + k] - 1);
                    let x = l1(["diff_pair_gap", "diff_pair_width"][k], n(v));
                    inp.push(x.clone());
                    out.push(x);
                    o2[k] = Some(v);
                }
            }
            let nets: &[&str] = [&["GND", "/a b"][..], &[], &["+5V"], &["", "Net-(R1-Pad1)", "GND"], &["a", "b", "c", "d", "e", "f", "g"]][d[10]];
            for q in nets {
                inp.push(l1("add_net", a(*q)));
                out.push(l1("add_net", a(*q)));
            }
            Case {
                input: l("net_class", inp),
                value: la::Element::NetClass(la::NetClass {
                    name: STRS[d[0]].into(),
                    desc: STRS[d[1]].into(),
                    clearance: vals[0],
                    trace_width: vals[1],
                    via_dia: vals[2],
                    via_drill: vals[3],
                    uvia_dia: vals[4],
                    uvia_drill: vals[5],
                    diff_pair_gap: o2[0],
                    diff_pair_width: o2[1],
                    nets: nets.iter().map(|s| la::NetName::from(*s)).collect(),
                }),
                output: l("net_class", out),
            }
        }
        "gr_text" => {
            let (input, v, output) = gr_text(d, 0);
            Case {
                input,
                value: la::Element::GrText(v),
                output,
            }
        }
        "gr_line" | "gr_arc" => {
            let (sx, start) = xy("start", nv(0, d[0]), nv(1, d[1]));
            let (ex, end) = xy("end", nv(2, d[2]), nv(3, d[3]));
            let (lx, layer) = layer_l(d[5]);
            let mut inp = vec![sx, ex];
            let mut out = inp.clone();
            let angle = opt(4, d[4]);
            if let Some(v) = angle {
                inp.push(l1("angle", n(v)));
            }
            let angle = angle.unwrap_or(0.0);
            out.push(l1("angle", n(angle)));
            inp.push(lx.clone());
            out.push(lx);
            let width = opt(5, d[6]);
            if let Some(v) = width {
                inp.push(l1("width", n(v)));
            }
            let width = width.unwrap_or(0.0);
            out.push(l1("width", n(width)));
            let tstamp = ts(&mut inp, d[7]);
            ts(&mut out, d[7]);
            let value = if kind == "gr_line" {
                la::Element::GrLine(la::GrLine { start, end, angle, layer, width, tstamp })
            } else {
                la::Element::GrArc(la::GrArc { start, end, angle, layer, width, tstamp })
            };
            Case {
                input: l(kind, inp),
                value,
                output: l(kind, out),
            }
        }
        "gr_circle" => {
            let (sx, center) = xy("center", nv(0, d[0]), nv(1, d[1]));
            let (ex, end) = xy("end", nv(2, d[2]), nv(3, d[3]));
            let (lx, layer) = layer_l(d[4]);
            let mut inp = vec![sx, ex, lx];
            let mut out = inp.clone();
            let width = opt(5, d[5]);
            if let Some(v) = width {
                inp.push(l1("width", n(v)));
            }
            let width = width.unwrap_or(0.0);
            out.push(l1("width", n(width)));
            let tstamp = ts(&mut inp, d[6]);
            ts(&mut out, d[6]);
            Case {
                input: l(kind, inp),
                value: la::Element::GrCircle(la::GrCircle { center, end, layer, width, tstamp }),
                output: l(kind, out),
            }
        }
        "dimension" => {
            let (lx, layer) = layer_l(d[2]);
            let mut inp = vec![a(STRS[d[0]]), l1("width", n(nv(0, d[1]))), lx];
            let tstamp = ts(&mut inp, d[3]);
            let mut td = vec![0; 13];
            td[0] = d[12];
            td[5] = d[4];
            let (ti, tv, to) = gr_text(&td, 1);
            let text = inp.len();
            inp.push(ti);
            let mut ps = vec![];
            for (k, nm) in ["feature1", "feature2", "crossbar", "arrow1a", "arrow1b", "arrow2a", "arrow2b"].iter().enumerate() {
                let (px, pv) = pts(&some_pts(k + 1, [2, 0, 1, 6][d[5 + k]]));
                inp.push(l1(nm, px));
                ps.push(pv);
            }
            let mut ps = ps.into_iter();
            let mut out = inp.clone();
            out[text] = to;
            Case {
                input: l(kind, inp),
                value: la::Element::Dimension(la::Dimension {
                    name: STRS[d[0]].into(),
                    width: nv(0, d[1]),
                    layer,
                    tstamp,
                    text: tv,
                    feature1: ps.next().unwrap(),
                    feature2: ps.next().unwrap(),
                    crossbar: ps.next().unwrap(),
                    arrow1a: ps.next().unwrap(),
                    arrow1b: ps.next().unwrap(),
                    arrow2a: ps.next().unwrap(),
                    arrow2b: ps.next().unwrap(),
                }),
                output: l(kind, out),
            }
        }
        "segment" => {
            let (sx, start) = xy("start", nv(0, d[0]), nv(1, d[1]));
            let (ex, end) = xy("end", nv(2, d[2]), nv(3, d[3]));
            let (lx, layer) = layer_l(d[5]);
            let mut inp = vec![sx, ex, l1("width", n(nv(4, d[4]))), lx, l1("net", i(iv(5, d[6])))];
            let tstamp = ts(&mut inp, d[7]);
            let status = TS[d[8]].map(|s| {
                inp.push(l1("status", a(s)));
                s.to_string()
            });
            both(
                la::Element::Segment(la::Segment {
                    start,
                    end,
                    width: nv(4, d[4]),
                    layer,
                    net: iv(5, d[6]),
                    tstamp,
                    status,
                }),
                l(kind, inp),
            )
        }
        "via" => {
            let mut inp = vec![];
            if d[0] == 1 {
                inp.push(a("blind"))
            }
            if d[1] == 1 {
                inp.push(a("micro"))
            }
            let mut out = inp.clone();
            let (ai, av, ao) = at(nv(0, d[2]), nv(1, d[3]), rot(d[4]));
            inp.push(ai);
            out.push(ao);
            inp.push(l1("size", n(nv(2, d[5]))));
            out.push(l1("size", n(nv(2, d[5]))));
            let drill = opt(3, d[6]);
            if let Some(v) = drill {
                inp.push(l1("drill", n(v)));
                if v != 0.0 {
                    out.push(l1("drill", n(v)));
                }
            }
            let (lx, layers) = layers(d[7]);
            inp.push(lx.clone());
            out.push(lx);
            let net = if d[8] == NI { 0 } else { iv(4, d[8]) };
            if d[8] != NI {
                inp.push(l1("net", i(net)));
            }
            out.push(l1("net", i(net)));
            Case {
                input: l(kind, inp),
                value: la::Element::Via(la::Via {
                    blind: d[0] == 1,
                    micro: d[1] == 1,
                    at: av,
                    size: nv(2, d[5]),
                    drill: drill.unwrap_or(0.0),
                    layers,
                    net,
                }),
                output: l(kind, out),
            }
        }
        "zone" => {
            let (lx, layer) = layer_l(d[2]);
            let tstamp = ["55E99398", "0", "a b"][d[3]];
            let style = ["edge", "none", "full x"][d[4]];
            let mut inp = vec![
                l1("net", i(iv(0, d[0]))),
                l1("net_name", a(STRS[d[1]])),
                lx,
                l1("tstamp", a(tstamp)),
                l("hatch", vec![a(style), n(nv(1, d[5]))]),
            ];
            let mut out = inp.clone();
            let priority = [0u64, 0, 1, 4294967297][d[6]];
            if d[6] > 0 {
                inp.push(l1("priority", i(priority as i64)));
                if priority > 0 {
                    out.push(l1("priority", i(priority as i64)));
                }
            }
            let connection = [None, Some("yes"), Some("no"), Some("thru_hole_only")][d[7]];
            let mut cp = vec![];
            if let Some(c) = connection {
                cp.push(a(c));
            }
            cp.push(l1("clearance", n(nv(2, d[8]))));
            let mut rest = vec![l("connect_pads", cp), l1("min_thickness", n(nv(3, d[9])))];
            let allow = |b: bool| a(if b { "allowed" } else { "not_allowed" });
            let keepout = if d[10] > 0 {
                let b = d[10] - 1;
                let k = la::Keepout {
                    tracks: b & 1 == 1,
                    vias: b & 2 == 2,
                    copperpour: b & 4 == 4,
                };
                rest.push(l(
                    "keepout",
                    vec![
                        l1("tracks", allow(k.tracks)),
                        l1("vias", allow(k.vias)),
                        l1("copperpour", allow(k.copperpour)),
                    ],
                ));
                Some(k)
            } else {
                None
            };
            let mut fi = vec![];
            if d[11] == 0 {
                fi.push(a("yes"));
            }
            if d[12] == 1 {
                fi.push(l1("mode", a("segment")));
            }
            fi.push(l1("arc_segments", i(iv(4, d[13]))));
            fi.push(l1("thermal_gap", n(nv(5, d[14]))));
            fi.push(l1("thermal_bridge_width", n(nv(6, d[15]))));
            let smoothing = [None, Some("chamfer"), Some("fillet")][d[16]];
            if let Some(s) = smoothing {
                fi.push(l1("smoothing", a(s)));
            }
            let radius = [None, Some(0.5), Some(-0.25), Some(0.0)][d[17]];
            let mut fo = fi.clone();
            if let Some(r) = radius {
                fi.push(l1("radius", n(r)));
                if r != 0.0 {
                    fo.push(l1("radius", n(r)));
                }
            }
            inp.extend(rest.clone());
            out.extend(rest);
            inp.push(l("fill", fi));
            out.push(l("fill", fo));
            let lens: &[&[usize]] = &[&[4], &[], &[1, 0], &[6, 2, 11], &[5]];
            let mut polygons = vec![];
            let mut tailv = vec![];
            for (k, c) in lens[d[18]].iter().enumerate() {
                let (x, v) = pts(&some_pts(10 + k, *c));
                tailv.push(l1("polygon", x));
                polygons.push(v);
            }
            let mut filled = vec![];
            for (k, c) in lens[[1, 0, 2, 3, 4][d[19]]].iter().enumerate() {
                let (x, v) = pts(&some_pts(20 + k, *c));
                tailv.push(l1("filled_polygon", x));
                filled.push(v);
            }
            let mut fill_segments = None;
            if d[20] > 0 {
                let (x, v) = pts(&some_pts(30, [2, 0, 12][d[20] - 1]));
                tailv.push(l1("fill_segments", x));
                fill_segments = Some(v);
            }
            let mut other = vec![];
            let os: &[X] = &[
                l("zzz", vec![]),
                l("other", vec![a("x y"), l1("q", l("r", vec![a("")]))]),
                a("word"),
            ];
            let oks: &[&[usize]] = &[&[], &[0], &[1, 0], &[2, 1, 1]];
            for &q in oks[d[21]] {
                tailv.push(os[q].clone());
                other.push(sexp(&os[q]));
            }
            inp.extend(tailv.clone());
            out.extend(tailv);
            Case {
                input: l(kind, inp),
                value: la::Element::Zone(la::Zone {
                    net: iv(0, d[0]),
                    net_name: STRS[d[1]].into(),
                    layer,
                    tstamp: tstamp.into(),
                    hatch: la::Hatch {
                        style: style.into(),
                        pitch: nv(1, d[5]),
                    },
                    priority,
                    connect_pads: la::ConnectPads {
                        connection: connection.map(|s| s.to_string()),
                        clearance: nv(2, d[8]),
                    },
                    min_thickness: nv(3, d[9]),
                    keepout,
                    fill: la::Fill {
                        filled: d[11] == 0,
                        segment: d[12] == 1,
                        arc_segments: iv(4, d[13]),
                        thermal_gap: nv(5, d[14]),
                        thermal_bridge_width: nv(6, d[15]),
                        smoothing: smoothing.map(|s| s.to_string()),
                        corner_radius: radius.unwrap_or(0.0),
                    },
                    polygons,
                    filled_polygons: filled,
                    fill_segments,
                    other,
                }),
                output: l(kind, out),
            }
        }
        "module" => {
            let reps = representatives();
            let pick: &[&[usize]] = &[
                &[8, 13, 14, 7, 0, 2, 18],
                &[],
                &[17, 8, 7],
                &[1],
                &[6],
                &[5, 20],
                &[3, 4],
                &[19, 1, 18, 6],
                &[9, 10, 11, 12, 15, 16],
            ];
            let els: Vec<_> = pick[d[0]].iter().map(|&k| reps[k].1.clone()).collect();
            let m = module_case(["lib:M", "x", "a b", "M", "M", "M", "M", "M", "M"][d[0]], &els);
            Case {
                input: m.input,
                value: la::Element::Module(m.value),
                output: m.output,
            }
        }
        "other" => {
            let x = [
                l("target", vec![a("plus"), l("at", vec![a("1"), a("2")]), l1("size", a("5"))]),
                l("zzz", vec![]),
                l("gr_poly", vec![l("pts", vec![l("xy", vec![a("1"), a("2")])])]),
                l("title_block", vec![l1("title", a("a b")), l("comment", vec![a("1"), a("")])]),
                l("drawings2", vec![a("x"), l("module", vec![a("y")]), l("segment", vec![])]),
            ][d[0]]
                .clone();
            both(la::Element::Other(sexp(&x)), x)
        }
        _ => panic!("{}", kind),
    }
}

/// header attributes: version, tool, build, links, no_connects, area x4, thickness, drawings, tracks, zones, modules, nets, page, layers, setup, plot params, absent part
pub fn head_dims() -> Vec<usize> {
    let s = STRS.len();
    vec![NI, s, s, NI, NI, NN, NN, NN, NN, NN, NI, NI, NI, NI, NI, s, 7, 5, 5, 9]
}

pub fn layer_list(k: usize) -> (X, Vec<la::Layer>) {
    use la::LayerType::*;
    let all = [("signal", Signal), ("power", Power), ("mixed", Mixed), ("jumper", Jumper), ("user", User)];
    let sets: Vec<Vec<(i64, usize, usize, bool)>> = vec![
        vec![(0, 11, 0, false), (31, 12, 0, false)],
        vec![],
        vec![(0, 11, 1, true), (1, 18, 2, false), (2, 19, 3, true), (3, 10, 4, false)],
        (0..50).map(|q| (q as i64, (q * 5) % NLAYER, q % 5, q % 3 == 0)).collect(),
        vec![(-1, 121, 4, true)],
        vec![(0, 110, 0, false), (0, 110, 0, false)],
        (0..NLAYER).map(|q| (q as i64, q, (q + 1) % 5, q % 2 == 0)).collect(),
    ];
    let mut x = vec![];
    let mut v = vec![];
    for &(num, lk, t, hide) in &sets[k] {
        let (lx, lv) = layer(lk);
        let mut e = vec![i(num), lx, a(all[t].0)];
        if hide {
            e.push(a("hide"));
        }
        x.push(X::L(e));
        v.push(la::Layer {
            num,
            layer: lv,
            layer_type: all[t].1.clone(),
            hide,
        });
    }
    (l("layers", x), v)
}

pub fn setup_list(k: usize) -> (Vec<X>, Vec<la::SetupElement>) {
    let sets: Vec<Vec<(&str, &str, Option<&str>)>> = vec![
        vec![("last_trace_width", "0.25", None), ("via_size", "0.6", Some("0.3"))],
        vec![],
        vec![("a", "", Some("")), ("a", "x y", None), ("b", "no", None)],
        vec![("visible_elements", "7FFFFFFF", None)],
        vec![("x", "1", None), ("x", "2", Some("3")), ("y", "(", None), ("z", "%", Some("{}")), ("aux_axis_origin", "1.5", Some("-2"))],
    ];
    let mut x = vec![];
    let mut v = vec![];
    for &(nm, a1, a2) in &sets[k] {
        let mut e = vec![a(nm), a(a1)];
        if let Some(s) = a2 {
            e.push(a(s));
        }
        x.push(X::L(e));
        v.push(la::SetupElement {
            name: nm.into(),
            value1: a1.into(),
            value2: a2.map(|s| s.to_string()),
        });
    }
    (x, v)
}

pub struct LCase {
    pub input: X,
    pub value: la::Layout,
    pub output: X,
}

/// element positions among the header parts: `place` 0 all behind, 1 all in front
pub fn layout_case(d: &[usize], els: &[Case<la::Element>], place: usize) -> LCase {
    let absent = d[19];
    let mut v = la::Layout::default();
    let mut parts: Vec<(X, X)> = vec![];
    // version
    {
        let ver = iv(0, d[0]);
        if absent == 1 {
            parts.push((X::L(vec![]), l1("version", a("4"))));
            v.version = 4;
        } else {
            v.version = ver;
            parts.push((l1("version", i(ver)), l1("version", i(ver))));
        }
    }
    {
        if absent == 2 {
            parts.push((X::L(vec![]), l("host", vec![a("pcbnew"), a("custom")])));
            v.host = la::Host {
                tool: "pcbnew".into(),
                build: "custom".into(),
            };
        } else {
            let x = l("host", vec![a(STRS[d[1]]), a(STRS[d[2]])]);
            v.host = la::Host {
                tool: STRS[d[1]].into(),
                build: STRS[d[2]].into(),
            };
            parts.push((x.clone(), x));
        }
    }
    {
        let mk = |g: &la::General| {
            l(
                "general",
                vec![
                    l1("links", i(g.links)),
                    l1("no_connects", i(g.no_connects)),
                    l("area", vec![n(g.area.x1), n(g.area.y1), n(g.area.x2), n(g.area.y2)]),
                    l1("thickness", n(g.thickness)),
                    l1("drawings", i(g.drawings)),
                    l1("tracks", i(g.tracks)),
                    l1("zones", i(g.zones)),
                    l1("modules", i(g.modules)),
                    l1("nets", i(g.nets)),
                ],
            )
        };
        if absent == 3 {
            v.general = la::General {
                links: 0,
                no_connects: 0,
                area: la::Area { x1: 0.0, y1: 0.0, x2: 0.0, y2: 0.0 },
                thickness: 1.6,
                drawings: 0,
                tracks: 0,
                zones: 0,
                modules: 0,
                nets: 0,
            };
            parts.push((X::L(vec![]), mk(&v.general)));
        } else {
            v.general = la::General {
                links: iv(1, d[3]),
                no_connects: iv(2, d[4]),
                area: la::Area {
                    x1: nv(0, d[5]),
                    y1: nv(1, d[6]),
                    x2: nv(2, d[7]),
                    y2: nv(3, d[8]),
                },
                thickness: nv(4, d[9]),
                drawings: iv(3, d[10]),
                tracks: iv(4, d[11]),
                zones: iv(5, d[12]),
                modules: iv(6, d[13]),
                nets: iv(7, d[14]),
            };
            let x = mk(&v.general);
            parts.push((x.clone(), x));
        }
    }
    {
        if absent == 4 {
            v.page = "A4".into();
            parts.push((X::L(vec![]), l1("page", a("A4"))));
        } else {
            v.page = STRS[d[15]].into();
            parts.push((l1("page", a(STRS[d[15]])), l1("page", a(STRS[d[15]]))));
        }
    }
    {
        if absent == 5 {
            v.layers = vec![];
            parts.push((X::L(vec![]), l("layers", vec![])));
        } else {
            let (x, w) = layer_list(d[16]);
            v.layers = w;
            parts.push((x.clone(), x));
        }
    }
    {
        let (sx, sv) = setup_list(d[17]);
        let (px, pv) = setup_list(d[18]);
        match absent {
            6 => {
                parts.push((X::L(vec![]), l1("setup", l("pcbplotparams", vec![]))));
            }
            7 => {
                // no plot parameters
                v.setup.elements = sv;
                let mut o = sx.clone();
                o.push(l("pcbplotparams", vec![]));
                parts.push((l("setup", sx), l("setup", o)));
            }
            8 => {
                // plot parameters in front
                v.setup.elements = sv;
                v.setup.pcbplotparams = pv;
                let mut i2 = vec![l("pcbplotparams", px.clone())];
                i2.extend(sx.clone());
                let mut o = sx;
                o.push(l("pcbplotparams", px));
                parts.push((l("setup", i2), l("setup", o)));
            }
            _ => {
                v.setup.elements = sv;
                v.setup.pcbplotparams = pv;
                let mut o = sx;
                o.push(l("pcbplotparams", px));
                parts.push((l("setup", o.clone()), l("setup", o)));
            }
        }
    }
    let mut inp = vec![];
    let mut out = vec![];
    let empty = X::L(vec![]);
    let heads: Vec<X> = parts.iter().map(|p| p.0.clone()).filter(|x| *x != empty).collect();
    out.extend(parts.into_iter().map(|p| p.1));
    if place == 0 {
        inp.extend(heads.iter().cloned());
    }
    for c in els {
        inp.push(c.input.clone());
        out.push(c.output.clone());
        v.elements.push(c.value.clone());
    }
    if place == 1 {
        inp.extend(heads.into_iter().rev());
    }
    LCase {
        input: l("kicad_pcb", inp),
        value: v,
        output: l("kicad_pcb", out),
    }
}

pub fn head0() -> Vec<usize> {
    vec![0; head_dims().len()]
}

pub fn la_representatives() -> Vec<(String, Case<la::Element>)> {
    let mut v = vec![];
    for k in KINDS {
        let d0 = vec![0; dims(k).len()];
        v.push((k.to_string(), build(k, &d0)));
    }
    let mut d = vec![0; dims("zone").len()];
    d[10] = 3;
    d[18] = 3;
    d[19] = 3;
    d[20] = 1;
    d[21] = 2;
    v.push(("zone_full".into(), build("zone", &d)));
    v.push(("other_zzz".into(), build("other", &[1])));
    v.push(("module_empty".into(), build("module", &[1])));
    v
}

#[allow(unused)]
pub fn fpm() -> fp::Module {
    fp::Module::new("x".into())
}

/// a copy of a board
pub fn copy(l: &la::Layout) -> la::Layout {
    let mut v = la::Layout::default();
    v.version = l.version;
    v.host = l.host.clone();
    v.general = l.general.clone();
    v.page = l.page.clone();
    v.setup = l.setup.clone();
    v.layers = l.layers.clone();
    v.elements = l.elements.clone();
    v
}
