use crate::core::*;
use crate::geo::{self, Box4};
use crate::sx::{self, X};
use kicad_parse_gen::checkfix::{CheckFix, CheckFixData, Config};
use kicad_parse_gen::footprint as fp;

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

const KINDS: [&str; 3] = ["reference", "value", "user"];
const VALUES: [[&str; 4]; 3] = [["REF**", "U1", "", "REF*"], ["", "VAL", "%R", "M"], ["%R", "REF**", "", "%r"]];
const LAYERS: [[&str; 6]; 3] = [
    ["F.SilkS", "B.SilkS", "F.Fab", "B.CrtYd", "Dwgs.User", "F.Cu"],
    ["F.Fab", "B.Fab", "F.SilkS", "B.CrtYd", "Eco1.User", "B.Cu"],
    ["F.Fab", "B.Fab", "F.SilkS", "B.SilkS", "Cmts.User", "F.Adhes"],
];
const SIZES: [(f64, f64); 6] = [(1.0, 1.0), (1.5, 1.5), (1.0, 2.0), (2.0, 1.0), (0.99, 1.01), (2.0, 2.0)];
const THICK: [f64; 4] = [0.15, 0.2, 0.1499, 0.3];
const NAMES: [&str; 5] = ["m", "BGA-16", "xBGA", "bga", "REF**"];
const ATS: [Option<(f64, f64, f64)>; 4] = [None, Some((10.0, 20.0, 0.0)), Some((-3.5, 0.25, 90.0)), Some((100.0, -50.0, 180.0))];
/// the courtyard lines: how many on the front, on the back, and on other layers
const YARD: [(usize, usize, usize); 8] = [(4, 0, 0), (0, 0, 0), (3, 0, 0), (0, 4, 0), (2, 2, 0), (2, 1, 3), (5, 0, 1), (0, 0, 4)];
const ATTRS: [&[&str]; 5] = [&[], &["smd"], &["virtual"], &["virtual", "smd"], &["SMD"]];
const PADS: [&[&str]; 12] = [
    &[],
    &["smd"],
    &["thru_hole"],
    &["np_thru_hole"],
    &["smd", "smd"],
    &["smd", "thru_hole"],
    &["thru_hole", "smd"],
    &["np_thru_hole", "smd"],
    &["thru_hole", "np_thru_hole"],
    &["smd", "np_thru_hole", "smd"],
    &["smd", "np_thru_hole", "thru_hole"],
    &["thru_hole", "thru_hole", "np_thru_hole"],
];
/// the position and size of the pads, and an outline on the fabrication layer
const BODY: [((f64, f64), (f64, f64), Option<(f64, f64)>); 8] = [
    ((0.0, 0.0), (1.0, 1.0), None),
    ((0.0, 0.0), (1.0, 3.0), None),
    ((0.0, 0.0), (3.0, 1.0), None),
    ((0.0, 0.0), (2.0, 2.0), None),
    ((4.0, -2.0), (1.0, 0.5), None),
    ((0.0, 0.0), (1.0, 1.0), Some((0.75, 0.5))),
    ((0.5, 0.25), (1.0, 1.0), Some((-2.5, 6.0))),
    ((0.0, 0.0), (1.999, 1.999), None),
];
/// other parts, before and after the rest
const OTHER: [usize; 4] = [0, 1, 2, 3];

fn text(kind: usize, name: &str, value: usize, layer: usize, hide: bool, size: usize, thick: usize) -> X {
    let v = if kind == 1 && value == 0 {
        name.to_string()
    } else {
        VALUES[kind][value].to_string()
    };
    let mut e = vec![sx::a(KINDS[kind]), sx::a(v), sx::l("at", vec![sx::i(1), sx::i(2)]), sx::l1("layer", sx::a(LAYERS[kind][layer]))];
    if hide {
        e.push(sx::a("hide"))
    }
    e.push(sx::l(
        "effects",
        vec![sx::l("font", vec![sx::l("size", vec![sx::n(SIZES[size].0), sx::n(SIZES[size].1)]), sx::l1("thickness", sx::n(THICK[thick]))])],
    ));
    sx::l("fp_text", e)
}

fn line(x1: f64, y1: f64, x2: f64, y2: f64, layer: &str) -> X {
    sx::l(
        "fp_line",
        vec![
            sx::l("start", vec![sx::n(x1), sx::n(y1)]),
            sx::l("end", vec![sx::n(x2), sx::n(y2)]),
            sx::l1("layer", sx::a(layer)),
            sx::l1("width", sx::n(0.1)),
        ],
    )
}

const PER_TEXT: usize = 6;
pub fn dims() -> Vec<usize> {
    let mut v = vec![];
    for _ in 0..3 {
        // how many of them, value, layer, hidden, size, thickness
        v.extend_from_slice(&[4, 4, 6, 2, 6, 4]);
    }
    v.extend_from_slice(&[NAMES.len(), ATS.len(), YARD.len(), ATTRS.len(), PADS.len(), BODY.len(), OTHER.len()]);
    v
}

pub fn module(d: &[usize], reverse: bool) -> X {
    let r = &d[3 * PER_TEXT..];
    let name = NAMES[r[0]];
    let mut els = vec![];
    if let Some((x, y, rot)) = ATS[r[1]] {
        let mut v = vec![sx::n(x), sx::n(y)];
        if rot != 0.0 {
            v.push(sx::n(rot))
        }
        els.push(sx::l("at", v))
    }
    for k in 0..3 {
        let t = &d[k * PER_TEXT..(k + 1) * PER_TEXT];
        let it = text(k, name, t[1], t[2], t[3] == 1, t[4], t[5]);
        let faulty = text(k, name, 1, 3, true, 2, 1);
        match t[0] {
            0 => els.push(it),
            1 => (),
            2 => els.extend(vec![it, faulty]),
            _ => els.extend(vec![faulty, it]),
        }
    }
    for a in ATTRS[r[3]] {
        els.push(sx::l1("attr", sx::a(*a)))
    }
    let (at, size, body) = BODY[r[5]];
    for (i, p) in PADS[r[4]].iter().enumerate() {
        els.push(sx::l(
            "pad",
            vec![
                sx::i(i as i64 + 1),
                sx::a(*p),
                sx::a("rect"),
                sx::l("at", vec![sx::n(at.0), sx::n(at.1)]),
                sx::l("size", vec![sx::n(size.0), sx::n(size.1)]),
                sx::l("layers", vec![sx::a("F.Cu")]),
            ],
        ))
    }
    if let Some((x, y)) = body {
        els.push(line(0.0, 0.0, x, y, "F.Fab"))
    }
    let (f, b, o) = YARD[r[2]];
    for i in 0..f {
        els.push(line(i as f64, 0.0, 9.0, 9.0, "F.CrtYd"))
    }
    for i in 0..b {
        els.push(line(i as f64, 0.0, 9.0, 9.0, "B.CrtYd"))
    }
    for i in 0..o {
        els.push(line(i as f64, 0.0, 9.0, 9.0, "F.SilkS"))
    }
    match OTHER[r[6]] {
        0 => (),
        1 => els.insert(0, sx::l1("descr", sx::a("some text"))),
        2 => els.push(sx::l(
            "fp_circle",
            vec![
                sx::l("center", vec![sx::i(0), sx::i(0)]),
                sx::l("end", vec![sx::i(3), sx::i(0)]),
                sx::l1("layer", sx::a("F.SilkS")),
                sx::l1("width", sx::n(0.2)),
            ],
        )),
        _ => els.push(sx::l1("tags", sx::a("REF** smd"))),
    }
    if reverse {
        els.reverse()
    }
    els.insert(0, sx::a(name));
    els.insert(1, sx::l1("layer", sx::a("F.Cu")));
    sx::l("module", els)
}

type Finding = (i64, i64, String, bool);

fn flat(v: &[CheckFixData], out: &mut Vec<Finding>) {
    for d in v {
        match *d {
            CheckFixData::Item(ref i) => out.push((i.section, i.rule, i.item.clone(), i.info)),
            CheckFixData::More(ref m) => flat(m, out),
        }
    }
}

fn findings(m: &fp::Module, c: &Config) -> Vec<Finding> {
    let mut v = vec![];
    flat(&m.check(c), &mut v);
    v.sort();
    v
}

struct Text {
    value: String,
    layer: String,
    hide: bool,
    w: f64,
    h: f64,
    t: f64,
}

/// position of the first text of a kind
fn first(els: &[X], kind: &str) -> Option<usize> {
    els.iter().position(|e| matches!(e, X::L(_)) && e.head() == "fp_text" && geo::words(e).first() == Some(&kind))
}

fn read_text(e: &X) -> Text {
    let w = geo::words(e);
    let font = geo::kid(e, "effects").and_then(|e| geo::kid(e, "font"));
    let size = font.and_then(|f| geo::kid(f, "size")).map(|s| geo::nums(s)).unwrap_or(vec![0.0, 0.0]);
    let t = font.and_then(|f| geo::kid(f, "thickness")).map(|s| geo::nums(s)[0]).unwrap_or(0.0);
    Text {
        value: w[1].to_string(),
        layer: geo::word(e, "layer").unwrap_or_default(),
        hide: w[2..].contains(&"hide"),
        w: size[0],
        h: size[1],
        t,
    }
}

fn of_type(layer: &str, t: &str) -> bool {
    layer == t || layer.ends_with(&format!(".{}", t))
}

struct Pads {
    smd: usize,
    pth: usize,
}
fn pads(x: &X) -> Pads {
    let of = |t: &str| geo::kids(x, "pad").iter().filter(|p| geo::words(p).get(1) == Some(&t)).count();
    Pads {
        smd: of("smd"),
        pth: of("thru_hole"),
    }
}

fn yard(x: &X) -> usize {
    geo::kids(x, "fp_line").iter().filter(|l| of_type(&geo::word(l, "layer").unwrap_or_default(), "CrtYd")).count()
}

fn is_smd(x: &X) -> bool {
    geo::kids(x, "attr").iter().any(|a| geo::words(a) == vec!["smd"])
}

fn els(x: &X) -> &[X] {
    match x {
        X::L(v) => v,
        _ => &[],
    }
}

/// the rules a footprint breaks
fn model(x: &X, size: f64, thick: f64) -> Vec<Finding> {
    let name = geo::words(x)[0].to_string();
    let mut v: Vec<Finding> = vec![];
    let mut add = |broken: bool, s: i64, r: i64, info: bool| {
        if broken {
            v.push((s, r, name.clone(), info))
        }
    };
    for (kind, rule, want, layer) in [("reference", 3, "REF**", "SilkS"), ("value", 4, &name[..], "Fab"), ("user", 4, "%R", "Fab")] {
        match first(els(x), kind) {
            None => add(true, 7, rule, false),
            Some(p) => {
                let t = read_text(&els(x)[p]);
                add(t.value != want, 7, rule, false);
                add(!of_type(&t.layer, layer), 7, rule, false);
                add(t.hide, 7, rule, false);
                add(kind != "value" && t.w != t.h, 7, rule, false);
                add(t.h != size, 7, rule, true);
                add(t.w != size, 7, rule, true);
                add(t.t != thick, 7, rule, true);
            }
        }
    }
    add(yard(x) < 4, 7, 5, false);
    let p = pads(x);
    add(p.smd > 0 && p.pth == 0 && !is_smd(x), 8, 1, false);
    add(p.pth > 0 && p.smd == 0 && is_smd(x), 9, 1, false);
    v.sort();
    v
}

/// a text after fixing
fn fixed_text(e: &X, value: &str, layer: &str, size: f64, thick: f64) -> X {
    let old = read_text(e);
    let now = if of_type(&old.layer, layer) {
        old.layer.clone()
    } else if old.layer.starts_with("B.") {
        format!("B.{}", layer)
    } else {
        format!("F.{}", layer)
    };
    fn go(x: &X, now: &str, size: f64, thick: f64) -> X {
        match x {
            X::L(v) => match x.head() {
                "layer" => sx::l1("layer", sx::a(now)),
                "size" => sx::l("size", vec![sx::n(size), sx::n(size)]),
                "thickness" => sx::l1("thickness", sx::n(thick)),
                _ => X::L(v.iter().map(|y| go(y, now, size, thick)).collect()),
            },
            y => y.clone(),
        }
    }
    let mut v: Vec<X> = els(e).iter().enumerate().filter(|&(i, y)| i < 3 || *y != sx::a("hide")).map(|(_, y)| go(y, &now, size, thick)).collect();
    v[2] = sx::a(value);
    X::L(v)
}

/// what is kept, and what is added
fn fixed(x: &X, size: f64, thick: f64) -> (X, Vec<X>, Option<Box4>) {
    let name = geo::words(x)[0].to_string();
    let mut v = els(x).to_vec();
    let mut added = vec![];
    for (kind, want, layer) in [("reference", "REF**", "SilkS"), ("value", &name[..], "Fab"), ("user", "%R", "Fab")] {
        match first(&v, kind) {
            Some(p) => v[p] = fixed_text(&v[p], want, layer, size, thick),
            None if kind == "user" => {
                let font = sx::l("font", vec![sx::l("size", vec![sx::n(size), sx::n(size)]), sx::l1("thickness", sx::n(thick))]);
                added.push(sx::l(
                    "fp_text",
                    vec![
                        sx::a("user"),
                        sx::a("%R"),
                        sx::l("at", vec![sx::i(0), sx::i(0)]),
                        sx::l1("layer", sx::a("F.Fab")),
                        sx::l1("effects", font),
                    ],
                ))
            }
            None => (),
        }
    }
    let p = pads(x);
    if p.smd > 0 && p.pth == 0 && !is_smd(x) {
        added.push(sx::l1("attr", sx::a("smd")))
    }
    let court = if yard(x) < 4 {
        let b = geo::extent(x).unwrap();
        let at = geo::kid(x, "at").map(|a| geo::nums(a)).unwrap_or(vec![0.0, 0.0]);
        let (w, h) = (b.2 - b.0, b.3 - b.1);
        let c = if w < 2.0 && h < 2.0 {
            0.15
        } else if name.starts_with("BGA") {
            0.1
        } else {
            0.25
        };
        Some(Box4(b.0 - at[0] - c, b.1 - at[1] - c, b.2 - at[0] + c, b.3 - at[1] + c))
    } else {
        None
    };
    (X::L(v), added, court)
}

fn written(m: &fp::Module) -> Result<X, (String, String)> {
    let s = fp::module_to_string(m, 0).map_err(|e| bad("write", e.to_string()))?;
    sx::read(&s).map_err(|e| bad("write", e))
}

/// compare a fixed footprint with what is kept and what is added; the added parts may be anywhere
fn compare(got: &X, kept: &X, mut added: Vec<X>, court: Option<Box4>) -> Result<(), (String, String)> {
    let mut want = els(kept).iter().peekable();
    let mut sides: Vec<&X> = vec![];
    for e in els(got) {
        if let Some(w) = want.peek() {
            if geo::near(w, e).is_ok() {
                want.next();
                continue;
            }
        }
        if let Some(p) = added.iter().position(|w| geo::near(w, e).is_ok()) {
            added.remove(p);
        } else if court.is_some() && matches!(e, X::L(_)) && e.head() == "fp_line" {
            sides.push(e)
        } else {
            return Err(bad("fixed", format!("unexpected {} where {:?} was to come, in {}", e.text(), want.peek().map(|w| w.text()), got.text())));
        }
    }
    if want.next().is_some() || !added.is_empty() {
        return Err(bad("lost", format!("kept {} and added {:?} but got {}", kept.text(), added.iter().map(|a| a.text()).collect::<Vec<_>>(), got.text())));
    }
    if let Some(b) = court {
        let corner = |x: f64, y: f64| {
            let q = [(b.0, b.1), (b.2, b.1), (b.2, b.3), (b.0, b.3)];
            (0..4).find(|&i| geo::close(q[i].0, x) && geo::close(q[i].1, y))
        };
        let mut seen = vec![];
        for s in &sides {
            let at = |n: &str| geo::kid(s, n).map(|k| geo::nums(k)).unwrap_or(vec![f64::NAN, f64::NAN]);
            let (p, q) = (at("start"), at("end"));
            let (i, j) = match (corner(p[0], p[1]), corner(q[0], q[1])) {
                (Some(i), Some(j)) => (i, j),
                _ => return Err(bad("courtyard", format!("{} is not a side of {:?} in {}", s.text(), b, got.text()))),
            };
            if (i + 1) % 4 == j {
                seen.push(i)
            } else if (j + 1) % 4 == i {
                seen.push(j)
            } else {
                return Err(bad("courtyard", format!("{} is no side of {:?}", s.text(), b)));
            }
            let lay = geo::word(s, "layer").unwrap_or_default();
            if lay != "F.CrtYd" || geo::kid(s, "width").map(|w| geo::nums(w)) != Some(vec![0.05]) {
                return Err(bad("courtyard-line", format!("{} in {}", s.text(), got.text())));
            }
        }
        seen.sort();
        if seen != vec![0, 1, 2, 3] {
            return Err(bad("courtyard", format!("sides {:?} of {:?} in {}", seen, b, got.text())));
        }
    }
    Ok(())
}

fn check(input: &X, config: &Config) -> Result<String, (String, String)> {
    let (size, thick) = (config.m.font_size, config.m.font_thickness);
    let mut m = fp::parse(&input.text()).map_err(|e| bad("read", format!("{}\n{}", e, input.text())))?;
    let start = written(&m)?;
    sx::same(input, &start).map_err(|e| bad("start", e))?;
    let want = model(&start, size, thick);
    let got = findings(&m, config);
    if got != want {
        return Err(bad("findings", format!("{:?} instead of {:?} for {}", got, want, start.text())));
    }
    if written(&m)? != start {
        return Err(bad("checked", format!("changed by checking: {}", start.text())));
    }
    m.fix(config);
    let once = written(&m)?;
    if want.is_empty() && once != start {
        return Err(bad("conforming", format!("{} was changed to {}", start.text(), once.text())));
    }
    let (kept, added, court) = fixed(&start, size, thick);
    compare(&once, &kept, added, court)?;
    // only what can not be repaired is left
    let left = findings(&m, config);
    let mut rest: Vec<Finding> = vec![];
    let name = geo::words(&start)[0].to_string();
    for (kind, rule) in [("reference", 3), ("value", 4)] {
        if first(els(&start), kind).is_none() {
            rest.push((7, rule, name.clone(), false))
        }
    }
    if want.iter().any(|w| w.0 == 9) {
        rest.push((9, 1, name, false))
    }
    if left != rest || left != model(&once, size, thick) {
        return Err(bad("left", format!("{:?} instead of {:?} after fixing {}", left, rest, start.text())));
    }
    m.fix(config);
    if written(&m)? != once {
        return Err(bad("again", format!("fixing again changed {}", once.text())));
    }
    // the repaired footprint is a fixed point after it is written and read as well
    let mut r = fp::parse(&fp::module_to_string(&m, 0).map_err(|e| bad("write", e.to_string()))?).map_err(|e| bad("read-fixed", e.to_string()))?;
    if findings(&r, config) != rest {
        return Err(bad("reread", format!("{:?} instead of {:?} for {}", findings(&r, config), rest, once.text())));
    }
    r.fix(config);
    if written(&r)? != once {
        return Err(bad("reread", format!("fixing the written footprint changed {}", once.text())));
    }
    Ok(format!("{} findings", want.len()))
}

fn config(i: usize) -> Config {
    let mut c = Config::klc();
    if i == 1 {
        c.m.font_size = 2.0;
        c.m.font_thickness = 0.3;
    }
    c
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough();
    let klc = Config::klc();
    ctx.step();
    ctx.case("settings", || {
        if (klc.m.font_size, klc.m.font_thickness) != (1.0, 0.15) {
            return Err(bad("settings", format!("{} {}", klc.m.font_size, klc.m.font_thickness)));
        }
        Ok("settings".into())
    });
    let all = deviations(&dims(), if t { 4 } else { 3 });
    // every combination of the attributes of one text
    let mut whole = vec![];
    for k in 0..3 {
        let d = dims();
        for p in product(&d[k * PER_TEXT..(k + 1) * PER_TEXT]) {
            let mut v = vec![0; d.len()];
            v[k * PER_TEXT..(k + 1) * PER_TEXT].copy_from_slice(&p);
            whole.push(v)
        }
    }
    // and of everything else
    {
        let d = dims();
        for p in product(&d[3 * PER_TEXT..]) {
            let mut v = vec![0; d.len()];
            v[3 * PER_TEXT..].copy_from_slice(&p);
            whole.push(v)
        }
    }
    parallel(ctx, |c, shard, of| {
        for (i, d) in all.iter().chain(&whole).enumerate() {
            if i % of != shard {
                continue;
            }
            for cfg in 0..2 {
                for rev in [false, true] {
                    // the other settings and order for the smaller half of the space only
                    if (cfg == 1 || rev) && !(t && i >= all.len()) && d.iter().filter(|&&x| x != 0).count() > 2 {
                        continue;
                    }
                    c.step();
                    if !c.state(&(d, cfg, rev)) {
                        continue;
                    }
                    let x = module(d, rev);
                    c.sample("footprint", || x.text());
                    c.case(&format!("footprint:{:?}:{}:{}", d, cfg, rev), || check(&x, &config(cfg)));
                }
            }
        }
    });
    sizes(ctx);
    contents(ctx);
}

/// the lengths around the limits of the clearance
const LENGTHS: [f64; 24] = [
    0.5, 1.0, 1.5, 1.75, 1.875, 1.9, 1.95, 1.99, 1.999, 2.0, 2.001, 2.01, 2.05, 2.1, 2.125, 2.25, 2.5, 3.0, 4.0, 5.0, 8.0, 10.0, 30.0, 100.0,
];
const TITLES: [&str; 12] = ["m", "BGA", "BGA-16", "BG", "B", "xBGA", "bga", "Bga-4", "BGA_", "A-BGA", "REF**", "QFN BGA"];

fn plain(name: &str, texts: [&str; 3], at: Option<(f64, f64, f64)>, mut more: Vec<X>) -> X {
    let mut v = vec![sx::a(name), sx::l1("layer", sx::a("F.Cu"))];
    if let Some((x, y, rot)) = at {
        let mut w = vec![sx::n(x), sx::n(y)];
        if rot != 0.0 {
            w.push(sx::n(rot))
        }
        v.push(sx::l("at", w))
    }
    for k in 0..3 {
        let mut e = match text(k, name, 1, 0, false, 0, 0) {
            X::L(e) => e,
            _ => unreachable!(),
        };
        e[2] = sx::a(texts[k]);
        v.push(X::L(e))
    }
    v.append(&mut more);
    sx::l("module", v)
}

fn pad(n: usize, kind: &str, at: (f64, f64, f64), size: (f64, f64)) -> X {
    let mut w = vec![sx::n(at.0), sx::n(at.1)];
    if at.2 != 0.0 {
        w.push(sx::n(at.2))
    }
    sx::l(
        "pad",
        vec![
            sx::i(n as i64),
            sx::a(kind),
            sx::a("rect"),
            sx::l("at", w),
            sx::l("size", vec![sx::n(size.0), sx::n(size.1)]),
            sx::l("layers", vec![sx::a("F.Cu")]),
        ],
    )
}

/// every extent by every extent, made of a pad, a turned pad, two pads or an outline
fn sizes(ctx: &mut Ctx) {
    parallel(ctx, |c, shard, of| {
        let klc = Config::klc();
        for p in product(&[LENGTHS.len(), LENGTHS.len(), TITLES.len(), ATS.len(), 5]) {
            if p[0] % of != shard {
                continue;
            }
            c.step();
            if !c.state(&("size", &p)) {
                continue;
            }
            let (w, h) = (LENGTHS[p[0]], LENGTHS[p[1]]);
            let body = match p[4] {
                0 => vec![pad(1, "thru_hole", (0.0, 0.0, 0.0), (w, h))],
                1 => vec![pad(1, "thru_hole", (0.0, 0.0, 90.0), (h, w))],
                2 => vec![pad(1, "smd", (-w / 4.0, h / 4.0, 0.0), (w / 2.0, h / 2.0)), pad(2, "smd", (w / 4.0, -h / 4.0, 270.0), (h / 2.0, w / 2.0))],
                3 => vec![line(-w / 2.0, h / 2.0, w / 2.0, -h / 2.0, "F.Fab")],
                _ => vec![line(-50.0, -60.0, 70.0, 80.0, "F.SilkS"), line(w / 2.0, h / 2.0, -w / 2.0, -h / 2.0, "B.Fab")],
            };
            let x = plain(TITLES[p[2]], ["REF**", TITLES[p[2]], "%R"], ATS[p[3]], body);
            c.sample("size", || x.text());
            c.case(&format!("size:{:?}", p), || check(&x, &klc));
        }
    });
}

/// every other part of a footprint, lists of every length, texts of every form
fn contents(ctx: &mut Ctx) {
    let t = ctx.thorough();
    let mut all: Vec<(String, X)> = vec![];
    for (l, is, x) in crate::shape::elements(if t { 2 } else { 1 }) {
        if is && !["at", "fp_text", "layer"].contains(&x.head()) {
            for p in 0..2 {
                let mut v = vec![pad(1, ["smd", "thru_hole"][p], (0.0, 0.0, 0.0), (1.0, 1.0))];
                v.insert(p, x.clone());
                all.push((format!("with:{}:{}", l, p), plain("m", [["REF**", "U1"][p], ["m", "x"][p], ["%R", "x"][p]], ATS[p], v)))
            }
        }
    }
    for n in crate::shape::counts(if t { 200 } else { 40 }) {
        for layer in ["F.CrtYd", "B.CrtYd", "F.Fab", "F.SilkS"] {
            let v = (0..n).map(|i| line(i as f64, 0.0, 9.0, -9.0, layer)).collect();
            all.push((format!("lines:{}:{}", layer, n), plain("m", ["REF**", "m", "%R"], None, v)))
        }
        for a in ["smd", "thru_hole", "np_thru_hole"] {
            for b in [None, Some("smd"), Some("thru_hole"), Some("np_thru_hole")] {
                for mark in [false, true] {
                    let mut v: Vec<X> = (0..n).map(|i| pad(i, a, (i as f64, 0.0, 0.0), (1.0, 1.0))).collect();
                    v.extend(b.map(|b| pad(n, b, (0.0, 1.0, 0.0), (1.0, 1.0))));
                    if mark {
                        v.push(sx::l1("attr", sx::a("smd")))
                    }
                    all.push((format!("pads:{}:{:?}:{}:{}", a, b, mark, n), plain("m", ["REF**", "m", "%R"], None, v)))
                }
            }
        }
    }
    // texts in every form, lines of the outline in every form, pads in every form
    let k = if t { 3 } else { 2 };
    for d in crate::fpgen::variants("fp_text", k) {
        let e = crate::fpgen::build("fp_text", &d).output;
        // zero sizes are not written
        if !e.text().contains("(size") || !e.text().contains("(thickness") {
            continue;
        }
        for which in 0..3 {
            let mut v = match e.clone() {
                X::L(v) => v,
                _ => unreachable!(),
            };
            v[1] = sx::a(["reference", "value", "user"][which]);
            let mut m = plain("m", ["REF**", "m", "%R"], None, vec![]);
            if let X::L(ref mut w) = m {
                let at = w.iter().position(|q| q.head() == "fp_text" && q.text().contains(["reference", "value", "user"][which])).unwrap();
                w[at] = X::L(v)
            }
            all.push((format!("form:{}:{:?}", which, d), m))
        }
    }
    let (yard, fab) = (sx::l1("layer", sx::a("F.CrtYd")), sx::l1("layer", sx::a("F.Fab")));
    for kind in ["fp_line", "fp_arc", "fp_circle", "fp_poly"] {
        for d in crate::fpgen::variants(kind, k) {
            let e = crate::fpgen::build(kind, &d).output;
            for to in [None, Some(&yard), Some(&fab)] {
                let e = match (&e, to) {
                    (X::L(v), Some(to)) => X::L(v.iter().map(|q| if q.head() == "layer" { to.clone() } else { q.clone() }).collect()),
                    _ => e.clone(),
                };
                for n in [1, 3, 4] {
                    all.push((format!("{}:{:?}:{}", kind, d, n), plain("m", ["REF**", "m", "%R"], None, vec![e.clone(); n])))
                }
            }
        }
    }
    for d in crate::fpgen::variants("pad", 2) {
        let e = crate::fpgen::build("pad", &d).output;
        for more in [None, Some("smd"), Some("virtual")] {
            let mut v = vec![e.clone()];
            v.extend(more.map(|m| sx::l1("attr", sx::a(m))));
            all.push((format!("pad:{:?}:{:?}", d, more), plain("m", ["REF**", "m", "%R"], None, v)))
        }
    }
    // text sizes of every magnitude and nearly the right ones
    let mut sizes: Vec<f64> = crate::shape::reals().into_iter().filter(|r| *r > 0.0 && *r < 1e9).collect();
    for base in [1.0, 0.15, 2.0] {
        for e in 1..=12 {
            let d = 10f64.powi(-e);
            sizes.push(base + d);
            sizes.push(base - d);
        }
        sizes.push(base)
    }
    for &r in &sizes {
        for which in 0..3 {
            for slot in 0..4 {
                let (w, h, t) = match slot {
                    0 => (r, 1.0, 0.15),
                    1 => (1.0, r, 0.15),
                    2 => (1.0, 1.0, r),
                    _ => (r, r, 0.15),
                };
                let mut m = plain("m", ["REF**", "m", "%R"], None, vec![]);
                if let X::L(ref mut v) = m {
                    let at = v.iter().position(|q| q.head() == "fp_text" && q.text().contains(KINDS[which])).unwrap();
                    if let X::L(ref mut e) = v[at] {
                        let last = e.len() - 1;
                        e[last] = sx::l("effects", vec![sx::l("font", vec![sx::l("size", vec![sx::n(w), sx::n(h)]), sx::l1("thickness", sx::n(t))])])
                    }
                }
                all.push((format!("size:{}:{}:{}", which, slot, r), m))
            }
        }
    }
    let words = crate::shape::texts("\"");
    for w in &words {
        if w.is_empty() {
            continue;
        }
        all.push((format!("name:{:?}", w), plain(w, ["REF**", w, "%R"], None, vec![])));
        for k in 0..3 {
            let mut texts = ["REF**", "m", "%R"];
            texts[k] = w;
            all.push((format!("text:{}:{:?}", k, w), plain("m", texts, None, vec![])))
        }
    }
    // one character too many, too few or another in each text
    for (k, right) in ["REF**", "module", "%R"].iter().enumerate() {
        for i in 0..right.len() + 1 {
            for c in [' ', '*', '%', 'R', 'r', 'E', 'm', '_', '1'] {
                for cut in 0..2 {
                    if i + cut > right.len() {
                        continue;
                    }
                    let w = format!("{}{}{}", &right[..i], c, &right[i + cut..]);
                    let less = format!("{}{}", &right[..i], &right[i + cut..]);
                    for w in [w, less] {
                        let mut texts = ["REF**", "module", "%R"];
                        texts[k] = &w;
                        all.push((format!("near:{}:{:?}", k, w), plain("module", texts, None, vec![])))
                    }
                }
            }
        }
    }
    parallel(ctx, |c, shard, of| {
        let klc = Config::klc();
        for (i, (l, x)) in all.iter().enumerate() {
            if i % of != shard {
                continue;
            }
            c.step();
            if !c.state(&("content", x.text())) {
                continue;
            }
            c.sample("content", || format!("{} {}", l, x.text()));
            c.case(l, || check(x, &klc));
        }
    });
}
