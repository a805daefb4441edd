use crate::core::*;
use crate::shape;
use kicad_parse_gen::checkfix::{self, CheckFix, CheckFixData, Config};
use kicad_parse_gen::symbol_lib as sl;

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

#[derive(Clone, Hash, Debug)]
struct Field {
    i: usize,
    size: i64,
    visible: bool,
    value: Option<String>,
    rest: String,
}
#[derive(Clone, Hash, Debug)]
struct Pin {
    name: String,
    number: Option<String>,
    dir: char,
    unit: i64,
    convert: i64,
    x: i64,
    y: i64,
    len: i64,
    num_size: i64,
    name_size: i64,
    kind: String,
    visible: bool,
    shape: String,
}
#[derive(Clone, Hash, Debug)]
enum Draw {
    Pin(Pin),
    Rect(i64, String),
    Box([i64; 6], i64, String),
    Other(String),
}
#[derive(Clone, Hash, Debug)]
struct Symbol {
    name: String,
    reference: String,
    power: bool,
    fields: Vec<Field>,
    draw: Vec<Draw>,
}

type Finding = (i64, i64, String, bool);

impl Field {
    fn line(&self) -> String {
        let extra = if self.i > 3 { " \"Other\"" } else { "" };
        let value = self.value.clone().unwrap_or(format!("v{}", self.i));
        let rest: Vec<&str> = self.rest.splitn(4, ' ').collect();
        format!("F{} \"{}\" {} {} {} {} {} {}{}", self.i, value, rest[0], rest[1], self.size, rest[2], if self.visible { "V" } else { "I" }, rest[3], extra)
    }
}

impl Pin {
    fn number(&self, k: usize) -> String {
        self.number.clone().unwrap_or((k + 1).to_string())
    }
}

impl Draw {
    fn line(&self, k: usize) -> String {
        match *self {
            Draw::Pin(ref p) => {
                let shape = if p.visible { p.shape.clone() } else { format!("N{}", p.shape) };
                format!("X {} {} {} {} {} {} {} {} {} {} {}{}{}", p.name, p.number(k), p.x, p.y, p.len, p.dir, p.num_size, p.name_size, p.unit, p.convert, p.kind, if shape.is_empty() { "" } else { " " }, shape)
            }
            Draw::Rect(t, ref f) => format!("S {} -100 100 100 0 1 {} {}", -100 - k as i64, t, f),
            Draw::Box(b, t, ref f) => format!("S {} {} {} {} {} {} {} {}", b[0], b[1], b[2], b[3], b[4], b[5], t, f),
            Draw::Other(ref s) => s.clone(),
        }
    }
}

impl Symbol {
    fn text(&self) -> String {
        let mut s = format!("#\n# {}\n#\nDEF {} {} 0 40 Y Y 1 F {}\n", self.name, self.name, self.reference, if self.power { "P" } else { "N" });
        for f in &self.fields {
            s.push_str(&f.line());
            s.push('\n');
        }
        s.push_str("DRAW\n");
        for (k, d) in self.draw.iter().enumerate() {
            s.push_str(&d.line(k));
            s.push('\n');
        }
        s.push_str("ENDDRAW\nENDDEF\n");
        s
    }
    fn pins(&self) -> usize {
        self.draw.iter().filter(|d| matches!(d, Draw::Pin(_))).count()
    }
    fn graphic(&self) -> bool {
        self.reference.starts_with('#') && self.pins() == 0
    }
    fn supply(&self) -> bool {
        self.reference == "#PWR" && self.pins() == 1
    }
    /// the rules it breaks, for its name, each field and each drawing in turn
    fn broken(&self) -> Vec<Vec<Finding>> {
        let mut all = vec![];
        let plain: String = self.name.strip_prefix('~').unwrap_or(&self.name).to_string();
        all.push(disallowed(&plain).iter().map(|_| (1, 7, plain.clone(), false)).collect());
        for f in &self.fields {
            let mut v = vec![];
            if f.size != 50 {
                v.push((4, 8, f.line(), false))
            }
            let want = match f.i {
                0 | 1 if self.graphic() => Some(false),
                0 if self.supply() => None,
                1 if self.supply() => Some(false),
                0 | 1 => Some(true),
                2 | 3 => Some(false),
                _ => None,
            };
            if want.is_some() && want != Some(f.visible) {
                v.push((4, 9, self.name.clone(), false))
            }
            all.push(v)
        }
        if !self.graphic() && !self.supply() {
            for (k, d) in self.draw.iter().enumerate() {
                let mut v = vec![];
                match *d {
                    Draw::Pin(ref p) => {
                        let item = format!("{}:{}", p.name, p.number(k));
                        let mut add = |broken: bool, r: i64, info: bool| {
                            if broken {
                                v.push((4, r, item.clone(), info))
                            }
                        };
                        let on = |v: i64, g: i64| v / g * g == v;
                        add(!on(p.x, 100), 1, false);
                        add(!on(p.y, 100), 1, false);
                        add(!on(p.len, 50), 1, false);
                        add(p.len < 100, 1, true);
                        add(p.len > 300, 1, true);
                        let nc = p.kind == "N";
                        add(p.name.to_uppercase().contains("NC") && !nc, 7, false);
                        add(nc == p.visible, 7, false);
                        add(p.num_size != 50, 8, false);
                        add(p.name_size != 50, 8, false);
                    }
                    Draw::Rect(t, ref fill) | Draw::Box(_, t, ref fill) => {
                        if fill != "f" {
                            v.push((4, 2, d.line(k), false))
                        }
                        if t != 10 {
                            v.push((4, 2, d.line(k), false))
                        }
                    }
                    Draw::Other(_) => (),
                }
                all.push(v)
            }
        }
        all.retain(|v| !v.is_empty());
        for v in &mut all {
            v.sort()
        }
        all
    }
}

/// the characters that are not allowed in a name, with their positions
fn disallowed(s: &str) -> Vec<(usize, char)> {
    s.chars().enumerate().filter(|&(_, c)| !(c.is_ascii_alphanumeric() || c == '_' || c == '-' || c == '.')).collect()
}

fn flat(d: &CheckFixData, out: &mut Vec<(Finding, String)>) {
    match *d {
        CheckFixData::Item(ref i) => out.push(((i.section, i.rule, i.item.clone(), i.info), i.message.clone())),
        CheckFixData::More(ref m) => {
            for d in m {
                flat(d, out)
            }
        }
    }
}

/// a number is named in a text
fn mentions(text: &str, n: usize) -> bool {
    text.split(|c: char| !c.is_ascii_digit()).any(|w| w == n.to_string())
}

fn names(items: &[(Finding, String)], s: &str) -> Result<(), (String, String)> {
    let want = disallowed(s);
    if items.len() != want.len() {
        return Err(bad("name", format!("{:?} instead of {:?} for {:?}", items, want, s)));
    }
    for ((i, c), got) in want.iter().zip(items) {
        if !got.1.contains(*c) || !mentions(&got.1.replace(s, ""), *i) {
            return Err(bad("name-position", format!("{:?} does not name {:?} at {} of {:?}", got, c, i, s)));
        }
    }
    Ok(())
}

fn library(syms: &[&Symbol]) -> String {
    let mut s = "EESchema-LIBRARY Version 2.3\n#encoding utf-8\n".to_string();
    for y in syms {
        s.push_str(&y.text())
    }
    s.push_str("#\n#End Library\n");
    s
}

fn check(syms: &[&Symbol]) -> Result<String, (String, String)> {
    let s = library(syms);
    let lib = sl::parse_str(&s).map_err(|e| bad("read", format!("{}\n{}", e, s)))?;
    if lib.symbols.len() != syms.len() {
        return Err(bad("count", format!("{} of {} symbols\n{}", lib.symbols.len(), syms.len(), s)));
    }
    let config = Config::klc();
    let mut n = 0;
    for (y, v) in syms.iter().zip(&lib.symbols) {
        if v.is_power() != y.supply() || v.is_graphics() != y.graphic() {
            return Err(bad("class", format!("power {} graphic {} for\n{}", v.is_power(), v.is_graphics(), y.text())));
        }
        let basic = ["L", "R", "C", "D"].contains(&&y.name[..]);
        if v.is_basic() != basic {
            return Err(bad("basic", y.text()));
        }
        let want = y.broken();
        let got = v.check(&config);
        let mut groups = vec![];
        for d in &got {
            let mut g = vec![];
            flat(d, &mut g);
            if g.first().map(|f| f.0 .1) == Some(7) && g[0].0 .0 == 1 {
                names(&g, y.name.strip_prefix('~').unwrap_or(&y.name))?
            }
            let mut g: Vec<Finding> = g.into_iter().map(|f| f.0).collect();
            g.sort();
            // a single finding is not wrapped up
            if g.len() == 1 && matches!(d, CheckFixData::More(_)) {
                return Err(bad("wrapped", format!("{:?}", d)));
            }
            groups.push(g)
        }
        if groups != want {
            return Err(bad("findings", format!("{:?} instead of {:?} for\n{}", groups, want, y.text())));
        }
        n += want.iter().map(|w| w.len()).sum::<usize>();
    }
    Ok(format!("{} findings", n))
}

fn predicate(s: &str) -> Result<String, (String, String)> {
    let want = disallowed(s);
    if checkfix::is_allowed_1_7(s) != want.is_empty() {
        return Err(bad("allowed", format!("{:?}", s)));
    }
    let mut items = vec![];
    for d in checkfix::allowed_1_7_items(s) {
        flat(&d, &mut items)
    }
    if items.iter().any(|i| i.0 != (1, 7, s.to_string(), false)) {
        return Err(bad("allowed-item", format!("{:?} for {:?}", items, s)));
    }
    names(&items, s)?;
    Ok(format!("{} characters", want.len()))
}

const XS: [i64; 8] = [0, 100, -300, 50, 10, 1, -50, 99];
const LENS: [i64; 11] = [200, 100, 300, 0, 50, 350, 25, 99, 301, 275, -100];
const PNAMES: [&str; 10] = ["A", "NC", "nc", "Nc1", "SYNC", "~", "N", "N.C.", "~RESET", "C"];
const TYPES: [&str; 11] = ["I", "O", "B", "T", "P", "U", "W", "w", "C", "E", "N"];
const SIZES: [i64; 5] = [50, 0, 49, 51, -50];
const SHAPES: [&str; 4] = ["", "I", "CL", "X"];

fn pin_dims() -> Vec<usize> {
    vec![PNAMES.len(), XS.len(), XS.len(), LENS.len(), SIZES.len(), SIZES.len(), TYPES.len(), 2, SHAPES.len()]
}
fn pin(d: &[usize]) -> Draw {
    Draw::Pin(Pin {
        name: PNAMES[d[0]].into(),
        number: None,
        dir: 'R',
        unit: 1,
        convert: 1,
        x: XS[d[1]],
        y: XS[d[2]],
        len: LENS[d[3]],
        num_size: SIZES[d[4]],
        name_size: SIZES[d[5]],
        kind: TYPES[d[6]].into(),
        visible: d[7] == 0,
        shape: SHAPES[d[8]].into(),
    })
}

const REST: &str = "0 100 H C CNN";

fn fields() -> Vec<Field> {
    (0..4)
        .map(|i| Field {
            i,
            size: 50,
            visible: i < 2,
            value: None,
            rest: REST.into(),
        })
        .collect()
}

const REFS: [&str; 6] = ["U", "#PWR", "#FLG", "#", "#PWR1", "PWR"];

fn good() -> Symbol {
    Symbol {
        name: "A".into(),
        reference: "U".into(),
        power: false,
        fields: fields(),
        draw: vec![pin(&[0; 9]), Draw::Rect(10, "f".into())],
    }
}

fn several(good: &Symbol) -> Vec<Symbol> {
    let mut syms = vec![good.clone()];
    for (name, r, np, v) in [("L", "L", 2, true), ("~GND", "#PWR", 1, false), ("GND", "#PWR", 1, true), ("LOGO", "#LOGO", 0, true), ("a/b", "U", 3, false), ("#x", "#PWR", 2, false)] {
        let mut y = good.clone();
        y.name = name.into();
        y.reference = r.into();
        for f in &mut y.fields {
            f.visible = v
        }
        y.draw = (0..np).map(|i| pin(&[0, i, 0, 0, 0, 0, 0, 0, 0])).collect();
        y.draw.push(Draw::Rect(0, "N".into()));
        syms.push(y)
    }
    syms
}

/// libraries with conforming and faulty symbols
pub fn libraries(k: usize) -> Vec<String> {
    let g = good();
    let syms = several(&g);
    let mut v: Vec<String> = sequences(syms.len(), k).iter().map(|q| library(&q.iter().map(|&i| &syms[i]).collect::<Vec<_>>())).collect();
    for d in deviations(&pin_dims(), k) {
        let mut y = g.clone();
        y.draw = vec![pin(&d)];
        v.push(library(&[&y]))
    }
    v
}

/// every number, every word and every class of symbol, one place at a time
fn wide(good: &Symbol) -> Vec<(String, Symbol)> {
    let mut v: Vec<(String, Symbol)> = vec![];
    let ints: Vec<i64> = shape::ints().into_iter().chain(-420..=420).chain([49, 50, 51].iter().flat_map(|k| [1i64 << 8, 1 << 16, 1 << 31, 1 << 32].iter().flat_map(move |b| vec![k + b, k - b]))).chain((1..2000).map(|k| k * 50)).collect();
    let base = match pin(&[0; 9]) {
        Draw::Pin(p) => p,
        _ => unreachable!(),
    };
    let with = |p: Pin| {
        let mut y = good.clone();
        y.draw = vec![Draw::Pin(p)];
        y
    };
    for &i in &ints {
        let set: [(&str, fn(&mut Pin, i64)); 7] = [("x", |p, i| p.x = i), ("y", |p, i| p.y = i), ("len", |p, i| p.len = i), ("num", |p, i| p.num_size = i), ("nam", |p, i| p.name_size = i), ("unit", |p, i| p.unit = i), ("convert", |p, i| p.convert = i)];
        for (what, f) in &set {
            for kind in ["I", "N"] {
                let mut p = base.clone();
                p.kind = kind.into();
                p.visible = kind != "N";
                f(&mut p, i);
                v.push((format!("pin:{}:{}:{}", what, i, kind), with(p)))
            }
        }
        for k in 0..7 {
            for fill in ["f", "N", "F"] {
                let mut b = [-100, -100, 100, 100, 0, 1, 10];
                b[k] = i;
                let mut y = good.clone();
                y.draw = vec![Draw::Box([b[0], b[1], b[2], b[3], b[4], b[5]], b[6], fill.into())];
                v.push((format!("box:{}:{}:{}", k, i, fill), y.clone()));
                if let Draw::Box(_, ref mut t, _) = y.draw[0] {
                    *t = 11
                }
                v.push((format!("thick:{}:{}:{}", k, i, fill), y))
            }
        }
        for n in 0..5 {
            let mut y = good.clone();
            if n == 4 {
                let mut f = y.fields[3].clone();
                f.i = 4;
                y.fields.push(f)
            }
            y.fields[n].size = i;
            v.push((format!("field:{}:{}", n, i), y))
        }
        if i > 3 {
            let mut y = good.clone();
            y.fields[3].i = i as usize;
            for visible in [false, true] {
                y.fields[3].visible = visible;
                v.push((format!("number:{}:{}", i, visible), y.clone()))
            }
        }
    }
    let texts: Vec<String> = shape::texts("\"\\").into_iter().chain(["NC", "~NC", "aNCb", "SYNC", "#PWR", "#FLG", "U?", "~"].iter().flat_map(|w| shape::near(w))).filter(|w| !w.contains('"') && !w.contains('\\')).collect();
    for w in &texts {
        for n in 0..4 {
            for (size, visible) in [(50, true), (50, false), (40, n < 2)] {
                let mut y = good.clone();
                y.fields[n].value = Some(w.clone());
                y.fields[n].size = size;
                y.fields[n].visible = visible;
                v.push((format!("value:{}:{}:{}:{:?}", n, size, visible, w), y))
            }
        }
        if w.is_empty() || w.contains(|c: char| c.is_whitespace()) {
            continue;
        }
        for kind in TYPES {
            for visible in [true, false] {
                let mut p = base.clone();
                p.kind = kind.into();
                p.visible = visible;
                p.name = w.clone();
                v.push((format!("pname:{}:{}:{:?}", kind, visible, w), with(p.clone())));
            }
        }
        let mut p = base.clone();
        p.number = Some(w.clone());
        p.x = 1;
        p.num_size = 1;
        v.push((format!("pnum:{:?}", w), with(p)));
        for visible in [true, false] {
            for np in 0..3 {
                let mut y = good.clone();
                y.reference = w.clone();
                for f in &mut y.fields {
                    f.visible = visible
                }
                y.draw = (0..np).map(|_| pin(&[0, 3, 0, 0, 0, 0, 0, 0, 0])).collect();
                y.draw.push(Draw::Rect(0, "N".into()));
                v.push((format!("ref:{}:{}:{:?}", visible, np, w), y))
            }
        }
        for size in [50, 40] {
            let mut y = good.clone();
            y.name = w.clone();
            y.fields[0].size = size;
            y.fields[2].visible = true;
            v.push((format!("name:{}:{:?}", size, w), y))
        }
    }
    for rest in product(&[3, 3, 2, 3, 3, 2, 2]) {
        let xs = ["0", "-100", "12.5"];
        let r = format!("{} {} {} {} {}{}{}", xs[rest[0]], xs[rest[1]], ["H", "V"][rest[2]], ["C", "L", "R"][rest[3]], ["C", "T", "B"][rest[4]], ["N", "I"][rest[5]], ["N", "B"][rest[6]]);
        for n in 0..4 {
            for (size, visible) in [(50, n < 2), (40, n > 1)] {
                let mut y = good.clone();
                y.fields[n].rest = r.clone();
                y.fields[n].size = size;
                y.fields[n].visible = visible;
                v.push((format!("rest:{}:{}:{}", n, size, r), y))
            }
        }
    }
    for dir in ['R', 'L', 'U', 'D'] {
        for d in deviations(&pin_dims(), 2) {
            if let Draw::Pin(mut p) = pin(&d) {
                p.dir = dir;
                v.push((format!("dir:{}:{:?}", dir, d), with(p)))
            }
        }
    }
    for n in shape::counts(60) {
        for (what, d) in [("good", pin(&[0; 9])), ("bad", pin(&[0, 3, 0, 0, 1, 0, 0, 0, 0])), ("box", Draw::Rect(0, "N".into())), ("line", Draw::Other("P 2 0 1 0 0 0 1 1 N".into()))] {
            for r in REFS {
                let mut y = good.clone();
                y.reference = r.into();
                y.draw = vec![d.clone(); n];
                y.draw.push(pin(&[1, 1, 3, 0, 0, 0, 0, 0, 0]));
                v.push((format!("many:{}:{}:{}", what, r, n), y))
            }
        }
        for k in 0..5 {
            let mut y = good.clone();
            let f = Field {
                i: k,
                size: 40,
                visible: k > 1,
                value: None,
                rest: REST.into(),
            };
            y.fields.extend(vec![f; n]);
            v.push((format!("fields:{}:{}", k, n), y))
        }
    }
    v
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough();
    let good = good();
    // names: every ASCII character and some others, at every place of a short name
    let mut words: Vec<String> = vec!["".into(), "A~".into(), "~".into(), "~~".into(), "R".into(), "LM317_DIP-8.1".into()];
    let mut chars: Vec<char> = (32u8..127).map(|c| c as char).collect();
    chars.extend_from_slice(&['\t', '\u{e9}', '\u{3a9}', '\u{661}', '\u{1f600}', '\u{7f}', '\u{ff21}']);
    for &c in &chars {
        for w in ["", "x", "xyz9"] {
            for i in 0..=w.len() {
                let mut s = w.to_string();
                s.insert(i, c);
                words.push(s)
            }
        }
    }
    let few = ['A', '7', '_', '~', '/', '.', '\u{e9}', '-', '+', 'z'];
    for s in sequences(few.len(), if t { 5 } else { 4 }) {
        words.push(s.iter().map(|&i| few[i]).collect())
    }
    let long: String = (0..40).map(|i| if i % 10 == 3 { '#' } else { 'a' }).collect();
    words.push(long);
    for w in &words {
        ctx.step();
        if !ctx.state(&("name", w)) {
            continue;
        }
        ctx.sample("name", || w.clone());
        ctx.case(&format!("name:{}", w), || predicate(w));
        if !w.is_empty() && !w.contains(|c: char| c.is_whitespace() || c == '"' || c == '\\') {
            let mut y = good.clone();
            y.name = w.clone();
            ctx.case(&format!("named:{}", w), || check(&[&y]));
        }
    }
    // pins, one at a time
    let pins = deviations(&pin_dims(), if t { 7 } else { 5 });
    parallel(ctx, |c, shard, of| {
        for (k, d) in pins.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            c.step();
            let mut y = good.clone();
            y.draw = vec![pin(d)];
            if !c.state(&y) {
                continue;
            }
            c.sample("pin", || y.text());
            c.case(&format!("pin:{:?}", d), || check(&[&y]));
        }
    });
    let all = wide(&good);
    parallel(ctx, |c, shard, of| {
        for (k, (label, y)) in all.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            c.step();
            if c.state(y) {
                c.sample("wide", || y.text());
                c.case(&format!("wide:{}", label), || check(&[y]));
            }
        }
    });
    // rectangles
    for th in [10, 0, 9, 11, -10, 100] {
        for f in ["f", "F", "N"] {
            for r in REFS {
                ctx.step();
                let mut y = good.clone();
                y.reference = r.into();
                y.draw = vec![Draw::Rect(th, f.into())];
                if ctx.state(&y) {
                    ctx.case(&format!("rect:{}:{}:{}", th, f, r), || check(&[&y]));
                }
            }
        }
    }
    // fields, for every class of symbol
    let fs = product(&[4, 2, 3, 2, 2, 2, 2, 2, 2, 2]);
    parallel(ctx, |c, shard, of| {
        for (k, d) in fs.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            for r in REFS {
                for np in 0..3 {
                    for power in [false, true] {
                        let size = |i: usize| [50, 40, 0, 51][i];
                        let f = |i: usize, s: usize, v: usize| Field {
                            i,
                            size: size(s),
                            visible: v == 0,
                            value: None,
                            rest: REST.into(),
                        };
                        let list = vec![f(0, d[0], d[1]), f(1, d[2], d[3]), f(2, d[4], d[5]), f(3, d[6], d[7]), f(4, d[8], d[9])];
                        for take in [5, 4, 1, 0] {
                            c.step();
                            let y = Symbol {
                                name: "A".into(),
                                reference: r.into(),
                                power,
                                fields: list[..take].to_vec(),
                                // one conforming, one faulty
                                draw: (0..np).map(|i| if i == 1 { pin(&[0; 9]) } else { pin(&[0, 3, 0, 0, 1, 0, 0, 0, 0]) }).collect(),
                            };
                            if !c.state(&y) {
                                continue;
                            }
                            c.sample("fields", || y.text());
                            c.case(&format!("fields:{:?}:{}:{}:{}:{}", d, r, np, power, take), || check(&[&y]));
                        }
                    }
                }
            }
        }
    });
    // sequences of drawings
    let menu = vec![
        pin(&[0; 9]),
        pin(&[1, 0, 0, 0, 0, 0, 10, 1, 0]),
        pin(&[1, 3, 4, 6, 1, 1, 0, 1, 1]),
        pin(&[0, 0, 0, 5, 0, 0, 10, 0, 0]),
        Draw::Rect(10, "f".into()),
        Draw::Rect(0, "N".into()),
        Draw::Other("P 2 0 1 0 -100 0 100 0 N".into()),
        Draw::Other("C 0 0 50 0 1 0 F".into()),
    ];
    let seqs = sequences(menu.len(), if t { 5 } else { 4 });
    parallel(ctx, |c, shard, of| {
        for (k, q) in seqs.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            for r in REFS {
                c.step();
                let mut y = good.clone();
                y.reference = r.into();
                y.draw = q.iter().map(|&i| menu[i].clone()).collect();
                if !c.state(&y) {
                    continue;
                }
                c.sample("drawings", || y.text());
                c.case(&format!("draw:{:?}:{}", q, r), || check(&[&y]));
            }
        }
    });
    // libraries of several symbols
    let syms = several(&good);
    for q in sequences(syms.len(), if t { 5 } else { 4 }) {
        ctx.step();
        if ctx.state(&("library", &q)) {
            let l: Vec<&Symbol> = q.iter().map(|&i| &syms[i]).collect();
            ctx.case(&format!("library:{:?}", q), || check(&l));
        }
    }
}
