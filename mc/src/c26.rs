use crate::core::*;
use crate::shape;
use crate::slgen;
use kicad_parse_gen::checkfix::{CheckFixData, CheckFixItem, Config};
use kicad_parse_gen::schematic as sc;
use kicad_parse_gen::symbol_lib as sl;
use std::collections::BTreeMap;

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

fn show<T: std::fmt::Debug>(t: &T) -> String {
    format!("{:?}", t)
}

fn eq(what: &str, got: String, want: String) -> Result<(), (String, String)> {
    if got == want {
        Ok(())
    } else {
        Err(bad(what, format!("{} instead of {}", got, want)))
    }
}

const NAMES: &[&str] = &["U", "~U", "~", "", "R", "L", "C", "D", "~R", "RR", "r", "\u{e9}1", "~~X", "CS~", "A~B", " ~", "-~"];
const REFS: &[&str] = &["U", "#PWR", "#PWR1", "#pwr", "#", "#FLG", "", "PWR", "U#"];
/// which of the reserved and user fields are there, in file order
const FIELDS: &[&[i64]] = &[&[0, 1, 2, 3], &[], &[0], &[0, 1], &[0, 2], &[2, 0, 1], &[1], &[0, 1, 2, 3, 4]];
const NEW: &[&str] = &["X", "", "~Y", "\u{e9}", "R", "a-long.name"];

fn symbol(name: usize, reference: usize, fields: usize, draws: &[usize]) -> sl::Symbol {
    let mut s = sl::Symbol::new(NAMES[name].into(), REFS[reference].into());
    for &i in FIELDS[fields] {
        s.fields.push(slgen::field(i, if i > 3 { Some("MPN") } else { None }, &[i as usize % 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]).1);
    }
    s.draw = draws.iter().map(|&d| slgen::draw(d).1).collect();
    s
}

fn history(name: usize, reference: usize, fields: usize, draws: &[usize], ops: &[usize]) -> Result<String, (String, String)> {
    let mut s = symbol(name, reference, fields, draws);
    s.aliases = vec!["U".into(), NAMES[name].into()];
    s.footprint_filters = vec!["U".into()];
    let ops: Vec<&str> = ops.iter().map(|&k| NEW[k]).collect();
    renamed(s, &ops)
}

/// a symbol renamed to each of the names in turn
fn renamed(mut s: sl::Symbol, ops: &[&str]) -> Result<String, (String, String)> {
    let mut want_name = s.name.clone();
    let reference = s.reference.clone();
    let mut want = s.clone();
    let mut changed = 0;
    for k in std::iter::once(None).chain(ops.iter().map(Some)) {
        if let Some(&k) = k {
            s.set_name(k);
            let hidden = want_name.starts_with('~');
            let new = if hidden { format!("~{}", k) } else { k.to_string() };
            changed += (new != want_name) as usize;
            want_name = new;
            want.name = want_name.clone();
            if let Some(f) = want.fields.iter_mut().find(|f| f.i == 1) {
                f.value = k.to_string();
            }
        }
        let before = show(&s);
        eq("symbol", before.clone(), show(&want))?;
        let pins: Vec<&sl::Draw> = want.draw.iter().filter(|d| matches!(d, sl::Draw::Pin(_))).collect();
        let got: Vec<sl::Draw> = s.pins().into_iter().map(|p| sl::Draw::Pin(p.clone())).collect();
        eq("pins", show(&got), show(&pins))?;
        eq("power", show(&s.is_power()), show(&(reference == "#PWR" && pins.len() == 1)))?;
        eq("graphics", show(&s.is_graphics()), show(&(reference.starts_with('#') && pins.is_empty())))?;
        eq("basic", show(&s.is_basic()), show(&["L", "R", "C", "D"].contains(&&want_name[..])))?;
        eq("query", show(&s), before)?;
    }
    Ok(format!("renamed {} of {}", changed, ops.len()))
}

/// names and references of every form and nearly those that count, any number of fields and drawings
fn wide(ctx: &mut Ctx) {
    let texts = shape::texts("");
    let mut jobs: Vec<(String, sl::Symbol, Vec<String>)> = vec![];
    let base = |n: &str, r: &str, draws: &[usize]| {
        let mut s = symbol(0, 0, 7, draws);
        s.name = n.into();
        s.reference = r.into();
        s.aliases = vec![n.into()];
        s
    };
    let mut names: Vec<String> = texts.clone();
    for w in ["~U", "R", "L", "~C", "~", "LM317"] {
        names.extend(shape::near(w))
    }
    names.sort();
    names.dedup();
    for n in &names {
        jobs.push((format!("from:{:?}", n), base(n, "U", &[0]), vec!["X".into(), n.clone()]));
        jobs.push((format!("to:{:?}", n), base("~U", "U", &[0]), vec![n.clone(), "X".into()]));
        jobs.push((format!("plain:{:?}", n), base("U", "U", &[0]), vec![n.clone(), n.clone()]));
    }
    let mut refs: Vec<String> = texts;
    for w in ["#PWR", "#FLG", "#", "PWR"] {
        refs.extend(shape::near(w))
    }
    let pin = (0..).find(|&d| matches!(slgen::draw(d).1, sl::Draw::Pin(_))).unwrap();
    let other = (0..).find(|&d| !matches!(slgen::draw(d).1, sl::Draw::Pin(_))).unwrap();
    for r in &refs {
        for d in [&[][..], &[pin], &[other], &[other, pin], &[pin, pin]] {
            jobs.push((format!("ref:{:?}:{:?}", r, d), base("U", r, d), vec!["R".into()]));
        }
    }
    for n in shape::counts(60) {
        for r in ["U", "#PWR", "#"] {
            jobs.push((format!("pins:{}:{}", r, n), base("U", r, &vec![pin; n]), vec![]));
            let mut mixed = vec![other; n];
            mixed.push(pin);
            jobs.push((format!("others:{}:{}", r, n), base("U", r, &mixed), vec![]));
        }
        let mut s = base("U", "U", &[]);
        for k in 0..n {
            let f = slgen::field(4 + k as i64, Some("MPN"), &[0; 12]).1;
            s.fields.insert(0, f);
        }
        jobs.push((format!("fields:{}", n), s, vec!["X".into(), "Y".into()]));
    }
    for i in shape::ints() {
        let mut s = base("U", "U", &[]);
        s.fields = vec![slgen::field(0, None, &[0; 12]).1, slgen::field(4, Some("MPN"), &[0; 12]).1];
        s.fields[1].i = i;
        jobs.push((format!("number:{}", i), s, vec!["X".into()]));
    }
    parallel(ctx, |c, shard, of| {
        for (k, (label, s, ops)) in jobs.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            c.transitions += ops.len() as u64;
            if !c.state(&(show(s), ops)) {
                continue;
            }
            c.sample("wide", || format!("{} {:?}", label, ops));
            let o: Vec<&str> = ops.iter().map(|o| &o[..]).collect();
            c.case(&format!("wide:{}", label), || renamed(s.clone(), &o));
        }
    });
    for (i, (n, v)) in names.iter().zip(names.iter().rev()).enumerate() {
        ctx.step();
        ctx.state(&("made", n, v));
        ctx.case(&format!("made:{:?}:{:?}", n, v), || {
            let s = sl::Symbol::new(n.clone(), v.clone());
            eq("new", show(&(&s.name, &s.reference)), show(&(n, v)))?;
            let f = sc::ComponentField::new_from(i as i64, n.clone(), v.clone(), 1.0, 2.0);
            eq("field", show(&(f.i, &f.name, &f.value, f.x, f.y)), show(&(i as i64, n, v, 1.0, 2.0)))?;
            let d = CheckFixItem::new(1, 2, n.clone(), v.clone());
            eq("entry", show(&(d.section, d.rule, &d.item, &d.message, d.info)), show(&(1, 2, n, v, false)))?;
            Ok("made".into())
        });
    }
    for x in shape::reals() {
        ctx.step();
        ctx.state(&("place", x.to_bits()));
        ctx.case(&format!("place:{}", x), || {
            let f = sc::ComponentField::new_from(4, "n".into(), "v".into(), x, -x);
            eq("field", show(&(f.x, f.y)), show(&(x, -x)))?;
            Ok("made".into())
        });
    }
    ctx.case("defaults", || {
        let d = sc::Schematic::default();
        eq("default", show(&(d.filename.is_none(), d.libraries.len(), d.elements.len(), d.sheets.len())), show(&(true, 0, 0, 0)))?;
        let p = sc::Description::default();
        eq("default", show(&(&p.size[..], p.dimx, p.dimy, p.portrait, p.sheet, p.sheet_count)), show(&("A4", 11693, 8268, false, 1, 1)))?;
        let s = sc::Sheet::default();
        eq("default", show(&(s.x, s.y, s.dimx, s.dimy, s.name_size, s.filename_size, s.labels.len())), show(&(0, 0, 0, 0, 60, 60, 0)))?;
        let l = sc::SheetLabel::default();
        eq("default", show(&(&l.name[..], l.x, l.y, l.size, &l.form, &l.side)), show(&("", 0, 0, 60, sc::LabelForm::Input, sc::LabelSide::Left)))?;
        let f = sl::Field::default();
        eq("default", show(&(f.i, &f.value[..], f.x, f.y, f.dimension, f.visible, f.italic, f.bold, &f.name[..])), show(&(0, "", 0.0, 0.0, 0, false, false, false, "")))?;
        use kicad_parse_gen::checkfix::KLCSection::*;
        let sections = vec![General, SymbolLibraryNames, SymbolNames, SymbolRules, FootprintLibraryNames, FootprintNames, FootprintRules, SMDRules, THTRules, FootprintProperties];
        for (i, s) in sections.into_iter().enumerate() {
            let n: i64 = s.into();
            eq("section", show(&n), show(&(i + 1)))?;
        }
        Ok("defaults".into())
    });
}

/// a fresh symbol or field
fn fresh(ctx: &mut Ctx) {
    for n in NAMES {
        for r in REFS {
            ctx.step();
            ctx.state(&("new", n, r));
            ctx.case(&format!("new:{}:{}", n, r), || {
                let s = sl::Symbol::new(n.to_string(), r.to_string());
                let want = sl::Symbol {
                    name: n.to_string(),
                    reference: r.to_string(),
                    text_offset: 0.0,
                    draw_pinnumber: false,
                    draw_pinname: false,
                    unit_count: 1,
                    unit_locked: false,
                    is_power: false,
                    fields: vec![],
                    aliases: vec![],
                    footprint_filters: vec![],
                    draw: vec![],
                };
                eq("new", show(&s), show(&want))?;
                Ok("new symbol".into())
            });
            for i in [0, 1, 3, 4, 100, -1] {
                for (x, y) in [(0.0, 0.0), (1.5, -2.0), (-3.0, 7.0)] {
                    ctx.step();
                    ctx.state(&("field", n, r, i, show(&(x, y))));
                    ctx.case(&format!("field:{}:{}:{}:{}", n, r, i, x), || {
                        let f = sc::ComponentField::new_from(i, n.to_string(), r.to_string(), x, y);
                        let want = sc::ComponentField {
                            i,
                            name: n.to_string(),
                            value: r.to_string(),
                            orientation: sc::Orientation::Horizontal,
                            hjustify: sc::Justify::Center,
                            vjustify: sc::Justify::Center,
                            italic: false,
                            bold: false,
                            visible: false,
                            size: 60,
                            x,
                            y,
                        };
                        eq("field", show(&f), show(&want))?;
                        Ok("new field".into())
                    });
                }
            }
        }
    }
}

fn finds(ctx: &mut Ctx) {
    let all: Vec<sl::Symbol> = vec![symbol(0, 0, 0, &[]), symbol(0, 1, 1, &[0]), symbol(4, 0, 2, &[0, 1]), symbol(1, 3, 0, &[2]), symbol(4, 1, 0, &[0])];
    for q in sequences(all.len(), if ctx.thorough() { 6 } else { 5 }) {
        ctx.transitions += q.len() as u64;
        if !ctx.state(&("lib", &q)) {
            continue;
        }
        ctx.case(&format!("lib:{:?}", q), || {
            let mut l = sl::SymbolLib::default();
            l.symbols = q.iter().map(|&k| all[k].clone()).collect();
            let before = show(&l);
            let filters: Vec<Box<dyn Fn(&sl::Symbol) -> bool>> = vec![
                Box::new(|_| true),
                Box::new(|_| false),
                Box::new(|s| s.name == "U"),
                Box::new(|s| s.name == "R"),
                Box::new(|s| s.reference == "#PWR"),
                Box::new(|s| s.draw.len() > 1),
                Box::new(|s| s.fields.is_empty()),
            ];
            let mut hits = 0;
            for f in &filters {
                let want = q.iter().position(|&k| f(&all[k]));
                let got = l.find(|s| f(s)).map(|s| l.symbols.iter().position(|t| std::ptr::eq(s, t)));
                eq("find", show(&got), show(&want.map(Some)))?;
                hits += want.is_some() as usize;
            }
            eq("library", show(&l), before)?;
            Ok(format!("{} found", hits))
        });
    }
}

fn sheets(ctx: &mut Ctx) {
    let comp = |name: &str, r: &str| {
        let mut c = sc::Component::default();
        c.name = name.into();
        c.reference = r.into();
        c.x = r.len() as i64;
        sc::Element::Component(c)
    };
    let all: Vec<Box<dyn Fn() -> sc::Element>> = vec![
        Box::new(move || comp("R", "R1")),
        Box::new(move || comp("C", "R1")),
        Box::new(move || comp("", "#PWR01")),
        Box::new(|| sc::Element::Wire(sc::Wire { type_: sc::WireType::Wire, x1: 1, y1: 2, x2: 3, y2: 4 })),
        Box::new(|| sc::Element::Connection(sc::Connection { x: 1, y: 2 })),
        Box::new(|| sc::Element::NoConnect(sc::NoConnect { x: 1, y: 2 })),
        Box::new(|| sc::Element::Other("$Comp".into())),
    ];
    for q in sequences(all.len(), if ctx.thorough() { 5 } else { 4 }) {
        ctx.transitions += q.len() as u64;
        if !ctx.state(&("sheet", &q)) {
            continue;
        }
        ctx.case(&format!("sheet:{:?}", q), || {
            let mut s = sc::Schematic::default();
            s.elements = q.iter().map(|&k| all[k]()).collect();
            s.description.sheet_count = q.len() as i64 - 1;
            s.sheets.push(sc::Sheet::default());
            let want: Vec<String> = q.iter().filter(|&&k| k < 3).map(|&k| match all[k]() {
                sc::Element::Component(c) => show(&c),
                _ => unreachable!(),
            }).collect();
            let before = show(&s);
            let texts = |v: &[sc::Component]| v.iter().map(show).collect::<Vec<_>>();
            eq("components", show(&texts(&s.components())), show(&want))?;
            let mut v = vec![];
            for round in 1..3 {
                s.collect_components(&mut v);
                let w: Vec<String> = (0..round).flat_map(|_| want.clone()).collect();
                eq("collect", show(&texts(&v)), show(&w))?;
            }
            eq("schematic", show(&s), before)?;
            // counting sheets
            let mut t = sc::Schematic::default();
            t.elements = q.iter().map(|&k| all[k]()).collect();
            t.sheets.push(sc::Sheet::default());
            for n in 0..3 {
                t.description.sheet_count = q.len() as i64 - 1 + n;
                eq("count", show(&s), show(&t))?;
                s.increment_sheet_count();
            }
            Ok(format!("{} components", want.len()))
        });
    }
    for n in shape::ints() {
        if n == i64::max_value() {
            continue;
        }
        ctx.step();
        ctx.state(&("count", n));
        ctx.case(&format!("count:{}", n), || {
            let mut s = sc::Schematic::default();
            s.description.sheet_count = n;
            s.increment_sheet_count();
            let mut t = sc::Schematic::default();
            t.description.sheet_count = n + 1;
            eq("count", show(&s), show(&t))?;
            Ok("counted".into())
        });
    }
}

/// findings in findings
#[derive(Clone, Debug, Hash)]
enum T {
    I(usize),
    M(Vec<T>),
}

fn data(t: &T) -> CheckFixData {
    match t {
        T::I(0) => CheckFixData::new(1, 7, "an item", "a message"),
        T::I(1) => CheckFixData::info(10, 2, 'x', String::from("note")),
        T::I(_) => CheckFixData::Item(CheckFixItem::new(4, 1, 17, "")),
        T::M(v) => CheckFixData::More(v.iter().map(data).collect()),
    }
}

fn trees(depth: usize, width: usize) -> Vec<T> {
    let mut all = vec![T::I(0), T::I(1), T::I(2)];
    for _ in 0..depth {
        let below = all.clone();
        all = vec![T::I(0), T::I(1), T::I(2)];
        for q in sequences(below.len(), width) {
            all.push(T::M(q.into_iter().map(|k| below[k].clone()).collect()));
        }
    }
    all
}

fn reports(ctx: &mut Ctx) {
    let mut known = BTreeMap::new();
    known.insert(0, (1, 7, "an item", "a message", false));
    known.insert(1, (10, 2, "x", "note", true));
    known.insert(2, (4, 1, "17", "", false));
    ctx.step();
    ctx.case("config", || {
        let c = Config::klc();
        eq("config", show(&(c.m.font_size, c.m.font_thickness)), show(&(1.0, 0.15)))?;
        Ok("configuration".into())
    });
    for t in trees(2, if ctx.thorough() { 3 } else { 2 }) {
        ctx.step();
        if !ctx.state(&("report", &t)) {
            continue;
        }
        ctx.case(&format!("report:{:?}", t), || {
            fn text(t: &T, known: &BTreeMap<usize, (i64, i64, &str, &str, bool)>) -> String {
                match t {
                    T::I(k) => {
                        let (section, rule, item, message, info) = known[k];
                        show(&CheckFixData::Item(CheckFixItem {
                            section,
                            rule,
                            item: item.into(),
                            message: message.into(),
                            info,
                        }))
                    }
                    T::M(v) => format!("More([{}])", v.iter().map(|x| text(x, known)).collect::<Vec<_>>().join(", ")),
                }
            }
            let d = data(&t);
            eq("report", show(&d), text(&t, &known))?;
            d.dump_on_logger(1);
            eq("dump", show(&d), text(&t, &known))?;
            let want = match &t {
                T::M(v) if v.len() == 1 => v[0].clone(),
                x => x.clone(),
            };
            eq("flatter", show(&d.flatter()), text(&want, &known))?;
            Ok("report".into())
        });
    }
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough();
    let mut cases = vec![];
    for draws in sequences(slgen::DRAWS, if t { 4 } else { 3 }) {
        for name in 0..NAMES.len() {
            for reference in 0..REFS.len() {
                for fields in 0..FIELDS.len() {
                    if draws.len() > 1 && fields > 0 {
                        continue;
                    }
                    cases.push((name, reference, fields, draws.clone()));
                }
            }
        }
    }
    let (short, long) = (sequences(NEW.len(), 1), sequences(NEW.len(), if t { 4 } else { 3 }));
    parallel(ctx, |c, shard, of| {
        for (i, (n, r, f, d)) in cases.iter().enumerate() {
            if i % of != shard {
                continue;
            }
            for h in if d.len() > 1 || *r > 1 { &short } else { &long } {
                c.transitions += h.len() as u64;
                c.state(&(n, r, f, d, h));
                c.sample("symbol", || format!("{} {} fields {:?} drawing {:?} renamed {:?}", NAMES[*n], REFS[*r], FIELDS[*f], d, h));
                c.case(&format!("{}:{}:{}:{:?}:{:?}", n, r, f, d, h), || history(*n, *r, *f, d, h));
            }
        }
    });
    fresh(ctx);
    wide(ctx);
    finds(ctx);
    sheets(ctx);
    reports(ctx);
}
