use crate::c03;
use crate::core::*;
use crate::scgen;
use crate::shape;
use kicad_parse_gen::schematic as sc;

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

const NAMES: &[&str] = &["Reference", "Value", "MPN", "Footprint", "Nope", "mpn", ""];
const VALUES: &[&str] = &["x", "", "U1", "y z"];

#[derive(Clone, Debug)]
enum Op {
    Update(String, String),
    Set(usize, String, String),
    Add(usize, String, String),
    Reference(String),
    Name(String),
}

#[derive(Clone, Debug, PartialEq)]
struct Field {
    i: i64,
    name: String,
    value: String,
    x: f64,
    y: f64,
    visible: bool,
    look: String,
}

#[derive(Clone, Debug, PartialEq)]
struct Model {
    name: String,
    reference: String,
    fields: Vec<Field>,
    rest: String,
}

fn field(f: &sc::ComponentField) -> Field {
    Field {
        i: f.i,
        name: f.name.clone(),
        value: f.value.clone(),
        x: f.x,
        y: f.y,
        visible: f.visible,
        look: format!("{:?} {} {:?} {:?} {} {}", f.orientation, f.size, f.hjustify, f.vjustify, f.italic, f.bold),
    }
}

fn model(c: &sc::Component) -> Model {
    let mut rest = c.clone();
    rest.name = String::new();
    rest.reference = String::new();
    rest.fields = vec![];
    Model {
        name: c.name.clone(),
        reference: c.reference.clone(),
        fields: c.fields.iter().map(field).collect(),
        rest: format!("{:?}", rest),
    }
}

fn update(m: &mut Model, name: &str, value: &str) {
    for f in &mut m.fields {
        if f.name == name {
            f.value = value.into()
        }
        if f.i > 1 {
            f.visible = false
        }
    }
}

fn first<'a>(m: &'a Model, name: &str) -> Option<&'a Field> {
    m.fields.iter().find(|f| f.name == name)
}

/// the field that was added, with what is left open taken from it
fn added(m: &mut Model, c: &sc::Component, t: &sc::ComponentField, name: &str, value: &str) -> Result<(), (String, String)> {
    let f = match c.fields.last() {
        Some(f) if c.fields.len() == m.fields.len() + 1 => field(f),
        _ => return Err(bad("not-added", format!("{:?}", c.fields))),
    };
    if m.fields.iter().any(|g| g.i == f.i) || f.i < 1 {
        return Err(bad("number", format!("the new field has number {} among {:?}", f.i, m.fields.iter().map(|g| g.i).collect::<Vec<_>>())));
    }
    m.fields.push(Field {
        i: f.i,
        name: name.into(),
        value: value.into(),
        x: t.x,
        y: t.y,
        visible: false,
        look: f.look,
    });
    Ok(())
}

fn history(h: &scgen::Head, start: &sc::Component, templates: &[sc::ComponentField], ops: &[&Op]) -> Result<String, (String, String)> {
    let mut c = start.clone();
    let mut m = model(&c);
    let mut changed = 0;
    for op in ops {
        let before = m.clone();
        match *op {
            Op::Update(n, v) => {
                c.update_field(n, v);
                update(&mut m, n, v);
            }
            Op::Set(t, n, v) => {
                let got = c.add_or_update_field(&templates[*t], n, v);
                let got = match got {
                    sc::FieldUpdate::New => ("new".to_string(), sc::FieldUpdate::New.into()),
                    sc::FieldUpdate::Update(o) => (format!("update {}", o), sc::FieldUpdate::Update(o).into()),
                    sc::FieldUpdate::Same => ("same".to_string(), sc::FieldUpdate::Same.into()),
                };
                let want = match first(&m, n) {
                    Some(f) if f.value == *v => ("same".to_string(), false),
                    Some(f) => (format!("update {}", f.value), true),
                    None => ("new".to_string(), true),
                };
                if got != want {
                    return Err(bad("outcome", format!("{:?} instead of {:?} for {:?} of {:?} on {:?}", got, want, op, ops, before)));
                }
                match &want.0[..] {
                    "same" => (),
                    "new" => added(&mut m, &c, &templates[*t], n, v)?,
                    _ => update(&mut m, n, v),
                }
            }
            Op::Add(t, n, v) => {
                c.add_new_field(&templates[*t], n, v);
                added(&mut m, &c, &templates[*t], n, v)?;
            }
            Op::Reference(v) => {
                c.update_reference(v.clone());
                m.reference = v.clone();
                for f in m.fields.iter_mut().filter(|f| f.i == 0) {
                    f.value = v.clone()
                }
            }
            Op::Name(v) => {
                c.update_name(v.clone());
                m.name = v.clone();
                for f in m.fields.iter_mut().filter(|f| f.i == 1) {
                    f.value = v.clone()
                }
            }
        }
        if model(&c) != m {
            return Err(bad("component", format!("{:?}\ninstead of {:?}\nafter {:?} of {:?}", model(&c), m, op, ops)));
        }
        let hash = c.fields_hash();
        let mut names: Vec<&str> = NAMES.to_vec();
        names.extend(m.fields.iter().map(|f| &f.name[..]));
        names.extend(ops.iter().filter_map(|o| match o {
            Op::Update(n, _) | Op::Set(_, n, _) | Op::Add(_, n, _) => Some(&n[..]),
            _ => None,
        }));
        for n in &names {
            let want = first(&m, n);
            if c.get_field_value(n) != want.map(|f| f.value.clone()) {
                return Err(bad("value-of", format!("{} gives {:?} in {:?}", n, c.get_field_value(n), m)));
            }
            if c.get_field(n).map(|f| field(&f)) != want.cloned() {
                return Err(bad("field-of", format!("{} gives {:?} in {:?}", n, c.get_field(n), m)));
            }
            // of several fields with that name any may be in the table
            let table = match hash.get(*n) {
                None => want.is_none(),
                Some(v) => m.fields.iter().any(|f| f.name == *n && f.value == *v),
            };
            if !table {
                return Err(bad("table", format!("{} gives {:?} in {:?}", n, hash.get(*n), m)));
            }
        }
        if hash.keys().any(|k| m.fields.iter().all(|f| f.name != *k)) {
            return Err(bad("table", format!("{:?} for {:?}", hash, m)));
        }
        let free = c.get_available_field_num();
        if free < 1 || m.fields.iter().any(|f| f.i == free) {
            return Err(bad("available", format!("{} in {:?}", free, m)));
        }
        if before != m {
            changed += 1
        }
    }
    // what was edited is what is written
    let word = |w: &str| !w.is_empty() && !w.contains(|k: char| k.is_whitespace());
    let plain = m.fields.iter().all(|f| !f.name.contains('\\') && !f.value.contains('\\'));
    if word(&c.name) && word(&c.reference) && plain {
        let mut s = sc::parse_str(&c03::canonical(h, &[])).map_err(|e| bad("read", e.to_string()))?;
        s.elements.push(sc::Element::Component(c.clone()));
        let r = sc::parse_str(&s.to_string()).map_err(|e| bad("read-back", format!("{} in {}", e, s)))?;
        let back = r.components();
        if back.len() != 1 || model(&back[0]) != m {
            return Err(bad("written", format!("{}\nreads as {:?}\ninstead of {:?}", s, back, m)));
        }
    }
    Ok(format!("{} of {} changed", changed, ops.len()))
}

fn starts() -> Vec<Vec<scgen::F>> {
    use crate::scgen::field0;
    let std: Vec<_> = (0..4).map(field0).collect();
    let named = |i: i64, name: &'static str, value: usize| {
        let mut f = field0(i);
        f.name = Some(name);
        f.value = value;
        f
    };
    let mut all = vec![
        std.clone(),
        vec![],
        vec![field0(0)],
        vec![field0(1), field0(0)],
    ];
    let mut v = std.clone();
    v.push(named(4, "MPN", 2));
    all.push(v.clone());
    v.push(named(5, "mpn", 0));
    all.push(v.clone());
    // twice the same name, a gap, not in order
    v.push(named(9, "MPN", 1));
    all.push(v);
    let mut v = vec![named(6, "MPN", 0)];
    v.extend(std.iter().cloned());
    all.push(v);
    // looks
    let mut v = std;
    v[0].hidden = true;
    v[1].vertical = true;
    v[1].bold = true;
    v[2].x = 3;
    v[2].italic = true;
    v[3].hj = 1;
    v[3].size = 3;
    all.push(v);
    // reserved names on other numbers
    all.push(vec![field0(0), field0(1), named(4, "Reference", 2), named(5, "Value", 1)]);
    all.push(vec![named(0, "MPN", 0), named(1, "Nope", 1), named(2, "", 0)]);
    all
}

pub fn run(ctx: &mut Ctx) {
    ctx.assumptions.push("of several fields with the same name the first counts in lookups, any in the table of fields".into());
    let t = ctx.thorough();
    let h = scgen::head(&scgen::head0());
    let mut ops = vec![];
    for n in 0..NAMES.len() {
        for v in 0..VALUES.len() {
            if n > 2 && v > 1 {
                continue;
            }
            let (name, value) = (NAMES[n].to_string(), VALUES[v].to_string());
            ops.push(Op::Update(name.clone(), value.clone()));
            ops.push(Op::Set(v % 2, name.clone(), value.clone()));
            if v < 2 {
                ops.push(Op::Add(v, name, value));
            }
        }
    }
    for v in 0..3 {
        ops.push(Op::Reference(VALUES[v].into()));
        ops.push(Op::Name(VALUES[v].into()));
    }
    let mut f = scgen::field0(7);
    f.x = 3;
    f.y = 6;
    f.bold = true;
    let templates = vec![scgen::field(&scgen::field0(0)).1, scgen::field(&f).1];
    let comps: Vec<sc::Component> = starts()
        .into_iter()
        .map(|fields| {
            let mut c = scgen::comp0();
            c.fields = fields;
            let text = c03::canonical(&h, &[scgen::component(&c)]);
            sc::parse_str(&text).map(|s| s.components().remove(0)).unwrap_or_else(|e| panic!("{}: {}", e, text))
        })
        .collect();
    let mut hist = sequences(ops.len(), 3);
    if t {
        // longer ones of the operations with the first values
        let few: Vec<usize> = (0..ops.len())
            .filter(|&k| match &ops[k] {
                Op::Update(n, v) => VALUES[..2].contains(&&v[..]) && NAMES[..5].contains(&&n[..]),
                Op::Set(_, n, v) => *v == VALUES[0] && NAMES[..5].contains(&&n[..]),
                Op::Add(_, n, v) => *v == VALUES[0] && NAMES[..5].contains(&&n[..]),
                _ => true,
            })
            .collect();
        hist.extend(sequences(few.len(), 4).into_iter().filter(|s| s.len() == 4).map(|s| s.iter().map(|&k| few[k]).collect::<Vec<_>>()));
    }
    parallel(ctx, |c, shard, of| {
        for (k, hi) in hist.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            for (j, start) in comps.iter().enumerate() {
                c.transitions += hi.len() as u64;
                c.state(&(j, hi));
                let o: Vec<&Op> = hi.iter().map(|&q| &ops[q]).collect();
                c.sample("history", || format!("{:?} on {}", o, start));
                c.case(&format!("{}:{:?}", j, hi), || history(&h, start, &templates, &o));
            }
        }
    });
    wide(ctx, &h, &comps[0]);
}

/// names and values of every form, nearly equal ones, numbers and positions of every magnitude, fields in any number
fn wide(ctx: &mut Ctx, h: &scgen::Head, plain: &sc::Component) {
    let make = |i: i64, n: &str, v: &str, x: f64, y: f64| sc::ComponentField::new_from(i, n.into(), v.into(), x, y);
    let seen = |i: i64, n: &str, v: &str| {
        let mut f = make(i, n, v, 10.0, 20.0);
        f.visible = true;
        f
    };
    let on = |fields: Vec<sc::ComponentField>| {
        let mut c = plain.clone();
        c.fields.extend(fields);
        c
    };
    let zero = make(0, "t", "t", 1.0, 2.0);
    let mut all: Vec<(String, sc::Component, Vec<sc::ComponentField>, Vec<Op>)> = vec![];
    let words = shape::texts("\"\\\n");
    // one text against every other
    let mut pairs: Vec<(String, String)> = words.iter().map(|w| (w.clone(), "x".to_string())).collect();
    pairs.extend(words.iter().map(|w| (w.clone(), w.clone())));
    for w in ["MPN", "Value", "Part No", "x", "U1", "10k", "Datasheet", " a "] {
        for n in shape::near(w) {
            pairs.push((w.to_string(), n.clone()));
            pairs.push((n, w.to_string()));
        }
    }
    for (i, (a, b)) in pairs.iter().enumerate() {
        let add = |l: &str, c: sc::Component, ops: Vec<Op>| (format!("{}:{:?}:{:?}", l, a, b), c, vec![zero.clone()], ops);
        // as names
        all.push(add("names", on(vec![seen(4, a, "1"), seen(5, b, "2")]), vec![Op::Update(b.clone(), "3".into()), Op::Set(0, a.clone(), "4".into())]));
        all.push(add("name", on(vec![seen(4, a, "1")]), vec![Op::Set(0, b.clone(), "1".into()), Op::Update(a.clone(), "5".into())]));
        all.push(add("update", on(vec![seen(4, a, "1")]), vec![Op::Update(b.clone(), "3".into()), Op::Add(0, b.clone(), "1".into())]));
        // as values
        all.push(add("value", on(vec![seen(4, "n", a)]), vec![Op::Set(0, "n".into(), b.clone()), Op::Update("n".into(), a.clone()), Op::Add(0, "n".into(), b.clone())]));
        all.push(add("itself", on(vec![seen(4 + (i % 3) as i64, "n", "")]), vec![Op::Reference(a.clone()), Op::Name(b.clone()), Op::Reference(b.clone())]));
    }
    for n in shape::ints() {
        if n == i64::max_value() {
            continue;
        }
        let label = format!("number:{}", n);
        all.push((label.clone(), on(vec![seen(n, "n", "v")]), vec![zero.clone()], vec![Op::Add(0, "m".into(), "w".into()), Op::Update("n".into(), "u".into()), Op::Add(0, "o".into(), "w".into())]));
        all.push((label, on(vec![seen(n, "n", "v"), seen(4, "m", "v")]), vec![zero.clone()], vec![Op::Set(0, "o".into(), "w".into()), Op::Reference("R".into()), Op::Name("N".into())]));
    }
    for x in shape::reals() {
        let t = vec![make(4, "t", "t", x, 3.0), make(9, "t", "t", -3.0, x)];
        let mut look = t[0].clone();
        look.y = x;
        look.visible = true;
        all.push((format!("position:{}", x), on(vec![look]), t, vec![Op::Add(0, "m".into(), "w".into()), Op::Set(1, "n".into(), "w".into()), Op::Update("t".into(), "u".into())]));
    }
    for n in shape::counts(60) {
        for at in [0, n / 2, n] {
            let fields = (0..n).map(|i| seen(4 + i as i64, &format!("f{}", i), "v")).collect();
            let name = format!("f{}", at);
            all.push((format!("count:{}:{}", n, at), on(fields), vec![zero.clone()], vec![Op::Set(0, name.clone(), "w".into()), Op::Update(name.clone(), "u".into()), Op::Add(0, name, "k".into())]));
        }
    }
    parallel(ctx, |c, shard, of| {
        for (k, (label, start, templates, ops)) in all.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            c.transitions += ops.len() as u64;
            c.state(&format!("{} {:?} {:?} {:?}", label, start, templates, ops));
            c.sample("wide", || format!("{} {:?}", label, ops));
            let o: Vec<&Op> = ops.iter().collect();
            c.case(label, || history(h, start, templates, &o));
        }
    });
}
