use crate::core::*;
use crate::lagen;
use crate::shape;
use crate::sx::{self, X};
use kicad_parse_gen::layout as la;

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

type Entry = (String, String, Option<String>);

const NAMES: &[&str] = &["trace_min", "zone_45_only", "trace", "Trace_min", "grid_origin"];
const VALUES: &[&str] = &["0.1", "yes", "", "0.1 0.2"];

#[derive(Clone, Debug)]
enum Op {
    Get(&'static str),
    Update(&'static str, &'static str),
}

fn entries(v: &[la::SetupElement]) -> Vec<Entry> {
    v.iter().map(|e| (e.name.clone(), e.value1.clone(), e.value2.clone())).collect()
}

fn elements(v: &[Entry]) -> Vec<la::SetupElement> {
    v.iter()
        .map(|e| la::SetupElement {
            name: e.0.clone(),
            value1: e.1.clone(),
            value2: e.2.clone(),
        })
        .collect()
}

fn tree(v: &[Entry]) -> Vec<X> {
    v.iter()
        .map(|e| {
            let mut w = vec![sx::a(e.1.clone())];
            if let Some(ref x) = e.2 {
                w.push(sx::a(x.clone()))
            }
            sx::l(&e.0, w)
        })
        .collect()
}

/// whether a name can head an entry of the written board
fn writable(n: &str) -> bool {
    !n.is_empty() && !n.contains(|c: char| c.is_whitespace() || c == '(' || c == ')')
}

fn history(start: &[Entry], plot: &[Entry], ops: &[&Op]) -> Result<String, (String, String)> {
    let mut model: Vec<Entry> = start.to_vec();
    let mut l = la::Layout::default();
    l.setup.elements = elements(start);
    l.setup.pcbplotparams = elements(plot);
    let mut appended = 0;
    for op in ops {
        match **op {
            Op::Get(n) => {
                let got = l.setup.get(n).cloned();
                let want = model.iter().find(|e| e.0 == n).map(|e| e.1.clone());
                if got != want {
                    return Err(bad("get", format!("{} gives {:?} instead of {:?} after {:?} on {:?}", n, got, want, ops, start)));
                }
            }
            Op::Update(n, v) => {
                l.setup.update_element(n, v.to_string());
                match model.iter().position(|e| e.0 == n) {
                    Some(p) => model[p].1 = v.to_string(),
                    None => {
                        model.push((n.to_string(), v.to_string(), None));
                        appended += 1;
                    }
                }
            }
        }
        if entries(&l.setup.elements) != model {
            return Err(bad("entries", format!("{:?} instead of {:?} after {:?} of {:?} on {:?}", entries(&l.setup.elements), model, op, ops, start)));
        }
        if entries(&l.setup.pcbplotparams) != plot {
            return Err(bad("plot", format!("{:?} instead of {:?}", entries(&l.setup.pcbplotparams), plot)));
        }
    }
    if model.iter().any(|e| !writable(&e.0)) {
        return Ok(format!("{} appended in memory", appended));
    }
    // and in the written board
    let text = la::layout_to_string(&l, 0).map_err(|e| bad("write", e.to_string()))?;
    let got = sx::read(&text).map_err(|e| bad("write", e))?;
    let mut want = tree(&model);
    want.push(sx::l("pcbplotparams", tree(plot)));
    let want = sx::l("setup", want);
    match crate::geo::kid(&got, "setup") {
        Some(s) if *s == want => (),
        s => return Err(bad("written", format!("{:?} instead of {} after {:?}", s.map(|s| s.text()), want.text(), ops))),
    }
    Ok(format!("{} appended", appended))
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough();
    let mut menu: Vec<Entry> = vec![];
    for n in ["trace_min", "zone_45_only", "other"] {
        for v in ["0.1", "x"] {
            for w in [None, Some("2"), Some("")] {
                menu.push((n.into(), v.into(), w.map(|s: &str| s.to_string())));
            }
        }
    }
    let mut ops = vec![];
    for n in 0..NAMES.len() {
        ops.push(Op::Get(NAMES[n]));
        for v in 0..VALUES.len() {
            if n < 2 || v < 2 {
                ops.push(Op::Update(NAMES[n], VALUES[v]));
            }
        }
    }
    let plots: [&[Entry]; 2] = [&[], &[("trace_min".into(), "9".into(), None), ("mode".into(), "1".into(), Some("b".into()))]];
    let starts = sequences(menu.len(), if t { 3 } else { 2 });
    let long = sequences(ops.len(), 3);
    let short = sequences(ops.len(), 2);
    parallel(ctx, |c, shard, of| {
        for (k, s) in starts.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            let start: Vec<Entry> = s.iter().map(|&i| menu[i].clone()).collect();
            for (p, plot) in plots.iter().enumerate() {
                for h in if s.len() < 2 { &long } else { &short } {
                    c.transitions += h.len() as u64;
                    if !c.state(&(s, p, h)) {
                        continue;
                    }
                    c.sample("history", || format!("{:?} on {:?}", h.iter().map(|&i| &ops[i]).collect::<Vec<_>>(), start));
                    c.case(&format!("setup:{:?}:{}:{:?}", s, p, h), || history(&start, plot, &h.iter().map(|&i| &ops[i]).collect::<Vec<_>>()));
                }
            }
        }
    });
    // net classes, alone and in a board
    let classes: Vec<(Vec<usize>, la::NetClass, X)> = deviations(&lagen::dims("net_class"), if t { 2 } else { 1 })
        .into_iter()
        .filter_map(|d| {
            let e = lagen::build("net_class", &d);
            match e.value {
                la::Element::NetClass(c) => Some((d, c, e.output)),
                _ => None,
            }
        })
        .collect();
    let parts = |x: &X| match x {
        X::L(v) => X::L(v.iter().filter(|y| y.head() != "add_net").cloned().collect()),
        X::A(_) => x.clone(),
    };
    let names = |x: &X| crate::geo::kids(x, "add_net").iter().map(|q| crate::geo::words(q)[0].to_string()).collect::<Vec<_>>();
    parallel(ctx, |c, shard, of| {
        for (i, a) in classes.iter().enumerate() {
            if i % of != shard {
                continue;
            }
            for b in &classes {
                c.step();
                c.state(&("pair", &a.0, &b.0));
                c.case(&format!("class:{:?}:{:?}", a.0, b.0), || {
                    let want = parts(&a.2) == parts(&b.2);
                    if a.1.equal_no_net(&b.1) != want {
                        return Err(bad("equal-no-net", format!("{:?} and {:?}", a.1, b.1)));
                    }
                    let all = want && names(&a.2) == names(&b.2);
                    if (a.1 == b.1) != all {
                        return Err(bad("equal", format!("{:?} and {:?}", a.1, b.1)));
                    }
                    Ok(format!("equal without nets {}, with {}", want, all))
                });
            }
            for q in ["GND", "", "+5V", "a", "g", "h", "Net-(R1-Pad1)"] {
                c.step();
                c.state(&("has", &a.0, q));
                c.case(&format!("has:{:?}:{}", a.0, q), || {
                    let want = names(&a.2).iter().any(|n| n == q);
                    if a.1.has_net(q) != want {
                        return Err(bad("has-net", format!("{} in {:?}", q, a.1)));
                    }
                    Ok(format!("has {}", want))
                });
            }
        }
    });
    // the list of net classes of a board
    let reps = lagen::la_representatives();
    let few: Vec<_> = reps.iter().map(|r| r.1.clone()).chain([0, 5, 20].iter().map(|&k| lagen::build("net_class", &classes[k].0))).collect();
    for s in sequences(few.len(), if t { 4 } else { 3 }) {
        ctx.step();
        ctx.state(&("list", &s));
        let mut l = la::Layout::default();
        l.elements = s.iter().map(|&i| few[i].value.clone()).collect();
        ctx.case(&format!("list:{:?}", s), || {
            let want: Vec<String> = s
                .iter()
                .filter_map(|&i| match few[i].value {
                    la::Element::NetClass(ref c) => Some(format!("{:?}", c)),
                    _ => None,
                })
                .collect();
            let got: Vec<String> = l.netclasses().iter().map(|c| format!("{:?}", c)).collect();
            if got != want {
                return Err(bad("classes", format!("{:?} instead of {:?}", got, want)));
            }
            Ok(format!("{} classes", want.len()))
        });
    }
    wide(ctx);
}

fn lasting(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

/// names and values of every form and nearly equal ones, tables of every length
fn wide(ctx: &mut Ctx) {
    let mut words = shape::texts("\"\\");
    for w in ["trace_min", "0.1", "a b"] {
        words.extend(shape::near(w));
        words.push(w.into())
    }
    words.retain(|w| !w.contains('"') && !w.contains('\\'));
    words.sort();
    words.dedup();
    let words: Vec<&'static str> = words.iter().map(|w| lasting(w)).collect();
    let entry = |n: &str, v: &str, w: Option<&str>| -> Entry { (n.into(), v.into(), w.map(|w| w.to_string())) };
    let mut jobs: Vec<(Vec<Entry>, Vec<Entry>, Vec<Op>)> = vec![];
    for &w in &words {
        let two = vec![entry("trace_min", "1", Some("2")), entry("x", "3", None)];
        jobs.push((two.clone(), vec![], vec![Op::Get("trace_min"), Op::Update("trace_min", w), Op::Update("x", w), Op::Get("x")]));
        jobs.push((vec![entry("x", w, Some(w))], vec![entry("x", w, Some(w))], vec![Op::Get("x"), Op::Update("x", "1"), Op::Update("y", w)]));
        // such a name cannot be written, but it is asked for and set like any other
        jobs.push((two.clone(), vec![], vec![Op::Get(w), Op::Update(w, "7"), Op::Get("trace_min"), Op::Get(w), Op::Update("trace_min", "8"), Op::Update(w, "")]));
        jobs.push((vec![entry(w, "1", None)], vec![], vec![Op::Get("trace_min"), Op::Get(w), Op::Update("trace_min", "7"), Op::Get("trace_min"), Op::Update(w, "3")]));
        if !writable(w) {
            continue;
        }
        jobs.push((two.clone(), vec![entry(w, "1", None)], vec![Op::Get(w), Op::Update(w, "7"), Op::Get("trace_min"), Op::Get(w), Op::Update("trace_min", "8")]));
        let mut more = two.clone();
        more.insert(0, entry(w, "9", Some("2")));
        jobs.push((more, vec![], vec![Op::Get("trace_min"), Op::Get(w), Op::Update("trace_min", "7"), Op::Update(w, w), Op::Get(w)]));
    }
    for n in shape::counts(60) {
        let many: Vec<Entry> = (0..n).map(|k| entry(&format!("n{}", k), &k.to_string(), if k % 3 == 0 { Some("b") } else { None })).collect();
        for at in [0, n / 2, n.saturating_sub(1), n] {
            let name = lasting(&format!("n{}", at));
            jobs.push((many.clone(), many.clone(), vec![Op::Get(name), Op::Update(name, "x"), Op::Get(name), Op::Update("new", "y"), Op::Get("new")]));
        }
        jobs.push((vec![entry("same", "1", None); n], vec![], vec![Op::Update("same", "2"), Op::Get("same")]));
    }
    parallel(ctx, |c, shard, of| {
        for (k, (start, plot, ops)) in jobs.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            c.transitions += ops.len() as u64;
            let label = format!("wide:{:?}:{}:{:?}", start.first(), start.len(), ops);
            if c.state(&(start, plot, ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>())) {
                c.sample("wide", || label.clone());
                c.case(&label, || history(start, plot, &ops.iter().collect::<Vec<_>>()));
            }
        }
    });
    // added net classes hold what they were added with, and are told apart by any of it but the nets
    let reals = shape::reals();
    let mut all: Vec<(&'static str, &'static str, Vec<Option<f64>>, Vec<String>)> = vec![];
    let nums = |k: usize, x: Option<f64>| {
        let mut v: Vec<Option<f64>> = (0..8).map(|i| Some(i as f64 + 0.25)).collect();
        v[k] = x;
        v
    };
    for k in 0..8 {
        for &x in &reals {
            all.push(("C", "d", nums(k, Some(x)), vec!["A".into()]));
        }
        if k > 5 {
            all.push(("C", "d", nums(k, None), vec!["A".into()]));
        }
    }
    for &w in &words {
        all.push((w, "d", nums(0, Some(1.0)), vec!["A".into()]));
        all.push(("C", w, nums(0, Some(1.0)), vec!["A".into()]));
        all.push(("C", "d", nums(0, Some(1.0)), vec![w.into()]));
        all.push(("C", "d", nums(0, Some(1.0)), vec!["A".into(), w.into(), "A".into()]));
    }
    for n in shape::counts(60) {
        all.push(("C", "d", nums(0, Some(1.0)), (0..n).map(|k| format!("N{}", k)).collect()));
        all.push(("C", "d", nums(0, Some(1.0)), vec!["A".into(); n]));
    }
    let base = all[0].clone();
    for (k, (name, desc, x, nets)) in all.iter().enumerate() {
        ctx.step();
        if !ctx.state(&("added", name, desc, format!("{:?}", x), nets)) {
            continue;
        }
        ctx.case(&format!("added:{}:{:?}:{:?}:{:?}:{}", k, name, desc, x, nets.len()), || {
            let mut l = la::Layout::default();
            let add = |l: &mut la::Layout, (n, d, x, v): (&'static str, &'static str, &Vec<Option<f64>>, &Vec<String>)| {
                let y = |k: usize| x[k].unwrap();
                l.add_netclass(n, d, y(0), y(1), y(2), y(3), y(4), y(5), x[6], x[7], v.clone())
            };
            l.add_net(3, "first");
            add(&mut l, (name, desc, x, nets));
            add(&mut l, (base.0, base.1, &base.2, &base.3));
            let v = l.netclasses();
            if v.len() != 2 || l.elements.len() != 3 {
                return Err(bad("added", format!("{:?}", v)));
            }
            let want = la::NetClass {
                name: name.to_string(),
                desc: desc.to_string(),
                clearance: x[0].unwrap(),
                trace_width: x[1].unwrap(),
                via_dia: x[2].unwrap(),
                via_drill: x[3].unwrap(),
                uvia_dia: x[4].unwrap(),
                uvia_drill: x[5].unwrap(),
                diff_pair_gap: x[6],
                diff_pair_width: x[7],
                nets: nets.iter().map(|n| la::NetName(n.clone())).collect(),
            };
            if format!("{:?}", v[0]) != format!("{:?}", want) {
                return Err(bad("added", format!("{:?} instead of {:?}", v[0], want)));
            }
            let same = (*name, *desc, x) == (base.0, base.1, &base.2);
            if v[0].equal_no_net(v[1]) != same || v[1].equal_no_net(v[0]) != same || !v[0].equal_no_net(v[0]) {
                return Err(bad("equal-no-net", format!("{:?} and {:?}", v[0], v[1])));
            }
            let mut other = v[0].clone();
            other.nets.push("more".into());
            if !other.equal_no_net(v[0]) || other == *v[0] {
                return Err(bad("equal-nets", format!("{:?} and {:?}", v[0], other)));
            }
            for q in [*name, *desc, "A", "N1", "N60", "", " A"] {
                if v[0].has_net(q) != nets.iter().any(|n| n == q) {
                    return Err(bad("has-net", format!("{:?} in {:?}", q, v[0])));
                }
            }
            for n in nets.iter().take(3) {
                if !v[0].has_net(lasting(n)) {
                    return Err(bad("has-net", format!("{:?} in {:?}", n, v[0])));
                }
            }
            Ok(format!("added, same {}", same))
        });
    }
    // two that differ in one place only, by little
    let near: Vec<(&str, &str)> = vec![("C", "c"), ("C", "C "), ("C", " C"), ("C", ""), ("\u{e9}", "e\u{301}"), ("C1", "C01"), ("C", "CC")];
    for (i, (p, q)) in near.iter().enumerate() {
        for place in 0..2 {
            ctx.step();
            ctx.state(&("near", i, place));
            ctx.case(&format!("near:{}:{}", i, place), || {
                let mut a = match lagen::build("net_class", &vec![0; lagen::dims("net_class").len()]).value {
                    la::Element::NetClass(c) => c,
                    _ => unreachable!(),
                };
                let mut b = a.clone();
                if place == 0 {
                    a.name = p.to_string();
                    b.name = q.to_string()
                } else {
                    a.desc = p.to_string();
                    b.desc = q.to_string()
                }
                if a.equal_no_net(&b) || b.equal_no_net(&a) || a == b {
                    return Err(bad("equal-no-net", format!("{:?} and {:?}", a, b)));
                }
                Ok("differ".into())
            });
        }
    }
}
