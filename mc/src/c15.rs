use crate::c03;
use crate::core::*;
use crate::geo;
use crate::lagen;
use crate::scgen;
use crate::shape;
use crate::sx::{self, a, l, l1, n, X};
use kicad_parse_gen::footprint as fp;
use kicad_parse_gen::layout as la;
use kicad_parse_gen::schematic as sc;
use std::cell::RefCell;

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

const REFS: &[&str] = &["R1", "R2", "R10", "", "r1"];

fn text(kind: &str, value: &str) -> X {
    l(
        "fp_text",
        vec![
            a(kind),
            a(value),
            l("at", vec![n(0.0), n(1.0)]),
            l1("layer", a("F.SilkS")),
            l1("effects", l("font", vec![l("size", vec![n(1.0), n(1.0)]), l1("thickness", n(0.15))])),
        ],
    )
}

fn module(name: &str, texts: &[(&str, &str)]) -> X {
    let mut v = vec![a(name), l1("layer", a("F.Cu")), l("at", vec![n(1.0), n(2.0)]), l1("path", a("R1"))];
    for t in texts {
        v.push(text(t.0, t.1))
    }
    l("module", v)
}

fn elements() -> Vec<X> {
    let mut v = vec![
        module("M", &[("reference", "R1"), ("value", "x")]),
        module("M", &[("value", "R1"), ("reference", "R2"), ("user", "R1")]),
        module("R1", &[("reference", "R10"), ("user", "%R")]),
        module("M", &[("reference", "")]),
        module("M", &[("reference", "r1"), ("reference", "R1"), ("reference", "R1")]),
        module("R1", &[]),
        module("M", &[("value", "R1")]),
    ];
    v.push(l("net", vec![a("1"), a("R1")]));
    v.push(lagen::build("gr_line", &vec![0; lagen::dims("gr_line").len()]).output);
    v.push(l("target", vec![a("R1"), text("reference", "R1")]));
    v
}

#[derive(Clone, Debug)]
enum Op {
    /// add a mark to the footprint
    Mark(usize),
    /// rename the reference of the footprint
    Rename(usize, usize, usize),
    Look,
}

fn refs(m: &X) -> Vec<String> {
    geo::kids(m, "fp_text").iter().filter(|t| geo::words(t)[0] == "reference").map(|t| geo::words(t)[1].to_string()).collect()
}

fn edit(tree: &X, at: usize, f: &dyn Fn(&X) -> X) -> X {
    match tree {
        X::L(v) => X::L(v.iter().enumerate().map(|(i, y)| if i == at { f(y) } else { y.clone() }).collect()),
        X::A(_) => tree.clone(),
    }
}

/// where the first footprint with that reference is
fn place(tree: &X, r: &str) -> Option<usize> {
    match tree {
        X::L(v) => v.iter().position(|e| e.head() == "module" && refs(e).iter().any(|q| q == r)),
        X::A(_) => None,
    }
}

fn written(l: &la::Layout) -> Result<X, (String, String)> {
    let s = la::layout_to_string(l, 0).map_err(|e| bad("write", e.to_string()))?;
    sx::read(&s).map_err(|e| bad("write", e))
}

fn module_tree(m: &fp::Module) -> Result<X, (String, String)> {
    let s = fp::module_to_string(m, 0).map_err(|e| bad("write", e.to_string()))?;
    sx::read(&s).map_err(|e| bad("write", e))
}

fn renamed(m: &X, from: &str, to: &str) -> X {
    match m {
        X::L(v) => X::L(
            v.iter()
                .map(|t| match t {
                    X::L(w) if t.head() == "fp_text" && w[1] == a("reference") && w[2] == a(from) => {
                        let mut w = w.clone();
                        w[2] = a(to);
                        X::L(w)
                    }
                    _ => t.clone(),
                })
                .collect(),
        ),
        X::A(_) => m.clone(),
    }
}

fn board_history(start: &la::Layout, ops: &[&Op], names: &[&str]) -> Result<String, (String, String)> {
    let mut board = lagen::copy(start);
    let mut tree = written(&board)?;
    let mut found = 0;
    for op in ops {
        let (r, result, seen) = match **op {
            Op::Mark(r) => {
                let calls = RefCell::new(0);
                let result = board.modify_module(names[r], |m| {
                    *calls.borrow_mut() += 1;
                    m.append(fp::Element::Tags("mark".into()))
                });
                if let Some(p) = place(&tree, names[r]) {
                    tree = edit(&tree, p, &|m| match m {
                        X::L(v) => {
                            let mut v = v.clone();
                            v.push(l1("tags", a("mark")));
                            X::L(v)
                        }
                        X::A(_) => m.clone(),
                    });
                }
                (r, result, calls.into_inner())
            }
            Op::Rename(r, from, to) => {
                let calls = RefCell::new(0);
                let result = board.modify_module(names[r], |m| {
                    *calls.borrow_mut() += 1;
                    m.set_reference(names[from], names[to])
                });
                let there = place(&tree, names[r]).is_some();
                if let Some(p) = place(&tree, names[r]) {
                    tree = edit(&tree, p, &|m| renamed(m, names[from], names[to]));
                }
                if there != result.is_ok() || calls.into_inner() != there as i32 {
                    return Err(bad("reported", format!("{:?} for {:?} of {:?}", result, op, ops)));
                }
                found += there as i32;
                continue;
            }
            Op::Look => (0, Ok(()), 1),
        };
        if let Op::Mark(_) = **op {
            let there = place(&tree, names[r]).is_some();
            if there != result.is_ok() || seen != there as i32 {
                return Err(bad("reported", format!("{:?} for {:?} of {:?}, {} calls", result, op, ops, seen)));
            }
            found += there as i32;
        }
        let got = written(&board)?;
        if got != tree {
            return Err(bad("board", format!("{:?} of {:?}: {}\ninstead of {}", op, ops, got.text(), tree.text())));
        }
        for r in names {
            let want = place(&tree, r).map(|p| match tree {
                X::L(ref v) => v[p].clone(),
                X::A(_) => unreachable!(),
            });
            let got = match board.get_module(r) {
                Some(m) => Some(module_tree(m)?),
                None => None,
            };
            if got != want {
                return Err(bad("lookup", format!("{:?} gives {:?} instead of {:?}", r, got.map(|x| x.text()), want.map(|x| x.text()))));
            }
        }
        let want: Vec<X> = geo::kids(&tree, "module").into_iter().cloned().collect();
        let got: Result<Vec<X>, _> = board.get_modules().iter().map(|m| module_tree(m)).collect();
        if got? != want {
            return Err(bad("modules", format!("the footprints of {} are listed differently", tree.text())));
        }
        for (m, w) in board.get_modules().iter().zip(&want) {
            let rs = refs(w);
            for r in names {
                if m.is_reference_with_name(r) != rs.iter().any(|q| q == r) {
                    return Err(bad("is-reference", format!("{:?} in {}", r, w.text())));
                }
            }
            if m.get_reference().cloned() != rs.first().cloned() {
                return Err(bad("reference", format!("{:?} in {}", m.get_reference(), w.text())));
            }
        }
    }
    if written(&board)? != tree {
        return Err(bad("board", format!("after {:?}: {}\ninstead of {}", ops, written(&board)?.text(), tree.text())));
    }
    Ok(format!("{} of {} found", found, ops.len()))
}

fn parts(k: usize) -> Vec<scgen::Part> {
    let comp = |r: &'static str, name: usize| {
        let mut c = scgen::comp0();
        c.reference = r;
        c.name = name;
        vec![scgen::component(&c)]
    };
    match k {
        0 => comp("R1", 0),
        1 => comp("R2", 0),
        2 => comp("R10", 1),
        3 => comp("R1", 2),
        4 => comp("r1", 0),
        5 => scgen::build("wire", &[0; 5]),
        6 => scgen::build("text", &[0; 9]),
        7 => scgen::build("other", &[0]),
        _ => scgen::build("connection", &[0; 2]),
    }
}
const NPARTS: usize = 9;

#[derive(Clone, Debug)]
enum Cop {
    One(usize),
    All,
    Rename(usize, usize),
}

fn sch_history(text: &str, ops: &[&Cop], names: &[&str]) -> Result<String, (String, String)> {
    let mut s = sc::parse_str(text).map_err(|e| bad("read", e.to_string()))?;
    // each element as text, components with the number of marks they have
    let comps = |s: &sc::Schematic| -> Vec<(String, i64)> { s.components().iter().map(|c| (c.reference.clone(), c.x)).collect() };
    let mut want = comps(&s);
    let skeleton = |s: &sc::Schematic| -> Vec<String> {
        s.elements
            .iter()
            .map(|e| match *e {
                sc::Element::Component(ref c) => {
                    let mut c = c.clone();
                    c.x = 0;
                    c.update_reference(String::new());
                    c.to_string()
                }
                ref e => e.to_string(),
            })
            .collect()
    };
    let bones = skeleton(&s);
    let mut found = 0;
    for op in ops {
        let calls = RefCell::new(vec![]);
        match **op {
            Cop::One(r) => {
                s.modify_component(names[r], |c| {
                    calls.borrow_mut().push(c.reference.clone());
                    c.x += 1000
                });
                let at = want.iter().position(|c| c.0 == names[r]);
                if let Some(p) = at {
                    want[p].1 += 1000;
                    found += 1;
                }
                if calls.borrow().len() != at.is_some() as usize {
                    return Err(bad("calls", format!("{:?} for {:?}", calls.borrow(), op)));
                }
            }
            Cop::All => {
                s.modify_components(|c| {
                    calls.borrow_mut().push(c.reference.clone());
                    c.x += 1
                });
                if *calls.borrow() != want.iter().map(|c| c.0.clone()).collect::<Vec<_>>() {
                    return Err(bad("calls", format!("{:?} instead of {:?}", calls.borrow(), want)));
                }
                for w in &mut want {
                    w.1 += 1
                }
            }
            Cop::Rename(r, to) => {
                s.modify_component(names[r], |c| c.update_reference(names[to].to_string()));
                if let Some(w) = want.iter_mut().find(|c| c.0 == names[r]) {
                    w.0 = names[to].to_string();
                    found += 1;
                }
            }
        }
        if comps(&s) != want {
            return Err(bad("components", format!("{:?} instead of {:?} after {:?} of {:?} on {}", comps(&s), want, op, ops, text)));
        }
        if skeleton(&s) != bones {
            return Err(bad("rest", format!("{:?} instead of {:?}", skeleton(&s), bones)));
        }
        let mut v = s.components();
        v.truncate(1);
        let head = v.len();
        s.collect_components(&mut v);
        if v[head..].iter().map(|c| (c.reference.clone(), c.x)).collect::<Vec<_>>() != want {
            return Err(bad("collected", format!("{:?} instead of {:?}", v, want)));
        }
        for r in names {
            let w = want.iter().find(|c| c.0 == *r).cloned();
            let g = s.component_by_reference(r).ok().map(|c| (c.reference, c.x));
            if g != w {
                return Err(bad("lookup", format!("{:?} gives {:?} instead of {:?}", r, g, w)));
            }
        }
    }
    Ok(format!("{} of {} found", found, ops.len()))
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough();
    let els = elements();
    let mut small = lagen::head0();
    small[19] = 6;
    let empty = lagen::layout_case(&small, &[], 0).input;
    let mut ops = vec![Op::Look];
    for r in 0..REFS.len() {
        ops.push(Op::Mark(r));
        for to in 0..REFS.len() {
            ops.push(Op::Rename(r, r, to));
        }
    }
    ops.push(Op::Rename(0, 4, 1));
    ops.push(Op::Rename(4, 0, 2));
    ops.push(Op::Rename(1, 0, 2));
    let few: Vec<usize> = (0..ops.len()).filter(|&k| !matches!(ops[k], Op::Rename(f, _, t) if f > 1 || t > 1)).collect();
    let boards = sequences(els.len(), if t { 4 } else { 3 });
    let one = sequences(ops.len(), 1);
    let two = sequences(ops.len(), 2);
    let three: Vec<Vec<usize>> = sequences(few.len(), 3).into_iter().map(|s| s.iter().map(|&k| few[k]).collect()).collect();
    parallel(ctx, |c, shard, of| {
        for (k, b) in boards.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            let mut tree = empty.clone();
            if let X::L(ref mut v) = tree {
                v.extend(b.iter().map(|&e| els[e].clone()));
            }
            let board = match la::parse(&tree.text()) {
                Ok(x) => x,
                Err(e) => {
                    c.violation("read", &format!("board:{:?}", b), format!("{}: {}", e, tree.text()));
                    continue;
                }
            };
            let hs = match b.len() {
                0 | 1 => &three,
                2 => &two,
                _ => &one,
            };
            for h in hs {
                c.transitions += h.len() as u64;
                c.state(&("board", b, h));
                let o: Vec<&Op> = h.iter().map(|&q| &ops[q]).collect();
                c.sample("board", || format!("{:?} on {}", o, tree.text()));
                c.case(&format!("board:{:?}:{:?}", b, h), || board_history(&board, &o, REFS));
            }
        }
    });
    let mut ops = vec![Cop::All];
    for r in 0..REFS.len() {
        ops.push(Cop::One(r));
        for to in 0..3 {
            ops.push(Cop::Rename(r, to));
        }
    }
    let h0 = scgen::head(&scgen::head0());
    let docs = sequences(NPARTS, if t { 5 } else { 4 });
    let (one, two, three) = (sequences(ops.len(), 1), sequences(ops.len(), 2), sequences(ops.len(), 3));
    parallel(ctx, |c, shard, of| {
        for (k, d) in docs.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            let p: Vec<scgen::Part> = d.iter().flat_map(|&q| parts(q)).collect();
            let text = c03::canonical(&h0, &p);
            let hs = match d.len() {
                0 | 1 => &three,
                2 | 3 => &two,
                _ => &one,
            };
            for h in hs {
                c.transitions += h.len() as u64;
                c.state(&("sch", d, h));
                let o: Vec<&Cop> = h.iter().map(|&q| &ops[q]).collect();
                c.case(&format!("sch:{:?}:{:?}", d, h), || sch_history(&text, &o, REFS));
            }
        }
    });
    wide(ctx);
}

/// references of every form and nearly equal ones, any number of items, every form of the items
fn wide(ctx: &mut Ctx) {
    let t = ctx.thorough();
    let words = shape::texts("\"\\");
    let mut pairs: Vec<(String, String)> = words.iter().map(|w| (w.clone(), "x".to_string())).collect();
    for w in ["R1", "U10", "#PWR01", "J?", "REF**", "C3A", "Part 1"] {
        for n in shape::near(w) {
            if n.contains('\\') {
                continue;
            }
            pairs.push((w.to_string(), n.clone()));
            pairs.push((n, w.to_string()));
        }
    }
    let ops: Vec<Vec<Op>> = vec![
        vec![Op::Look, Op::Mark(0), Op::Rename(0, 0, 1), Op::Look],
        vec![Op::Rename(1, 1, 0), Op::Mark(0), Op::Mark(1)],
        vec![Op::Rename(0, 1, 0), Op::Mark(1), Op::Look],
    ];
    parallel(ctx, |c, shard, of| {
        for (k, (r, q)) in pairs.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            let els = vec![
                module(r, &[("value", r), ("user", r)]),
                module("M", &[("reference", q), ("value", r)]),
                module("M", &[("value", "v"), ("reference", r), ("user", q)]),
                module("M", &[("reference", r), ("reference", q)]),
            ];
            let tree = shape::board(els);
            let board = match la::parse(&tree.text()) {
                Ok(x) => x,
                Err(e) => {
                    c.violation("read", &format!("names:{:?}:{:?}", r, q), format!("{}: {}", e, tree.text()));
                    continue;
                }
            };
            for (i, h) in ops.iter().enumerate() {
                c.transitions += h.len() as u64;
                c.state(&("names", r, q, i));
                let o: Vec<&Op> = h.iter().collect();
                c.sample("names", || format!("{:?} {:?}: {:?}", r, q, o));
                c.case(&format!("names:{:?}:{:?}:{}", r, q, i), || board_history(&board, &o, &[r, q, "y"]));
            }
        }
    });
    let counts = shape::counts(if t { 100 } else { 30 });
    parallel(ctx, |c, shard, of| {
        for (k, &n) in counts.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            let text = shape::board((0..n).map(|i| module("M", &[("reference", &format!("R{}", i))])).collect()).text();
            for at in [0, n / 3, n / 2, n - n.min(1), n] {
                c.transitions += 2;
                c.state(&("many", n, at));
                c.case(&format!("many:{}:{}", n, at), || {
                    let board = la::parse(&text).map_err(|e| bad("read", e.to_string()))?;
                    board_history(&board, &[&Op::Mark(0), &Op::Rename(0, 0, 1)], &[&format!("R{}", at), "x"])
                });
            }
        }
    });
    // between elements of every form
    let forms: Vec<(String, bool, X)> = shape::elements(1);
    parallel(ctx, |c, shard, of| {
        for (k, (label, part, x)) in forms.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            let mut m = module("M", &[("value", "v")]);
            if let (X::L(ref mut v), true) = (&mut m, *part) {
                v.push(x.clone());
            }
            let mut last = module("M", &[("reference", "R1")]);
            if let (X::L(ref mut v), true) = (&mut last, *part) {
                v.push(x.clone());
            }
            let tree = shape::board(if *part { vec![m, last] } else { vec![x.clone(), m, x.clone(), last, x.clone()] });
            let board = match la::parse(&tree.text()) {
                Ok(x) => x,
                Err(e) => {
                    c.violation("read", &format!("form:{}", label), format!("{}: {}", e, tree.text()));
                    continue;
                }
            };
            for (i, h) in [[Op::Mark(0), Op::Rename(0, 0, 1)], [Op::Rename(0, 1, 2), Op::Mark(1)]].iter().enumerate() {
                c.transitions += 2;
                c.state(&("form", label, i));
                let o: Vec<&Op> = h.iter().collect();
                c.case(&format!("form:{}:{}", label, i), || board_history(&board, &o, REFS));
            }
        }
    });
    // and in schematics
    let h0 = scgen::head(&scgen::head0());
    let base = c03::canonical(&h0, &[scgen::component(&scgen::comp0())]);
    let one = |r: &str| base.replace("L R U1", &format!("L R {}", r));
    let cut = |t: &str| -> String { t.lines().skip_while(|l| *l != "$Comp").take_while(|l| *l != "$EndSCHEMATC").map(|l| format!("{}\n", l)).collect() };
    let head: String = base.lines().take_while(|l| *l != "$Comp").map(|l| format!("{}\n", l)).collect();
    let word = |w: &str| !w.is_empty() && !w.contains(|c: char| c.is_whitespace());
    let mut docs: Vec<(String, String, Vec<String>)> = vec![];
    for (r, q) in &pairs {
        if word(r) && word(q) {
            docs.push((format!("{:?}:{:?}", r, q), format!("{}{}{}{}$EndSCHEMATC\n", head, cut(&one(q)), cut(&one(r)), cut(&one(r))), vec![r.clone(), q.clone()]))
        }
    }
    for &n in &counts {
        let parts: String = (0..n).map(|i| cut(&one(&format!("R{}", i)))).collect();
        for at in [0, n / 3, n / 2, n - n.min(1), n] {
            docs.push((format!("{}:{}", n, at), format!("{}{}$EndSCHEMATC\n", head, parts), vec![format!("R{}", at), "x".into()]))
        }
    }
    for kind in scgen::KINDS {
        for d in deviations(&scgen::dims(kind), if t { 3 } else { 2 }) {
            let first: String = cut(&one("Q7"));
            let form = c03::canonical(&h0, &scgen::build(kind, &d));
            let lines = head.lines().count();
            let form: String = form.lines().skip(lines).take_while(|l| *l != "$EndSCHEMATC").map(|l| format!("{}\n", l)).collect();
            docs.push((format!("{}:{:?}", kind, d), format!("{}{}{}{}$EndSCHEMATC\n", head, form, first, form), vec!["Q7".into(), "U1".into()]))
        }
    }
    let ops: Vec<Vec<Cop>> = vec![vec![Cop::One(0), Cop::All, Cop::Rename(0, 1)], vec![Cop::Rename(1, 0), Cop::One(1), Cop::One(0)]];
    parallel(ctx, |c, shard, of| {
        for (k, (label, text, names)) in docs.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            let names: Vec<&str> = names.iter().map(|n| &n[..]).collect();
            for (i, h) in ops.iter().enumerate() {
                c.transitions += h.len() as u64;
                c.state(&("sheet", label, i));
                let o: Vec<&Cop> = h.iter().collect();
                c.case(&format!("sheet:{}:{}", label, i), || sch_history(text, &o, &names));
            }
        }
    });
}
