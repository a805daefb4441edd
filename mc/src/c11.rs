use crate::core::*;
use crate::fpgen;
use crate::geo;
use crate::lagen;
use crate::shape;
use crate::sx::{self, a, i, l, l1, n, X};
use kicad_parse_gen::error::KicadError;
use kicad_parse_gen::layout as la;
use std::cell::RefCell;
use std::sync::OnceLock;

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

/// the first ones for longer histories, all of them in one board
pub const NAMES: &[&str] = &[
    "A", "B", "AB", "", "Net-(R1-Pad1)", "/s/A", "a", "A B", "/A", "A/", "//A", "BA", "AA", " A", "A ", "A\t", "~A", "~A~", "A_N", "-A", "+A", "A.", "A1", "A01", "0", "1", "\u{e9}", "e\u{301}", "/s/t/A", "/S/A", "s/A", "Net-(R1-Pad2)", "Net-(r1-Pad1)", "Net-(R1-Pad1", "NET-(R1-Pad1)", "\u{410}", "A\u{200b}",
];
const CORE: usize = 8;

#[derive(Clone, Debug)]
enum Op {
    Rename(usize, usize),
    /// in the footprints only
    RenamePads(usize, usize),
    /// a function over all names
    Bulk,
    /// one that refuses a name
    Refuse(usize),
    AddNet(i64, usize),
    AddClass(usize),
    AddClassOf(usize),
}

const CLASSES: &[(&str, &str, &[&str])] = &[("C", "text", &["A", "B"]), ("A", "A", &[])];

fn module(pads: &[Option<usize>], text: &str) -> X {
    let mut v = vec![
        a("M"),
        l1("layer", a("F.Cu")),
        l1("tedit", a("5A5A5A5A")),
        l("at", vec![n(1.5), n(2.5)]),
        l1("descr", a(text)),
        l(
            "fp_text",
            vec![
                a("reference"),
                a(text),
                l("at", vec![n(0.0), n(0.0)]),
                l1("layer", a("F.SilkS")),
                l1("effects", l("font", vec![l("size", vec![n(1.0), n(1.0)]), l1("thickness", n(0.15))])),
            ],
        ),
    ];
    for (k, p) in pads.iter().enumerate() {
        let mut q = vec![
            a("A"),
            a("smd"),
            a("rect"),
            l("at", vec![n(k as f64), n(0.5)]),
            l("size", vec![n(1.0), n(2.0)]),
            l("layers", vec![a("F.Cu"), a("F.Paste")]),
        ];
        if let Some(x) = p {
            q.push(l("net", vec![i(k as i64 + 1), a(name(*x))]))
        }
        v.push(l("pad", q));
    }
    l("module", v)
}

/// the names above, then texts of every form and nearly equal ones
fn name(k: usize) -> &'static str {
    all()[k]
}

fn all() -> &'static [&'static str] {
    static ALL: OnceLock<Vec<&'static str>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut more = shape::texts("\"\\");
        for w in ["GND", "/s/A", "Net-(R1-Pad1)", "A"] {
            more.push(w.into());
            more.extend(shape::near(w))
        }
        more.retain(|w| !w.contains('"') && !w.contains('\\') && !NAMES.contains(&&w[..]));
        more.sort();
        more.dedup();
        let mut v = NAMES.to_vec();
        for w in more {
            v.push(Box::leak(w.into_boxed_str()))
        }
        v
    })
}

fn class(name: &str, desc: &str, nets: &[&str]) -> X {
    let mut v = vec![a(name), a(desc)];
    for (k, q) in ["clearance", "trace_width", "via_dia", "via_drill", "uvia_dia", "uvia_drill"].iter().enumerate() {
        v.push(l1(q, n(k as f64 + 0.5)))
    }
    for q in nets {
        v.push(l1("add_net", a(*q)))
    }
    l("net_class", v)
}

fn zone(name: usize) -> X {
    let e = lagen::build("zone", &vec![0; lagen::dims("zone").len()]).output;
    set(&e, "net_name", self::name(name))
}

fn set(x: &X, part: &str, to: &str) -> X {
    match x {
        X::L(v) => X::L(v.iter().map(|y| if matches!(y, X::L(_)) && y.head() == part { l1(part, a(to)) } else { y.clone() }).collect()),
        X::A(_) => x.clone(),
    }
}

fn elements() -> Vec<X> {
    let mut v = vec![];
    for k in 0..CORE {
        v.push(l("net", vec![i(k as i64), a(NAMES[k])]));
    }
    for nets in [&[][..], &["A"], &["A", "B"], &["B", "A", "A"], &["AB", "", "A"], &["A B", "a", "/s/A"]] {
        v.push(class("Default", "x", nets));
        v.push(class("A", "A", nets));
    }
    for pads in [
        &[][..],
        &[None],
        &[Some(0)],
        &[Some(0), Some(1)],
        &[None, Some(0), Some(0), Some(2)],
        &[Some(3), None, Some(5)],
        &[Some(4), Some(4), Some(4)],
    ] {
        v.push(module(pads, "A"));
    }
    for k in [0, 1, 2, 3] {
        v.push(zone(k));
    }
    for (kind, k) in [("segment", 0), ("gr_text", 0), ("via", 0)] {
        v.push(lagen::build(kind, &vec![k; lagen::dims(kind).len()]).output);
    }
    v.push(l("net_tie", vec![a("A"), l("net", vec![i(1), a("A")]), l1("net_name", a("A"))]));
    let t = lagen::build("gr_text", &vec![0; lagen::dims("gr_text").len()]).output;
    if let X::L(mut w) = t {
        w[1] = a("A");
        v.push(X::L(w));
    }
    v
}

/// the tree with every net name mapped, in file order
fn map(board: &X, f: &mut dyn FnMut(&str) -> String) -> X {
    fn list(x: &X, f: &mut dyn FnMut(&X) -> X) -> X {
        match x {
            X::L(v) => X::L(v.iter().map(|y| f(y)).collect()),
            X::A(_) => x.clone(),
        }
    }
    fn at(x: &X, k: usize, f: &mut dyn FnMut(&str) -> String) -> X {
        match x {
            X::L(v) => {
                let mut v = v.clone();
                if let X::A(ref s) = v[k].clone() {
                    v[k] = a(f(s))
                }
                X::L(v)
            }
            X::A(_) => x.clone(),
        }
    }
    list(board, &mut |e| match e.head() {
        "net" => at(e, 2, f),
        "net_class" => list(e, &mut |p| if p.head() == "add_net" { at(p, 1, f) } else { p.clone() }),
        "module" => list(e, &mut |p| if p.head() == "pad" { list(p, &mut |q| if q.head() == "net" { at(q, 2, f) } else { q.clone() }) } else { p.clone() }),
        "zone" => list(e, &mut |p| if p.head() == "net_name" { at(p, 1, f) } else { p.clone() }),
        _ => e.clone(),
    })
}

fn names(board: &X) -> Vec<String> {
    let mut v = vec![];
    map(board, &mut |s| {
        v.push(s.to_string());
        s.to_string()
    });
    v
}

fn written(l: &la::Layout) -> Result<X, (String, String)> {
    let s = la::layout_to_string(l, 0).map_err(|e| bad("write", e.to_string()))?;
    sx::read(&s).map_err(|e| bad("write", e))
}

/// what the lookups say
fn lookups(board: &la::Layout, tree: &X) -> Result<(), (String, String)> {
    let want: Vec<(String, String)> = geo::kids(tree, "net").iter().map(|q| (geo::words(q)[0].to_string(), geo::words(q)[1].to_string())).collect();
    let got: Vec<(String, String)> = board.nets().iter().map(|q| (q.num.to_string(), q.name.0.clone())).collect();
    if want != got {
        return Err(bad("nets", format!("{:?} instead of {:?}", got, want)));
    }
    let classes = geo::kids(tree, "net_class");
    let got = board.netclasses();
    if got.len() != classes.len() {
        return Err(bad("classes", format!("{} net classes instead of {}", got.len(), classes.len())));
    }
    for (g, w) in got.iter().zip(classes) {
        let nets: Vec<String> = geo::kids(w, "add_net").iter().map(|q| geo::words(q)[0].to_string()).collect();
        let have: Vec<String> = g.nets.iter().map(|q| q.0.clone()).collect();
        if g.name != geo::words(w)[0] || g.desc != geo::words(w)[1] || nets != have {
            return Err(bad("classes", format!("{:?} instead of {}", g, w.text())));
        }
        for q in NAMES {
            if g.has_net(q) != nets.iter().any(|z| z == q) {
                return Err(bad("has-net", format!("{:?} in {:?}", q, nets)));
            }
        }
    }
    Ok(())
}

fn history(start: &la::Layout, ops: &[&Op]) -> Result<String, (String, String)> {
    let mut board = lagen::copy(start);
    let mut tree = written(&board)?;
    let mut changed = 0;
    for op in ops {
        let before = tree.clone();
        match **op {
            Op::Rename(from, to) => {
                board.change_net_name(name(from), name(to));
                tree = map(&tree, &mut |s| if s == name(from) { name(to).into() } else { s.into() });
            }
            Op::RenamePads(from, to) => {
                for e in &mut board.elements {
                    if let la::Element::Module(ref mut m) = *e {
                        m.rename_net(name(from), name(to))
                    }
                }
                tree = match tree {
                    X::L(v) => X::L(v.iter().map(|e| if e.head() == "module" { geo::first(&map(&X::L(vec![e.clone()]), &mut |s| if s == name(from) { name(to).into() } else { s.into() })) } else { e.clone() }).collect()),
                    x => x,
                };
            }
            Op::Bulk => {
                let seen = RefCell::new(vec![]);
                let r = board.update_net_names(|q: &mut la::NetName| -> Result<(), KicadError> {
                    seen.borrow_mut().push(q.0.clone());
                    q.0 = format!("{}x", q.0);
                    Ok(())
                });
                if let Err(e) = r {
                    return Err(bad("bulk-error", e.to_string()));
                }
                let mut want = names(&tree);
                let mut got = seen.into_inner();
                want.sort();
                got.sort();
                if want != got {
                    return Err(bad("bulk-calls", format!("called for {:?} instead of {:?}", got, want)));
                }
                tree = map(&tree, &mut |s| format!("{}x", s));
            }
            Op::Refuse(k) => {
                let log = RefCell::new(vec![]);
                let r = board.update_net_names(|q: &mut la::NetName| -> Result<(), KicadError> {
                    let refuse = q.0 == name(k);
                    log.borrow_mut().push(refuse);
                    if refuse {
                        return Err("refused".to_string().into());
                    }
                    q.0 = format!("{}y", q.0);
                    Ok(())
                });
                let log = log.into_inner();
                let expect = names(&tree).iter().any(|s| s == name(k));
                if r.is_err() != expect {
                    return Err(bad("refused", format!("{:?} for {:?}", r, names(&tree))));
                }
                if log.iter().take(log.len().saturating_sub(1)).any(|q| *q) {
                    return Err(bad("not-stopped", format!("{:?}", log)));
                }
                // each name was changed at most once, as often as the function ran
                let got = written(&board)?;
                let done = names(&got);
                let mut count = 0;
                let mut it = done.iter();
                let mut bad_name = None;
                tree = map(&tree, &mut |s| match it.next() {
                    Some(d) if d == s => s.to_string(),
                    Some(d) if *d == format!("{}y", s) && s != name(k) => {
                        count += 1;
                        d.clone()
                    }
                    d => {
                        bad_name = Some(format!("{:?} instead of {:?}", d, s));
                        s.to_string()
                    }
                });
                if let Some(b) = bad_name {
                    return Err(bad("refused-name", b));
                }
                if count != log.iter().filter(|q| !**q).count() {
                    return Err(bad("refused-count", format!("{} names changed, log {:?}", count, log)));
                }
            }
            Op::AddNet(num, k) => {
                board.add_net(num, name(k));
                append(&mut tree, l("net", vec![i(num), a(name(k))]));
            }
            Op::AddClassOf(k) => {
                board.add_netclass(name(k), name(k), 0.5, 1.5, 2.5, 3.5, 4.5, 5.5, None, None, vec!["A".into(), name(k).into(), name(k).into()]);
                append(&mut tree, class(name(k), name(k), &["A", name(k), name(k)]));
            }
            Op::AddClass(k) => {
                let (label, desc, nets) = CLASSES[k];
                board.add_netclass(label, desc, 0.5, 1.5, 2.5, 3.5, 4.5, 5.5, None, None, nets.iter().map(|s| s.to_string()).collect());
                append(&mut tree, class(label, desc, nets));
            }
        }
        let got = written(&board)?;
        if got != tree {
            let e = sx::same(&tree, &got).err().unwrap_or_default();
            return Err(bad("content", format!("after {:?} of {:?}: {}\nwas {}\nis {}", op, ops, e, before.text(), got.text())));
        }
        lookups(&board, &tree)?;
        if before != tree {
            changed += 1
        }
    }
    Ok(format!("{} of {} steps changed something", changed, ops.len()))
}

fn append(board: &mut X, e: X) {
    if let X::L(ref mut v) = *board {
        v.push(e)
    }
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough();
    let els = elements();
    let mut small = lagen::head0();
    small[19] = 6;
    let empty = lagen::layout_case(&small, &[], 0).input;
    let mut ops = vec![];
    for from in 0..CORE {
        for to in 0..CORE {
            if from < 4 || to == 0 || from == to {
                ops.push(Op::Rename(from, to));
            }
        }
    }
    ops.push(Op::RenamePads(0, 1));
    ops.push(Op::RenamePads(1, 0));
    ops.push(Op::RenamePads(3, 0));
    ops.push(Op::Bulk);
    for k in 0..4 {
        ops.push(Op::Refuse(k));
    }
    ops.push(Op::AddNet(7, 0));
    ops.push(Op::AddNet(0, 3));
    ops.push(Op::AddClass(0));
    ops.push(Op::AddClass(1));
    // the few that matter most, for longer histories
    let few: Vec<usize> = (0..ops.len())
        .filter(|&k| match ops[k] {
            Op::Rename(f, t) => f < 3 && t < 3 || f == 0 && t == 3 || f == 3 && t == 0,
            Op::Refuse(k) => k == 0,
            _ => true,
        })
        .collect();
    // and fewer still, for larger boards
    let core: Vec<usize> = (0..ops.len())
        .filter(|&k| match ops[k] {
            Op::Rename(0, 1) | Op::Rename(1, 0) | Op::Rename(0, 3) | Op::RenamePads(0, 1) | Op::Bulk | Op::Refuse(0) | Op::AddNet(7, _) => true,
            _ => false,
        })
        .collect();
    let one: Vec<Vec<usize>> = sequences(few.len(), 3).into_iter().map(|s| s.iter().map(|&q| few[q]).collect()).chain((0..ops.len()).map(|k| vec![k])).collect();
    let two: Vec<Vec<usize>> = (0..ops.len()).map(|k| vec![k]).chain(sequences(core.len(), 2).into_iter().map(|s| s.iter().map(|&q| core[q]).collect())).collect();
    let three: Vec<Vec<usize>> = core.iter().map(|&k| vec![k]).collect();
    let boards = sequences(els.len(), 3);
    parallel(ctx, |c, shard, of| {
        for (nb, b) in boards.iter().enumerate() {
            if nb % of != shard {
                continue;
            }
            let v: Vec<X> = b.iter().map(|&k| els[k].clone()).collect();
            let hist = match b.len() {
                0 | 1 => &one,
                2 => &two,
                _ if t => &two,
                _ => &three,
            };
            let h: Vec<Vec<&Op>> = hist.iter().map(|h| h.iter().map(|&k| &ops[k]).collect()).collect();
            check(c, &format!("{:?}", b), &empty, &v, &h);
        }
    });
    // every form of the elements that carry names, and what surrounds them
    let single: Vec<Vec<&Op>> = ops.iter().map(|o| vec![o]).collect();
    let forms = forms(if t { 2 } else { 1 });
    parallel(ctx, |c, shard, of| {
        for (k, (label, e)) in forms.iter().enumerate() {
            if k % of == shard {
                check(c, label, &empty, &[e.clone()], &single);
            }
        }
    });
    // many similar names in one board, each renamed to each
    let mut v: Vec<X> = NAMES.iter().enumerate().map(|(k, q)| l("net", vec![i(k as i64), a(*q)])).collect();
    v.push(class("Default", "", NAMES));
    v.push(module(&(0..NAMES.len()).map(Some).collect::<Vec<_>>(), "A"));
    for k in 0..NAMES.len() {
        v.push(zone(k));
    }
    let mut pairs = vec![];
    for from in 0..NAMES.len() {
        for to in 0..NAMES.len() {
            pairs.push(Op::Rename(from, to));
            pairs.push(Op::RenamePads(from, to));
        }
        pairs.push(Op::Refuse(from));
    }
    parallel(ctx, |c, shard, of| {
        let h: Vec<Vec<&Op>> = pairs.iter().enumerate().filter(|q| q.0 % of == shard).map(|q| vec![q.1]).collect();
        check(c, "names", &empty, &v, &h);
    });
    wide(ctx, &empty);
}

/// every name, and any number of places that have it
fn wide(ctx: &mut Ctx, empty: &X) {
    let n = all().len();
    parallel(ctx, |c, shard, of| {
        for k in 0..n {
            if k % of != shard {
                continue;
            }
            let (w, b) = (name(k), 1);
            let els = vec![
                l("net", vec![i(0), a("")]),
                l("net", vec![i(1), a(w)]),
                l("net", vec![i(2), a("B")]),
                class("Default", w, &["B", w, "B"]),
                class(w, "d", &[w]),
                module(&[Some(k), None, Some(b), Some(k)], w),
                zone(k),
                zone(b),
                zone(3),
            ];
            let ops = [vec![Op::Rename(k, 0)], vec![Op::Rename(b, k), Op::Rename(k, b)], vec![Op::RenamePads(k, b)], vec![Op::RenamePads(b, k)], vec![Op::Refuse(k)], vec![Op::Bulk, Op::Rename(k, b)], vec![Op::AddNet(7, k), Op::AddClassOf(k), Op::Rename(k, 5)], vec![Op::Rename(3, k)], vec![Op::Rename(k, 3), Op::Rename(3, k)], vec![Op::Rename(k, k)]];
            let h: Vec<Vec<&Op>> = ops.iter().map(|o| o.iter().collect()).collect();
            check(c, &format!("wide:{:?}", w), empty, &els, &h);
        }
    });
    // those nearly equal to one in one board, each renamed
    for w in ["GND", "/s/A", "Net-(R1-Pad1)", "A"] {
        let near = shape::near(w);
        let these: Vec<usize> = (0..n).filter(|&k| name(k) == w || near.iter().any(|q| q == name(k))).collect();
        let mut v = vec![];
        for &k in &these {
            v.push(l("net", vec![i(k as i64), a(name(k))]));
            v.push(zone(k))
        }
        v.push(class("Default", "", &these.iter().map(|&k| name(k)).collect::<Vec<_>>()));
        v.push(module(&these.iter().map(|&k| Some(k)).collect::<Vec<_>>(), "A"));
        parallel(ctx, |c, shard, of| {
            let ops: Vec<Op> = these.iter().filter(|k| *k % of == shard).map(|&k| Op::Rename(k, 1)).collect();
            let h: Vec<Vec<&Op>> = ops.iter().map(|o| vec![o]).collect();
            check(c, &format!("near:{}", w), empty, &v, &h);
        });
    }
    let (ren, pads, bulk, refuse) = (Op::Rename(0, 1), Op::RenamePads(0, 1), Op::Bulk, Op::Refuse(1));
    let h: Vec<Vec<&Op>> = vec![vec![&ren], vec![&pads], vec![&bulk], vec![&refuse], vec![&ren, &refuse]];
    let net = l("net", vec![i(1), a("A")]);
    let counts = shape::counts(if ctx.thorough() { 300 } else { 12 });
    parallel(ctx, |c, shard, of| {
        for (k, &m) in counts.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            let boards: Vec<(&str, Vec<X>)> = vec![
                ("nets", vec![net.clone(); m]),
                ("class", vec![class("C", "d", &vec!["A"; m])]),
                ("classes", vec![class("C", "d", &["A"]); m]),
                ("pads", vec![module(&vec![Some(0); m], "A")]),
                ("modules", vec![module(&[Some(0)], "A"); m]),
                ("zones", vec![zone(0); m]),
                ("others", vec![lagen::build("segment", &vec![0; lagen::dims("segment").len()]).output; m]),
            ];
            for (what, mut els) in boards {
                els.push(net.clone());
                els.push(zone(0));
                check(c, &format!("many:{}:{}", what, m), empty, &els, &h);
            }
        }
    });
}

/// zones, pads, nets, classes and footprints in every form, with the name A
fn forms(k: usize) -> Vec<(String, X)> {
    let mut v = vec![];
    for d in deviations(&lagen::dims("zone"), k) {
        v.push((format!("zone:{:?}", d), set(&lagen::build("zone", &d).output, "net_name", "A")));
    }
    let base = module(&[Some(0)], "A");
    let with = |e: X, front: bool| {
        let mut m = base.clone();
        if let X::L(ref mut w) = m {
            let at = if front { 2 } else { w.len() };
            w.insert(at, e);
        }
        m
    };
    for d in fpgen::variants("pad", k) {
        let mut e = fpgen::build("pad", &d).output;
        if let X::L(ref mut w) = e {
            for q in w.iter_mut() {
                if q.head() == "net" {
                    if let X::L(ref mut z) = *q {
                        z[2] = a("A")
                    }
                }
            }
        }
        v.push((format!("pad:{:?}", d), with(e, false)));
    }
    for w in shape::texts("\"\\") {
        let mut m = base.clone();
        if let X::L(ref mut z) = m {
            if let Some(X::L(ref mut pad)) = z.iter_mut().find(|q| q.head() == "pad") {
                pad[1] = a(w.clone())
            }
        }
        v.push((format!("padname:{:?}", w), m));
    }
    for (name, e) in fpgen::representatives() {
        v.push((format!("front:{}", name), with(e.output.clone(), true)));
        v.push((format!("back:{}", name), with(e.output, false)));
    }
    for num in [0, 1, -1, 1 << 40] {
        v.push((format!("net:{}", num), l("net", vec![i(num), a("A")])));
    }
    for d in deviations(&lagen::dims("net_class"), k) {
        let mut e = lagen::build("net_class", &d).output;
        if let X::L(ref mut w) = e {
            w.push(l1("add_net", a("A")))
        }
        v.push((format!("class:{:?}", d), e));
    }
    v
}

/// every history on one board
fn check(c: &mut Ctx, name: &str, empty: &X, els: &[X], hist: &[Vec<&Op>]) {
    let mut tree = empty.clone();
    for e in els {
        append(&mut tree, e.clone());
    }
    let text = tree.text();
    let board = match la::parse(&text) {
        Ok(x) => x,
        Err(e) => {
            c.violation("read", &format!("board:{}", name), format!("{}: {}", e, text));
            return;
        }
    };
    for h in hist {
        c.transitions += h.len() as u64;
        let label = format!("{}:{:?}", name, h);
        if !c.state(&label) {
            continue;
        }
        c.sample("history", || format!("{:?} on {}", h, text));
        c.case(&label, || history(&board, h));
    }
}
