use crate::core::*;
use crate::fpgen::{self, Case};
use crate::geo;
use crate::lagen;
use crate::shape;
use crate::sx::{self, X};
use kicad_parse_gen::layout as la;
use kicad_parse_gen::Adjust;

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

pub const OFFSETS: &[(f64, f64)] = &[(0.0, 0.0), (100.0, 0.0), (0.0, -50.5), (-1.25, 2.5), (0.125, 0.125), (-2000.0, 3000.0)];

/// distances in each direction
const STEPS: &[f64] = &[0.0, 0.125, -1.25, 7.0, -100.0, 2000.5, -0.000001, 25.4, 1.0, -1.0];

fn offset(m: usize) -> (f64, f64) {
    if m < OFFSETS.len() {
        return OFFSETS[m];
    }
    let g = m - OFFSETS.len();
    (STEPS[g / STEPS.len()], STEPS[g % STEPS.len()])
}

fn written(l: &la::Layout) -> Result<X, (String, String)> {
    let s = la::layout_to_string(l, 0).map_err(|e| bad("write", e.to_string()))?;
    sx::read(&s).map_err(|e| bad("write", e))
}

/// a sequence of moves, compared with the moved text after every one of them
fn check(value: &la::Layout, moves: &[usize]) -> Result<String, (String, String)> {
    let mut l = lagen::copy(value);
    let start = written(&l)?;
    let mut want = start.clone();
    let mut total = (0.0, 0.0);
    for &m in moves {
        let (dx, dy) = offset(m);
        l.adjust(dx, dy);
        want = geo::shift(&want, dx, dy);
        total = (total.0 + dx, total.1 + dy);
        let got = written(&l)?;
        geo::near(&want, &got).map_err(|e| bad("moved", format!("after {:?}: {}\nstart {}", moves, e, start.text())))?;
    }
    // consecutive moves add up
    let mut once = lagen::copy(value);
    once.adjust(total.0, total.1);
    geo::near(&want, &written(&once)?).map_err(|e| bad("sum", format!("{:?} at once: {}\nstart {}", moves, e, start.text())))?;
    // and back
    l.adjust(-total.0, -total.1);
    geo::near(&start, &written(&l)?).map_err(|e| bad("back", format!("{:?} and back: {}\nstart {}", moves, e, start.text())))?;
    Ok(if want == start { "unmoved" } else { "moved" }.into())
}

/// a footprint with a position, as a board element
pub fn placed(e: &Case<fpgen_element::E>, at: (f64, f64)) -> Case<la::Element> {
    let (x, v, o) = fpgen::at(at.0, at.1, None);
    let pos = Case {
        input: x,
        value: kicad_parse_gen::footprint::Element::At(v),
        output: o,
    };
    let m = fpgen::module_case("m", &[pos, e.clone()]);
    Case {
        input: m.input,
        value: la::Element::Module(m.value),
        output: m.output,
    }
}

fn at(x: f64, y: f64) -> X {
    sx::l("at", vec![sx::n(x), sx::n(y)])
}

fn read(x: &X, moves: &[usize]) -> Result<String, (String, String)> {
    match la::parse(&x.text()) {
        Ok(l) => check(&l, moves),
        // a number of a kind that is not taken there
        Err(_) => Ok("refused".into()),
    }
}

pub mod fpgen_element {
    pub type E = kicad_parse_gen::footprint::Element;
}

pub fn run(ctx: &mut Ctx) {
    let k = if ctx.thorough() { 3 } else { 2 };
    let mut small = lagen::head0();
    small[19] = 6;
    let mut jobs: Vec<(String, Vec<usize>, bool)> = vec![];
    for kind in lagen::KINDS {
        for d in deviations(&lagen::dims(kind), k) {
            jobs.push((kind.to_string(), d, false));
        }
    }
    for kind in fpgen::KINDS {
        if *kind == "at" {
            continue;
        }
        for d in fpgen::variants(kind, k - 1) {
            jobs.push((kind.to_string(), d, true));
        }
    }
    let moves = sequences(OFFSETS.len(), 2);
    parallel(ctx, |c, shard, of| {
        for (n, (kind, d, fp)) in jobs.iter().enumerate() {
            if n % of != shard {
                continue;
            }
            let e = if *fp { placed(&fpgen::build(kind, d), (10.0, -20.0)) } else { lagen::build(kind, d) };
            let m = lagen::layout_case(&small, &[e], 0);
            // all pairs of moves for the base forms, single moves otherwise
            let base = d.iter().filter(|x| **x != 0).count() < k - 1;
            for s in &moves {
                if !base && s.len() != 1 {
                    continue;
                }
                c.step();
                let label = format!("{}:{:?}:{:?}", kind, d, s);
                if c.state(&(m.output.text(), s)) {
                    c.sample(kind, || format!("moves {:?} of {}", s, m.output.text()));
                    c.case(&label, || check(&m.value, s));
                }
            }
        }
    });
    // boards of several elements
    let mut reps = lagen::la_representatives();
    reps.push(("placed".into(), placed(&fpgen::representatives()[1].1, (3.0, 4.0))));
    let seqs = sequences(reps.len(), if ctx.thorough() { 4 } else { 3 });
    let long = sequences(OFFSETS.len(), 3);
    let head = lagen::head0();
    parallel(ctx, |c, shard, of| {
        for (n, s) in seqs.iter().enumerate() {
            if n % of != shard {
                continue;
            }
            let els: Vec<_> = s.iter().map(|&r| reps[r].1.clone()).collect();
            let m = lagen::layout_case(&head, &els, 0);
            let ms: Vec<Vec<usize>> = if s.len() < 2 { long.clone() } else { vec![long[1 + n % (long.len() - 1)].clone(), vec![3]] };
            for mv in ms {
                c.step();
                let label = format!("seq:{:?}:{:?}", s, mv);
                if c.state(&(s, &mv)) {
                    c.case(&label, || check(&m.value, &mv));
                }
            }
        }
    });
    // equal numbers, numbers far from the others, lists of every length
    let els = shape::elements(if ctx.thorough() { 1 } else { 0 });
    parallel(ctx, |c, shard, of| {
        for (n, (label, foot, e)) in els.iter().enumerate() {
            if n % of != shard || e.head() == "at" {
                continue;
            }
            let mut all = shape::equal(e);
            all.extend(shape::far(e));
            for (what, y) in all {
                let x = shape::board(vec![if *foot { shape::footprint(vec![at(10.0, -20.0), y]) } else { y }]);
                for m in 1..OFFSETS.len() {
                    c.step();
                    if c.state(&(x.text(), m)) {
                        c.case(&format!("{}:{}:{}", label, what, m), || read(&x, &[m]));
                    }
                }
            }
        }
    });
    // every element that far in every direction
    let els = shape::elements(1);
    let last = OFFSETS.len() + STEPS.len() * STEPS.len();
    parallel(ctx, |c, shard, of| {
        for (n, (label, foot, e)) in els.iter().enumerate() {
            if n % of != shard || e.head() == "at" || !geo::sane(e) {
                continue;
            }
            let x = shape::board(vec![if *foot { shape::footprint(vec![at(10.0, -20.0), e.clone()]) } else { e.clone() }]);
            for m in OFFSETS.len()..last {
                c.step();
                if c.state(&(x.text(), m)) {
                    c.case(&format!("grid:{}:{}", label, m), || read(&x, &[m]));
                }
            }
        }
    });
    // words of every form, and footprints with every name
    let plain = shape::elements(0);
    parallel(ctx, |c, shard, of| {
        let mut try_it = |x: X, label: String| {
            c.step();
            if c.state(&x.text()) {
                c.case(&label, || read(&x, &[1, 2]));
            }
        };
        for (label, foot, e) in &plain {
            if e.head() == "at" {
                continue;
            }
            for (n, (what, y)) in shape::voiced(e).into_iter().enumerate() {
                if n % of == shard {
                    try_it(shape::board(vec![if *foot { shape::footprint(vec![at(10.0, -20.0), y]) } else { y }]), format!("word:{}:{}", label, what));
                }
            }
        }
        for (n, w) in shape::texts("\"\\").iter().enumerate() {
            for (label, _, e) in plain.iter().filter(|e| e.1 && e.2.head() != "at") {
                if n % of == shard {
                    try_it(shape::board(vec![sx::l("module", vec![sx::a(&w[..]), at(10.0, -20.0), e.clone()])]), format!("named:{:?}:{}", w, label));
                }
            }
        }
    });
    let docs = shape::many(if ctx.thorough() { 60 } else { 24 });
    parallel(ctx, |c, shard, of| {
        for (n, (label, foot, x)) in docs.iter().enumerate() {
            if n % of != shard || (*foot && x.text().contains("(at ") && label.ends_with(" at")) {
                continue;
            }
            let x = if *foot { shape::board(vec![x.clone()]) } else { x.clone() };
            for m in 1..OFFSETS.len() {
                c.step();
                if c.state(&(x.text(), m)) {
                    c.case(&format!("many:{}:{}", label, m), || read(&x, &[m]));
                }
            }
        }
    });
}
