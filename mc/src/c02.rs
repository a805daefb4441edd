use crate::core::*;
use crate::fpgen::Case;
use crate::lagen::*;
use crate::shape;
use crate::{mutate, sx};
use crate::sx::X;
use kicad_parse_gen::layout as la;

pub fn conform(c: &LCase, text: &str) -> Result<String, (String, String)> {
    let want = format!("{:?}", c.value);
    let got = match la::parse(text) {
        Ok(m) => m,
        Err(e) => return Err(("read-refused".into(), format!("reading failed: {:?}\ninput: {}", e, text))),
    };
    let g = format!("{:?}", got);
    if g != want {
        return Err(("read-value".into(), format!("input: {}\nexpected: {}\nread:     {}", text, want, g)));
    }
    written(&c.value, &c.output, "built")?;
    written(&got, &c.output, text)?;
    Ok("equal".into())
}

fn written(m: &la::Layout, output: &sx::X, from: &str) -> Result<(), (String, String)> {
    let want = format!("{:?}", m);
    let w = match la::layout_to_string(m, 0) {
        Ok(w) => w,
        Err(e) => return Err(("write-refused".into(), format!("writing failed: {:?}\nfrom: {}", e, from))),
    };
    let tree = sx::read(&w).map_err(|e| ("write-malformed".to_string(), format!("{}\nfrom: {}\nwritten: {}", e, from, w)))?;
    sx::same(output, &tree).map_err(|e| {
        (
            "write-content".to_string(),
            format!("{}\nfrom: {}\nexpected: {}\nwritten: {}", e, from, output.text(), w),
        )
    })?;
    let again = match la::parse(&w) {
        Ok(m) => m,
        Err(e) => return Err(("reread-refused".into(), format!("{:?}\nfrom: {}\nwritten: {}", e, from, w))),
    };
    if format!("{:?}", again) != want {
        return Err(("reread-value".into(), format!("from: {}\nwritten: {}\nexpected: {}\nread: {:?}", from, w, want, again)));
    }
    match la::layout_to_string(&again, 0) {
        Ok(ref w2) if *w2 == w => {}
        w2 => return Err(("rewrite".into(), format!("from: {}\nfirst: {}\nsecond: {:?}", from, w, w2))),
    }
    Ok(())
}

/// a document in the written form must come out as it is; a sign the reader
/// does not take there may be refused
fn kept(x: &sx::X, signed: bool) -> Result<String, (String, String)> {
    let text = x.text();
    match la::parse(&text) {
        Ok(m) => written(&m, &shape::written(x), &text).map(|_| "kept".into()),
        Err(_) if signed => Ok("refused".into()),
        Err(e) => Err(("read-refused".into(), format!("reading failed: {:?}\ninput: {}", e, text))),
    }
}

pub fn run(ctx: &mut Ctx) {
    let k = if ctx.thorough() { 3 } else { 2 };
    let mut jobs: Vec<(usize, Vec<usize>)> = vec![];
    for (ki, kind) in KINDS.iter().enumerate() {
        for d in deviations(&dims(kind), k) {
            jobs.push((ki, d));
        }
    }
    // the header, marked by an index past the kinds
    for d in deviations(&head_dims(), k) {
        jobs.push((KINDS.len(), d));
    }
    parallel(ctx, |c, shard, of| {
        let mut small = head0();
        small[19] = 6;
        for (n, (ki, d)) in jobs.iter().enumerate() {
            if n % of != shard {
                continue;
            }
            let (kind, m) = if *ki < KINDS.len() {
                (KINDS[*ki], layout_case(&small, &[build(KINDS[*ki], d)], 0))
            } else {
                ("header", layout_case(d, &[], 0))
            };
            c.step();
            let label = format!("{}:{:?}", kind, d);
            let text = m.input.text();
            if c.state(&text) {
                c.sample(kind, || text.clone());
                c.case(&label, || conform(&m, &text));
            }
        }
    });
    let reps = la_representatives();
    let depth = if ctx.thorough() { 4 } else { 3 };
    let seqs = sequences(reps.len(), depth);
    let h = head0();
    parallel(ctx, |c, shard, of| {
        for (n, s) in seqs.iter().enumerate() {
            if n % of != shard {
                continue;
            }
            let els: Vec<Case<la::Element>> = s.iter().map(|&r| reps[r].1.clone()).collect();
            c.step();
            let styles: Vec<usize> = if s.len() < 2 { (0..16).collect() } else { vec![n % 16] };
            for st in styles {
                let m = layout_case(&h, &els, st / 8);
                let text = m.input.text_style(st % 8);
                let label = format!("seq:{:?}/{}", s, st);
                if c.state(&text) {
                    c.case(&label, || conform(&m, &text));
                }
            }
        }
    });
    // equal numbers, numbers far from the others, lists of every length
    let els = shape::elements(if ctx.thorough() { 2 } else { 1 });
    parallel(ctx, |c, shard, of| {
        for (n, (label, foot, e)) in els.iter().enumerate() {
            if n % of != shard || *foot {
                continue;
            }
            for (what, y) in shape::equal(e).into_iter().chain(shape::far(e)) {
                let x = shape::board(vec![y]);
                c.step();
                if c.state(&x.text()) {
                    c.case(&format!("{}:{}", label, what), || kept(&x, what.contains('-') && !what.contains('.')));
                }
            }
        }
    });
    // numbers of every magnitude, texts of every form
    let els = shape::structures(1);
    let words = shape::texts("\"\\");
    parallel(ctx, |c, shard, of| {
        for (n, (label, foot, e)) in els.iter().enumerate() {
            if *foot {
                continue;
            }
            let base = label.starts_with("rep:") || !label.contains(|c: char| c > '0' && c <= '9');
            // footprints inside a board in their base form
            if !base && e.head() == "module" {
                continue;
            }
            let texts = if base || c.thorough() { &words[..] } else { &[] };
            for (i, (what, y)) in shape::sized(e).into_iter().chain(shape::worded(e, texts)).enumerate() {
                if (i + n) % of != shard {
                    continue;
                }
                let x = shape::board(vec![y]);
                c.step();
                if c.state(&x.text()) {
                    c.case(&format!("{}:{}", label, what), || kept(&x, what.contains('-')));
                }
            }
        }
    });
    // and in the head of a board
    let mut other = head0();
    other[17] = 1;
    other[18] = 1;
    let heads = [layout_case(&head0(), &[], 0).output, layout_case(&other, &[], 0).output];
    parallel(ctx, |c, shard, of| {
        for x in &heads {
            for (path, _) in mutate::lists(x) {
                let items = match *mutate::get(x, &path) {
                    X::L(ref v) => v,
                    _ => continue,
                };
                // numbers, and the kinds of layers
                if path.first() == Some(&3) || path.first() == Some(&5) || items[0] == sx::a("version") {
                    continue;
                }
                for i in 1..items.len() {
                    if !matches!(items[i], X::A(_)) {
                        continue;
                    }
                    for (n, w) in words.iter().enumerate() {
                        if n % of != shard {
                            continue;
                        }
                        let y = mutate::replace(x, &path, i, &sx::a(&w[..]));
                        c.step();
                        if c.state(&y.text()) {
                            c.case(&format!("head:{:?}.{}={}", path, i, w), || kept(&y, false));
                        }
                    }
                }
            }
        }
    });
    let docs = shape::many(if ctx.thorough() { 100 } else { 40 });
    parallel(ctx, |c, shard, of| {
        for (n, (label, foot, x)) in docs.iter().enumerate() {
            if n % of != shard || *foot {
                continue;
            }
            c.step();
            if c.state(&x.text()) {
                c.sample("many", || x.text());
                c.case(&format!("many:{}", label), || kept(x, false));
            }
        }
    });
}
