use crate::core::*;
use crate::fpgen::*;
use crate::shape;
use crate::sx;
use kicad_parse_gen::footprint as fp;

/// read `c.input` (in the given spelling), compare value, write, compare content, read again
pub fn conform(c: &Case<fp::Module>, text: &str) -> Result<String, (String, String)> {
    let want = format!("{:?}", c.value);
    let got = match fp::parse(text) {
        Ok(m) => m,
        Err(e) => return Err(("read-refused".into(), format!("reading failed: {:?}\ninput: {}", e, text))),
    };
    let g = format!("{:?}", got);
    if g != want {
        return Err(("read-value".into(), format!("input: {}\nexpected: {}\nread:     {}", text, want, g)));
    }
    written(&c.value, &c.output, "built")?;
    written(&got, &c.output, text)?;
    Ok("equal".into())
}

/// writing `m` must give the content `output`, and reading that must give `m`
fn written(m: &fp::Module, output: &sx::X, from: &str) -> Result<(), (String, String)> {
    let want = format!("{:?}", m);
    let w = match fp::module_to_string(m, 0) {
        Ok(w) => w,
        Err(e) => return Err(("write-refused".into(), format!("writing failed: {:?}\nfrom: {}", e, from))),
    };
    let tree = sx::read(&w).map_err(|e| ("write-malformed".to_string(), format!("{}\nfrom: {}\nwritten: {}", e, from, w)))?;
    sx::same(output, &tree).map_err(|e| {
        (
            "write-content".to_string(),
            format!("{}\nfrom: {}\nexpected: {}\nwritten: {}", e, from, output.text(), w),
        )
    })?;
    let again = match fp::parse(&w) {
        Ok(m) => m,
        Err(e) => return Err(("reread-refused".into(), format!("{:?}\nfrom: {}\nwritten: {}", e, from, w))),
    };
    if format!("{:?}", again) != want {
        return Err(("reread-value".into(), format!("from: {}\nwritten: {}\nexpected: {}\nread: {:?}", from, w, want, again)));
    }
    match fp::module_to_string(&again, 0) {
        Ok(ref w2) if *w2 == w => {}
        w2 => return Err(("rewrite".into(), format!("from: {}\nfirst: {}\nsecond: {:?}", from, w, w2))),
    }
    // the indentation asked for must not change the content
    for ind in [1, 3] {
        let wi = fp::module_to_string(m, ind).map_err(|e| ("write-refused".to_string(), format!("{:?}", e)))?;
        let ti = sx::read(&wi).map_err(|e| ("write-malformed".to_string(), e))?;
        if ti != tree {
            return Err(("indent-content".into(), format!("indent {}: {}\nagainst {}", ind, wi, w)));
        }
    }
    Ok(())
}

/// a document in the written form must come out as it is; a sign the reader
/// does not take there may be refused
fn kept(x: &sx::X, signed: bool) -> Result<String, (String, String)> {
    let text = x.text();
    match fp::parse(&text) {
        Ok(m) => written(&m, &shape::written(x), &text).map(|_| "kept".into()),
        Err(_) if signed => Ok("refused".into()),
        Err(e) => Err(("read-refused".into(), format!("reading failed: {:?}\ninput: {}", e, text))),
    }
}

pub fn run(ctx: &mut Ctx) {
    let k = if ctx.thorough() { 3 } else { 2 };
    // every element kind, all attribute combinations with at most k departures from the base
    let mut jobs: Vec<(usize, Vec<usize>)> = vec![];
    for (ki, kind) in KINDS.iter().enumerate() {
        for d in variants(kind, k) {
            jobs.push((ki, d));
        }
    }
    parallel(ctx, |c, shard, of| {
        for (n, (ki, d)) in jobs.iter().enumerate() {
            if n % of != shard {
                continue;
            }
            let kind = KINDS[*ki];
            let m = module_case("m", &[build(kind, d)]);
            c.step();
            let label = format!("{}:{:?}", kind, d);
            let text = m.input.text();
            if c.state(&text) {
                c.sample(kind, || text.clone());
                c.case(&label, || conform(&m, &text));
            }
        }
    });
    // module names
    for (q, s) in STRS.iter().enumerate() {
        let m = module_case(s, &[]);
        ctx.step();
        let text = m.input.text();
        ctx.state(&text);
        ctx.case(&format!("name:{}", q), || conform(&m, &text));
    }
    // every ordered selection of elements
    let reps = representatives();
    let depth = if ctx.thorough() { 4 } else { 3 };
    let seqs = sequences(reps.len(), depth);
    parallel(ctx, |c, shard, of| {
        for (n, s) in seqs.iter().enumerate() {
            if n % of != shard {
                continue;
            }
            let els: Vec<_> = s.iter().map(|&r| reps[r].1.clone()).collect();
            let m = module_case("M_1", &els);
            c.step();
            // spellings: all for short ones, rotating through them for longer ones
            let styles: Vec<usize> = if s.len() < 2 { (0..8).collect() } else { vec![n % 8] };
            for st in styles {
                let text = m.input.text_style(st);
                let label = format!("seq:{:?}/{}", s, st);
                if c.state(&text) {
                    c.case(&label, || conform(&m, &text));
                }
            }
        }
    });
    // equal numbers, numbers far from the others, lists of every length
    let els = shape::elements(if ctx.thorough() { 2 } else { 1 });
    parallel(ctx, |c, shard, of| {
        for (n, (label, foot, e)) in els.iter().enumerate() {
            if n % of != shard || !*foot {
                continue;
            }
            for (what, y) in shape::equal(e).into_iter().chain(shape::far(e)) {
                let x = shape::footprint(vec![y]);
                c.step();
                if c.state(&x.text()) {
                    c.case(&format!("{}:{}", label, what), || kept(&x, what.contains('-') && !what.contains('.')));
                }
            }
        }
    });
    // numbers of every magnitude, texts of every form
    let els = shape::structures(1);
    let words = shape::texts("\"\\");
    parallel(ctx, |c, shard, of| {
        for (n, (label, foot, e)) in els.iter().enumerate() {
            if !*foot {
                continue;
            }
            for (i, (what, y)) in shape::sized(e).into_iter().chain(shape::worded(e, &words)).enumerate() {
                if (i + n) % of != shard {
                    continue;
                }
                let x = shape::footprint(vec![y]);
                c.step();
                if c.state(&x.text()) {
                    c.case(&format!("{}:{}", label, what), || kept(&x, what.contains('-')));
                }
            }
        }
    });
    let docs = shape::many(if ctx.thorough() { 100 } else { 40 });
    parallel(ctx, |c, shard, of| {
        for (n, (label, foot, x)) in docs.iter().enumerate() {
            if n % of != shard || !*foot {
                continue;
            }
            c.step();
            if c.state(&x.text()) {
                c.sample("many", || x.text());
                c.case(&format!("many:{}", label), || kept(x, false));
            }
        }
    });
}
