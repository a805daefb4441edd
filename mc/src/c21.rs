use crate::core::*;
use crate::shape;
use kicad_parse_gen::layout::NetName;

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

fn plain(s: &str) -> bool {
    !s.contains(|c| c == '-' || c == '(' || c == ')')
}

/// reference and pin of an automatic name
fn automatic(s: &str) -> Option<(String, String)> {
    if !s.starts_with("Net-(") || !s.ends_with(')') || s.len() < 6 {
        return None;
    }
    let inner = &s[5..s.len() - 1];
    let cut = inner.find('-')?;
    let (r, p) = (&inner[..cut], &inner[cut + 1..]);
    if plain(r) && plain(p) {
        Some((r.into(), p.into()))
    } else {
        None
    }
}

/// every block, or row of blocks, that is the one asked for; not the first and not the last
fn replaced(s: &str, from: &str, to: &str) -> String {
    let (v, f): (Vec<&str>, Vec<&str>) = (s.split('/').collect(), from.split('/').collect());
    let mut w = vec![v[0]];
    let mut i = 1;
    while i < v.len() {
        if i + f.len() < v.len() && v[i..i + f.len()] == f[..] {
            w.push(to);
            i += f.len()
        } else {
            w.push(v[i]);
            i += 1
        }
    }
    w.join("/")
}

#[derive(Clone, Debug)]
enum Op {
    Block(String, String),
    Rename(String, String),
    Unnamed(String),
}

fn history(start: &str, ops: &[&Op]) -> Result<String, (String, String)> {
    let mut name: NetName = start.into();
    let mut want = start.to_string();
    let mut changed = 0;
    for op in ops {
        let before = want.clone();
        match **op {
            Op::Block(ref from, ref to) => {
                name.replace_block(from, to);
                want = replaced(&want, from, to);
            }
            Op::Rename(ref from, ref to) => {
                name.rename(from, to);
                if want == *from {
                    want = to.clone()
                }
            }
            Op::Unnamed(ref to) => {
                let r = name.set_unnamed_net(to);
                match automatic(&want) {
                    Some((_, pin)) => {
                        if let Err(e) = r {
                            return Err(bad("unnamed-error", format!("{} of {:?} from {:?}: {}", to, ops, start, e)));
                        }
                        want = format!("Net-({}-{})", to, pin);
                    }
                    None => {
                        if r.is_ok() {
                            return Err(bad("unnamed-accepted", format!("{:?} of {:?} from {:?} became {:?}", op, ops, start, name.0)));
                        }
                    }
                }
            }
        }
        if name.0 != want {
            return Err(bad("name", format!("{:?} of {:?} turns {:?} into {:?} instead of {:?}", op, ops, before, name.0, want)));
        }
        if name.to_string() != want {
            return Err(bad("display", format!("{:?} is shown as {:?}", want, name.to_string())));
        }
        if name.is_unnamed_net() != automatic(&want) {
            return Err(bad("recognised", format!("{:?}: {:?} instead of {:?}", want, name.is_unnamed_net(), automatic(&want))));
        }
        if want != before {
            changed += 1
        }
    }
    Ok(format!("{} of {} changed", changed, ops.len()))
}

/// with a reference or a pin of no length
fn open(s: &str) -> bool {
    match automatic(s) {
        Some((r, p)) => r.is_empty() || p.is_empty(),
        None => false,
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.assumptions.push("references and pins of automatic names are not empty and hold no - ( )".into());
    let t = ctx.thorough();
    let toks = ["Net", "-", "(", ")", "R1", "Pad2", "/", " ", "\u{3a9}", "net"];
    let raw = sequences(toks.len(), if t { 6 } else { 5 });
    let set = [Op::Unnamed("R2".into()), Op::Unnamed("L101".into())];
    parallel(ctx, |c, shard, of| {
        for (k, s) in raw.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            let tail: String = s.iter().map(|&i| toks[i]).collect();
            for head in ["", "Net-(", "Net-(R1-Pad2", "Net-(R1-", " Net-(", "Net-(R1-Pad2)"] {
                let name = format!("{}{}", head, tail);
                c.step();
                if open(&name) || !c.state(&name) {
                    continue;
                }
                c.sample("name", || name.clone());
                c.case(&format!("form:{:?}", name), || {
                    let n: NetName = name.clone().into();
                    let (got, want) = (n.is_unnamed_net(), automatic(&name));
                    if got != want {
                        return Err(bad("recognised", format!("{:?}: {:?} instead of {:?}", name, got, want)));
                    }
                    history(&name, &[&set[0]])?;
                    history(&name, &[&set[1], &set[0]])?;
                    Ok(if want.is_some() { "automatic" } else { "other" }.into())
                });
            }
        }
    });
    let blocks = ["a", "b", "ab", "", "c d", "Net-(R1-Pad2)"];
    let mut ops = vec![];
    for from in ["a", "b", "ab", "c d", "A", "Net-(R1-Pad2)"] {
        for to in ["b", "a", "aa", "", "x/y"] {
            ops.push(Op::Block(from.into(), to.into()));
        }
    }
    for from in ["a", "/a/b", "Net-(R1-Pad2)", "", "/a"] {
        for to in ["a", "Net-(L1-2)", "/a/b", "", "b"] {
            ops.push(Op::Rename(from.into(), to.into()));
        }
    }
    ops.push(Op::Unnamed("R2".into()));
    ops.push(Op::Unnamed("a".into()));
    let paths = sequences(blocks.len(), if t { 7 } else { 6 });
    let hist = sequences(ops.len(), 2);
    let hist3 = sequences(ops.len(), 3);
    parallel(ctx, |c, shard, of| {
        for (k, s) in paths.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            let name = s.iter().map(|&i| blocks[i]).collect::<Vec<_>>().join("/");
            let hs: &[Vec<usize>] = match s.len() {
                0..=2 => &hist3,
                3 | 4 => &hist,
                _ => &hist[..=ops.len()],
            };
            for h in hs {
                c.transitions += h.len() as u64;
                if !c.state(&(&name, h)) {
                    continue;
                }
                let label = format!("{:?}:{:?}", name, h);
                c.case(&label, || history(&name, &h.iter().map(|&q| &ops[q]).collect::<Vec<_>>()));
            }
        }
    });
    wide(ctx);
}

/// references, pins and blocks of every form, and nearly those asked for
fn wide(ctx: &mut Ctx) {
    let mut words = shape::texts("");
    for w in ["Net-(R1-Pad2)", "Net-(", "R1", "/a/", "a/b", "block"] {
        words.extend(shape::near(w));
        words.push(w.into())
    }
    words.sort();
    words.dedup();
    let mut jobs: Vec<(String, Vec<Op>)> = vec![];
    for w in &words {
        let w = || w.clone();
        for s in [w(), format!("Net-({}-Pad2)", w()), format!("Net-(R1-{})", w()), format!("{}Net-(R1-Pad2)", w()), format!("Net-(R1-Pad2){}", w()), format!("{}-(R1-Pad2)", w())] {
            jobs.push((s.clone(), vec![Op::Unnamed("R2".into()), Op::Unnamed("L1".into())]));
            jobs.push((s.clone(), vec![Op::Rename(s.clone(), w()), Op::Rename(w(), s.clone())]));
            jobs.push((s.clone(), vec![Op::Rename("Net-(R1-Pad2)".into(), w())]));
        }
        for s in ["Net-(R1-Pad2)", "Net-(R1-2)", "R1", "Net-(R1-)"] {
            jobs.push((s.into(), vec![Op::Unnamed(w()), Op::Unnamed("R2".into())]));
            jobs.push((s.into(), vec![Op::Rename(w(), "x".into()), Op::Rename(s.into(), w()), Op::Rename(w(), s.into())]));
        }
        for s in [format!("/{}/b", w()), format!("{}/b", w()), format!("/b/{}", w()), format!("/{}/{}/x", w(), w()), format!("a/{}x/{}/y{}/", w(), w(), w()), w()] {
            for from in ["block", "a", "b"].iter().map(|q| q.to_string()).chain(Some(w())) {
                jobs.push((s.clone(), vec![Op::Block(from.clone(), "new".into())]));
                jobs.push((s.clone(), vec![Op::Block(from.clone(), w()), Op::Block(w(), "z".into())]));
            }
        }
        for s in ["/a/b/a", "/a/a/b/", "/block/a", "/a//b/c"] {
            jobs.push((s.into(), vec![Op::Block("a".into(), w()), Op::Block(w(), "q".into())]));
            jobs.push((s.into(), vec![Op::Block(w(), "q".into())]));
        }
    }
    for n in shape::counts(60) {
        for b in ["a", "b", "ab"] {
            let s = vec![b; n].join("/");
            for s in [s.clone(), format!("/{}/", s), format!("/a/{}/a/b", s)] {
                for to in ["a", "", "ab", "x/a"] {
                    jobs.push((s.clone(), vec![Op::Block("a".into(), to.into()), Op::Block("b".into(), to.into())]));
                    jobs.push((s.clone(), vec![Op::Rename(s.clone(), to.into())]));
                }
                jobs.push((s.clone(), vec![Op::Block("a/a".into(), "x".into())]));
                jobs.push((s.clone(), vec![Op::Unnamed("R2".into())]));
            }
            jobs.push((format!("Net-({}-Pad2)", b.repeat(n)), vec![Op::Unnamed("R2".into()), Op::Unnamed(b.repeat(n))]));
            jobs.push((format!("Net-(R1-{})", b.repeat(n)), vec![Op::Unnamed("R2".into()), Op::Unnamed(b.repeat(n))]));
        }
    }
    parallel(ctx, |c, shard, of| {
        for (k, (s, ops)) in jobs.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            c.transitions += ops.len() as u64;
            let label = format!("wide:{:?}:{:?}", s, ops);
            if open(s) || !c.state(&label) {
                continue;
            }
            c.sample("wide", || label.clone());
            c.case(&label, || {
                let n: NetName = s.clone().into();
                if n.is_unnamed_net() != automatic(s) {
                    return Err(bad("recognised", format!("{:?}: {:?} instead of {:?}", s, n.is_unnamed_net(), automatic(s))));
                }
                history(s, &ops.iter().collect::<Vec<_>>())
            });
        }
    });
}
