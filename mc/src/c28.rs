use crate::core::*;
use crate::sx::{self, a, X};
use crate::{c05, lagen, mutate, shape};
use kicad_parse_gen::{footprint as fp, fp_lib_table as ft, layout as la};

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Footprint,
    Board,
    Table,
}

/// every list under its own text, with the parts in a fixed order
fn canonical(x: &X) -> String {
    match *x {
        X::A(ref w) => w.parse::<f64>().map(sx::num).unwrap_or_else(|_| format!("{:?}", w)),
        X::L(ref v) => {
            let mut words: Vec<String> = v.iter().filter(|p| matches!(**p, X::A(_))).map(canonical).collect();
            let mut parts: Vec<String> = v.iter().filter(|p| matches!(**p, X::L(_))).map(canonical).collect();
            parts.sort();
            words.extend(parts);
            format!("({})", words.join(" "))
        }
    }
}

fn tree(kind: Kind, x: &X) -> Result<String, (String, String)> {
    let text = x.text();
    let w = match kind {
        Kind::Footprint => fp::parse(&text).map(|s| fp::module_to_string(&s, 0).map_err(|e| e.to_string())).map_err(|e| e.to_string()),
        Kind::Board => la::parse(&text).map(|s| la::layout_to_string(&s, 0).map_err(|e| e.to_string())).map_err(|e| e.to_string()),
        Kind::Table => ft::parse(&text).map(|s| ft::to_string(&s, 0).map_err(|e| e.to_string())).map_err(|e| e.to_string()),
    };
    let w = match w {
        Err(_) => return Ok("refused".into()),
        Ok(w) => w.map_err(|e| bad("write", e))?,
    };
    let got = sx::read(&w).map_err(|e| bad("write", e))?;
    if canonical(&shape::written(&got)) != canonical(&shape::written(x)) {
        return Err(bad("lost", format!("read\n{}\nwritten\n{}", text, w)));
    }
    Ok("kept".into())
}

/// the same with other numbers and texts
fn altered(x: &X) -> X {
    match *x {
        X::A(ref w) => match w.parse::<f64>() {
            Ok(f) => sx::n(f + 7.0),
            Err(_) if *w == "word" => a("other"),
            _ => x.clone(),
        },
        X::L(ref v) => X::L(v.iter().enumerate().map(|(i, p)| if i == 0 { p.clone() } else { altered(p) }).collect()),
    }
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough();
    let mut trees: Vec<(String, Kind, X)> = vec![];
    for (label, module, e) in shape::elements(if t { 2 } else { 1 }) {
        if module {
            trees.push((label, Kind::Footprint, shape::footprint(vec![e])));
        } else {
            trees.push((label, Kind::Board, shape::board(vec![e])));
        }
    }
    trees.push(("head".into(), Kind::Board, shape::board(vec![])));
    for d in deviations(&lagen::head_dims(), 1) {
        // the long lists of layers
        if d[16] == 3 || d[16] == 6 {
            continue;
        }
        trees.push((format!("head:{:?}", d), Kind::Board, lagen::layout_case(&d, &[], 0).output));
    }
    for d in deviations(&c05::lib_dims(), 1) {
        trees.push((format!("table:{:?}", d), Kind::Table, c05::table(&[d.clone(), vec![0; d.len()]]).0));
    }
    parallel(ctx, |c, shard, of| {
        for (n, (label, kind, x)) in trees.iter().enumerate() {
            if n % of != shard || tree(*kind, x) != Ok("kept".into()) {
                continue;
            }
            let last = match *x {
                X::L(ref v) => v.len() - 1,
                _ => 0,
            };
            c.sample("document", || x.text());
            for (path, len) in mutate::lists(x) {
                // of a board with an element only the element
                if *kind == Kind::Board && !label.starts_with("head") && path.first() != Some(&last) {
                    continue;
                }
                for i in 1..len {
                    let part = match *mutate::get(x, &path) {
                        X::L(ref v) => v[i].clone(),
                        _ => unreachable!(),
                    };
                    // the plot settings are one list, however often they are opened
                    if part.head() == "pcbplotparams" {
                        continue;
                    }
                    let mut all = vec![];
                    for j in 1..=len {
                        if let X::L(_) = part {
                            all.push(("again", j, mutate::insert(x, &path, j, &part)));
                            all.push(("other", j, mutate::insert(x, &path, j, &altered(&part))));
                        }
                        if j < len {
                            all.push(("moved", j, mutate::insert(&mutate::remove(x, &path, i), &path, j, &part)));
                        }
                    }
                    for (what, j, y) in all {
                        // words keep their places
                        if what == "moved" && !matches!(part, X::L(_)) {
                            continue;
                        }
                        c.step();
                        if c.state(&y.text()) {
                            c.case(&format!("{}:{:?}.{}:{}{}", label, path, i, what, j), || tree(*kind, &y));
                        }
                    }
                }
            }
        }
    });
}
