use crate::core::*;
use crate::shape;
use kicad_parse_gen::reference_ord;

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

/// digits of the first reference of a list, None when they are not one number
fn number(s: &str) -> Option<i64> {
    let first: Vec<char> = s.chars().take_while(|c| *c != ',').collect();
    let digit = |c: &char| c.is_ascii_digit();
    let start = match first.iter().position(digit) {
        Some(p) => p,
        None => return Some(0),
    };
    let run: String = first[start..].iter().take_while(|c| digit(c)).collect();
    if first[start + run.len()..].iter().any(|c| digit(c)) {
        return None;
    }
    // too large counts as zero
    Some(run.bytes().fold(Some(0i64), |n, d| n.and_then(|n| n.checked_mul(10)).and_then(|n| n.checked_add((d - b'0') as i64))).unwrap_or(0))
}

fn key(text: &str) -> Result<String, (String, String)> {
    let (ch, num) = reference_ord(text);
    if let Some(f) = text.chars().next() {
        if ch != f {
            return Err(bad("letter", format!("{:?} gives {:?}", text, ch)));
        }
    }
    match number(text) {
        Some(n) if n != num => Err(bad("number", format!("{:?} gives {} instead of {}", text, num, n))),
        Some(0) => Ok("zero".into()),
        Some(_) => Ok("number".into()),
        None => Ok("several numbers".into()),
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.assumptions.push("which number counts in a reference with several is not specified, only that there is a key".into());
    let toks = ["A", "R", "U", "r", "0", "1", "9", "10", ",", "?", "_", " ", "\u{3a9}", "-", "#", "\u{663}", "9223372036854775807", "9223372036854775808"];
    let all = sequences(toks.len(), if ctx.thorough() { 6 } else { 5 });
    parallel(ctx, |c, shard, of| {
        for (k, s) in all.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            c.step();
            let text: String = s.iter().map(|&i| toks[i]).collect();
            if !c.state(&text) {
                continue;
            }
            c.sample("text", || text.clone());
            c.case(&format!("{:?}", text), || key(&text));
        }
    });
    // every character in every place, every length, every number
    let mut words = shape::texts("");
    for w in ["R1", "U101", "IC12,IC13", "C?", "#PWR07", "R0012"] {
        words.extend(shape::near(w));
    }
    for c in (1u32..0x250).chain(vec![0x661, 0x966, 0x2070, 0x2460, 0xff11, 0x1d7d9, 0x4e00]).filter_map(std::char::from_u32) {
        for w in [format!("{}", c), format!("R{}5", c), format!("{}R5", c), format!("R5{}", c), format!("R5{},R6", c), format!("{}5", c), format!("R{}{}12", c, c), format!("R12{}R", c), format!("R{},7", c)] {
            words.push(w)
        }
    }
    for n in shape::ints() {
        for w in [format!("R{}", n), format!("R{}A", n), format!("{}", n), format!("IC{},IC1", n), format!("R000{}", n)] {
            words.push(w)
        }
    }
    for n in 1..=64 {
        let digits: String = "1234567890".chars().cycle().take(n).collect();
        let letters: String = "RSTU".chars().cycle().take(n).collect();
        for w in [format!("R{}", digits), format!("R{}1", digits.replace(|c| c != '0', "0")), format!("{}7", letters), format!("{}{}", letters, digits)] {
            words.push(w)
        }
    }
    for text in &words {
        ctx.step();
        if ctx.state(text) {
            ctx.case(&format!("wide:{:?}", text), || key(text));
        }
    }
    // order of pairs, whatever the digit count
    let mut nums: Vec<i64> = (0..=if ctx.thorough() { 400 } else { 130 }).collect();
    nums.extend([199, 999, 1000, 1001, 9999, 10000, 99999, 100000, 4294967296, i64::max_value() - 1, i64::max_value()].iter());
    for (la, lb) in [("R", "R"), ("C", "R"), ("R", "C"), ("U", "u")] {
        for &a in &nums {
            for &b in &nums {
                ctx.step();
                ctx.state(&(la, lb, a, b));
                let (x, y) = (format!("{}{}", la, a), format!("{}{},{}7", lb, b, la));
                ctx.case(&format!("order:{}:{}", x, y), || {
                    let want = la.cmp(lb).then(a.cmp(&b));
                    let got = reference_ord(&x).cmp(&reference_ord(&y));
                    if got != want {
                        return Err(bad("order", format!("{} and {} compare {:?}", x, y, got)));
                    }
                    Ok(format!("{:?}", got))
                });
            }
        }
    }
    // sorting whole lists
    let refs = ["R2", "R10", "C3", "C", "R1", "U100", "C3,C4"];
    for s in sequences(refs.len(), if ctx.thorough() { 6 } else { 5 }) {
        ctx.step();
        ctx.state(&("list", &s));
        ctx.case(&format!("list:{:?}", s), || {
            let mut v: Vec<&str> = s.iter().map(|&i| refs[i]).collect();
            let mut w = v.clone();
            v.sort_by_key(|r| reference_ord(r));
            let rank = ["C", "C3", "C3,C4", "R1", "R2", "R10", "U100"];
            // equal keys keep their order
            let pos = |r: &str| match r {
                "C3,C4" => 1,
                r => rank.iter().position(|q| *q == r).unwrap(),
            };
            w.sort_by_key(|r| pos(r));
            if v != w {
                return Err(bad("sort", format!("{:?} instead of {:?}", v, w)));
            }
            Ok("sorted".into())
        });
    }
}
