use crate::core::*;
use crate::shape;
use crate::sx::{self, a, l, X};
use kicad_parse_gen::fp_lib_table as ft;

fn bad(key: &str, detail: String) -> (String, String) {
    (key.to_string(), detail)
}

pub const STRS: &[&str] = &[
    "a",
    "",
    "b c",
    "${KISYSMOD}/R.pretty",
    "~/x",
    "(p)",
    "50%",
    "\u{b5}F",
    "KiCad",
    "lib",
    "name",
    "tab\there",
    "12",
    "0x1F",
    "-3.50",
];

fn lib(d: &[usize]) -> ft::Lib {
    ft::Lib {
        name: STRS[d[0]].into(),
        type_: STRS[d[1]].into(),
        uri: STRS[d[2]].into(),
        options: STRS[d[3]].into(),
        descr: STRS[d[4]].into(),
    }
}

fn lib_x(d: &[usize]) -> X {
    l("lib", vec![
        l("name", vec![a(STRS[d[0]])]),
        l("type", vec![a(STRS[d[1]])]),
        l("uri", vec![a(STRS[d[2]])]),
        l("options", vec![a(STRS[d[3]])]),
        l("descr", vec![a(STRS[d[4]])]),
    ])
}

pub fn lib_dims() -> Vec<usize> {
    vec![STRS.len(); 5]
}

pub fn table(libs: &[Vec<usize>]) -> (X, ft::FpLibTable) {
    (
        l("fp_lib_table", libs.iter().map(|d| lib_x(d)).collect()),
        ft::FpLibTable { libs: libs.iter().map(|d| lib(d)).collect() },
    )
}

fn conform(libs: &[Vec<usize>], style: usize) -> Result<String, (String, String)> {
    let (x, model) = table(libs);
    compare(&x, &model, style)
}

fn compare(x: &X, model: &ft::FpLibTable, style: usize) -> Result<String, (String, String)> {
    let text = x.text_style(style);
    let want = format!("{:?}", model);
    let t = ft::parse(&text).map_err(|e| bad("read-refused", format!("{:?}\n{}", e, text)))?;
    if format!("{:?}", t) != want {
        return Err(bad("read-value", format!("expected {}\nread {:?}\n{}", want, t, text)));
    }
    let mut outs = vec![];
    for ind in [0, 1, 4] {
        let w = ft::to_string(model, ind).map_err(|e| bad("write-refused", format!("{:?}\n{}", e, text)))?;
        let tree = sx::read(&w).map_err(|e| bad("write-malformed", format!("{}\n{}", e, w)))?;
        sx::same(x, &tree).map_err(|e| bad("write-content", format!("{}\nexpected {}\nwritten {}", e, text, w)))?;
        let again = ft::parse(&w).map_err(|e| bad("reread-refused", format!("{:?}\n{}", e, w)))?;
        if format!("{:?}", again) != want {
            return Err(bad("reread", format!("expected {}\nread {:?}\n{}", want, again, w)));
        }
        outs.push(w);
    }
    let w2 = ft::to_string(&t, 0).map_err(|e| bad("write-refused", format!("{:?}\n{}", e, text)))?;
    if w2 != outs[0] {
        return Err(bad("rewrite", format!("{}\nagainst {}", w2, outs[0])));
    }
    Ok("equal".into())
}

/// reference expansion: pieces of a URI, each with its meaning
#[derive(Clone, Copy, Debug)]
enum Piece {
    Text(&'static str),
    Var(&'static str),
    Braced(&'static str),
    Home,
}

const PIECES: &[Piece] = &[
    Piece::Text("/a b.pretty"),
    Piece::Text("github://x/y"),
    Piece::Var("MCV_A"),
    Piece::Braced("MCV_A"),
    Piece::Braced("MCV_AB"),
    Piece::Var("MCV_UNSET"),
    Piece::Braced("MCV_UNSET"),
    Piece::Home,
    Piece::Text("."),
];

const VALUES: &[Option<&str>] = &[None, Some(""), Some("/usr/share/x"), Some("v $MCV_UNSET ~")];

/// a table whose entries hold these five texts each
fn texts(libs: &[[&str; 5]]) -> (X, ft::FpLibTable) {
    let x = libs.iter().map(|v| l("lib", ["name", "type", "uri", "options", "descr"].iter().zip(v).map(|(n, t)| l(n, vec![a(*t)])).collect())).collect();
    let libs = libs.iter().map(|v| ft::Lib { name: v[0].into(), type_: v[1].into(), uri: v[2].into(), options: v[3].into(), descr: v[4].into() }).collect();
    (l("fp_lib_table", x), ft::FpLibTable { libs: libs })
}

/// every text in every place, equal and nearly equal entries next to each other
fn wide(ctx: &mut Ctx) {
    let mut words = shape::texts("\"\\");
    for w in ["KiCad", "KICAD", "Github", "${KIPRJMOD}/R.pretty", "https://github.com/KiCad/R.pretty", "~/x/", "/a//b/../c/", "C:/x y", "disable_git=1|x", "\"\""] {
        words.extend(shape::near(w));
        words.push(w.into())
    }
    words.retain(|w| !w.contains('"') && !w.contains('\\'));
    words.sort();
    words.dedup();
    parallel(ctx, |c, shard, of| {
        for (k, w) in words.iter().enumerate() {
            if k % of != shard {
                continue;
            }
            let w = &w[..];
            let base = ["R", "KiCad", "${KIPRJMOD}/R.pretty", "o", "The R"];
            let mut tables: Vec<Vec<[&str; 5]>> = vec![vec![[w; 5]], vec![[w; 5], [w; 5]], vec![[w; 5], base, [w; 5]]];
            for i in 0..5 {
                let mut one = base;
                one[i] = w;
                let mut other = [w; 5];
                other[i] = base[i];
                tables.push(vec![one]);
                tables.push(vec![base, one, base]);
                tables.push(vec![one, one]);
                tables.push(vec![other, base]);
                let mut empty = [""; 5];
                empty[i] = w;
                tables.push(vec![empty]);
            }
            for (n, t) in tables.iter().enumerate() {
                c.step();
                if c.state(t) {
                    c.sample("wide table", || format!("{:?}", t));
                    let (x, model) = texts(t);
                    c.case(&format!("wide:{}:{:?}", n, w), || compare(&x, &model, n % 8));
                }
            }
        }
    });
}

fn expand(uri: &str, want: Option<&str>) -> Result<String, (String, String)> {
    let l = ft::Lib { name: "n".into(), type_: "t".into(), uri: uri.into(), options: "".into(), descr: "".into() };
    let got = l.get_expanded_uri();
    if l.uri != uri {
        return Err(bad("uri-changed", uri.into()));
    }
    match (want, got) {
        (Some(w), Ok(ref g)) if w == g => Ok("expanded".into()),
        (None, Err(_)) => Ok("unset".into()),
        (w, g) => Err(bad("uri", format!("{:?}: expected {:?}, got {:?}", uri, w, g))),
    }
}

/// URIs, variable names and values of every form
fn uris(ctx: &mut Ctx) {
    let saved: Vec<(std::ffi::OsString, std::ffi::OsString)> = std::env::vars_os().collect();
    let mut words = shape::texts("$~");
    for w in ["/usr/share/kicad/R.pretty", "https://github.com/KiCad/R.pretty", "file:///a//b/", "C:\\x\\y.pretty", " /a/b ", "../x/./y", "a%20b?c=d&e#f", "{A}", "%A%"] {
        words.extend(shape::near(w).into_iter().filter(|w| !w.contains('$') && !w.contains('~')));
        words.push(w.into())
    }
    words.sort();
    words.dedup();
    std::env::set_var("HOME", "/home/someone");
    std::env::set_var("MCV_A", "/v");
    let open = |w: &str| w.starts_with(|c: char| c.is_alphanumeric() || c == '_');
    for w in &words {
        let mut jobs = vec![(w.clone(), w.clone()), (format!("${{MCV_A}}{}", w), format!("/v{}", w)), (format!("{}${{MCV_A}}", w), format!("{}/v", w)), (format!("{}$MCV_A/", w), format!("{}/v/", w)), (format!("~/{}", w), format!("/home/someone/{}", w)), (format!("/{}~{}", w, w), format!("/{}~{}", w, w))];
        if !open(w) {
            jobs.push((format!("$MCV_A{}", w), format!("/v{}", w)));
        }
        for (uri, want) in jobs {
            ctx.step();
            if ctx.state(&("uri", &uri)) {
                ctx.sample("uri", || uri.clone());
                ctx.case(&format!("text:{}", uri), || expand(&uri, Some(&want)));
            }
        }
    }
    // as the value of a variable, and as home
    for w in shape::texts("\0").iter().chain(&words) {
        std::env::set_var("MCV_A", w);
        for (uri, want) in [("${MCV_A}", w.clone()), ("a/$MCV_A/b", format!("a/{}/b", w)), ("${MCV_A}$MCV_A", format!("{}{}", w, w))] {
            // a home mark at the start may come from a variable
            if !uri.starts_with('a') && w.starts_with('~') {
                continue;
            }
            ctx.step();
            if ctx.state(&("value", w, uri)) {
                ctx.case(&format!("value:{}:{}", uri, w), || expand(uri, Some(&want)));
            }
        }
        if !w.is_empty() && !w.contains('$') {
            std::env::set_var("HOME", w);
            ctx.step();
            if ctx.state(&("home", w)) {
                ctx.case(&format!("home:{}", w), || expand("~", Some(w)).and_then(|_| expand("~/x", Some(&format!("{}/x", w)))).and_then(|_| expand("/~/x", Some("/~/x"))));
            }
            std::env::set_var("HOME", "/home/someone");
        }
    }
    // names: every length, first and later character, and those in use
    let mut names: Vec<String> = (1..=64).map(|n| "MCV_ABCDEFGH".chars().cycle().take(n).collect()).collect();
    for w in ["KIPRJMOD", "KISYSMOD", "KIGITHUB", "KICAD6_FOOTPRINT_DIR", "KI", "HOMEX", "PATHX", "USERX", "PWDX", "kiprjmod", "_", "__"] {
        names.push(w.into());
    }
    for c in ('A' as u8..='Z' as u8).chain('a' as u8..='z' as u8).chain(vec!['_' as u8, '0' as u8, '9' as u8]).map(|c| c as char) {
        if !c.is_ascii_digit() {
            names.push(format!("{}MCV", c));
        }
        names.push(format!("MC{}V", c));
        names.push(format!("MCV{}", c));
    }
    for n in &names {
        for v in [None, Some(""), Some("/v w"), Some("x")] {
            match v {
                Some(v) => std::env::set_var(n, v),
                None => std::env::remove_var(n),
            }
            for (uri, want) in [(format!("${{{}}}", n), v.map(|v| v.to_string())), (format!("${}", n), v.map(|v| v.to_string())), (format!("a/${{{}}}/b", n), v.map(|v| format!("a/{}/b", v))), (format!("a/${}/b", n), v.map(|v| format!("a/{}/b", v))), (format!("${{{}}}X", n), v.map(|v| format!("{}X", v)))] {
                ctx.step();
                if ctx.state(&("name", v, &uri)) {
                    ctx.case(&format!("name:{:?}:{}", v, uri), || expand(&uri, want.as_ref().map(|w| &w[..])));
                }
            }
            std::env::remove_var(n);
        }
    }
    std::env::remove_var("MCV_A");
    for (k, v) in saved {
        std::env::set_var(k, v)
    }
}

pub fn run(ctx: &mut Ctx) {
    wide(ctx);
    let k = if ctx.thorough() { 4 } else { 3 };
    let n = STRS.len();
    let jobs = deviations(&[n, n, n, n, n], k);
    parallel(ctx, |c, shard, of| {
        for (i, d) in jobs.iter().enumerate() {
            if i % of != shard {
                continue;
            }
            c.step();
            let t = table(&[d.clone()]).0.text();
            if c.state(&t) {
                c.sample("table", || t.clone());
                let style = i % 8;
                c.case(&format!("lib:{:?}/{}", d, style), || conform(&[d.clone()], style));
            }
        }
    });
    // tables of several entries
    let reps: Vec<Vec<usize>> = vec![vec![0, 8, 3, 1, 2], vec![1, 1, 1, 1, 1], vec![2, 8, 4, 5, 7], vec![10, 9, 12, 13, 14]];
    for (i, s) in sequences(reps.len(), if ctx.thorough() { 6 } else { 4 }).iter().enumerate() {
        let libs: Vec<Vec<usize>> = s.iter().map(|&r| reps[r].clone()).collect();
        ctx.step();
        let t = table(&libs).0.text();
        if ctx.state(&t) {
            for style in if s.len() < 3 { 0..8 } else { i % 8..i % 8 + 1 } {
                ctx.case(&format!("table:{:?}/{}", s, style), || conform(&libs, style));
            }
        }
    }
    for n in 1..=40 {
        let libs: Vec<Vec<usize>> = (0..n).map(|i| reps[i % 4].clone()).collect();
        ctx.step();
        if ctx.state(&table(&libs).0.text()) {
            ctx.case(&format!("long:{}", n), || conform(&libs, 0));
        }
    }
    uris(ctx);
    // URI expansion, one environment after another (single threaded)
    let saved = std::env::var_os("HOME");
    std::env::set_var("HOME", "/home/someone");
    std::env::remove_var("MCV_UNSET");
    let depth = if ctx.thorough() { 5 } else { 4 };
    for va in VALUES {
        for vb in VALUES {
            for (name, v) in [("MCV_A", va), ("MCV_AB", vb)] {
                match v {
                    Some(v) => std::env::set_var(name, v),
                    None => std::env::remove_var(name),
                }
            }
            let value = |n: &str| -> Option<&str> {
                match n {
                    "MCV_A" => *va,
                    "MCV_AB" => *vb,
                    _ => None,
                }
            };
            for s in sequences(PIECES.len(), depth) {
                let mut uri = String::new();
                let mut want: Option<String> = Some(String::new());
                let mut valid = true;
                for (pos, &p) in s.iter().enumerate() {
                    let (t, v) = match PIECES[p] {
                        Piece::Text(t) => {
                            // text that would extend the name in front of it is another reference
                            (t.to_string(), Some(t.to_string()))
                        }
                        Piece::Var(n) => (format!("${}", n), value(n).map(|x| x.to_string())),
                        Piece::Braced(n) => (format!("${{{}}}", n), value(n).map(|x| x.to_string())),
                        Piece::Home => {
                            if pos == 0 {
                                ("~".to_string(), Some("/home/someone".to_string()))
                            } else {
                                ("~".to_string(), Some("~".to_string()))
                            }
                        }
                    };
                    if pos > 0 {
                        let after_bare = matches!(PIECES[s[pos - 1]], Piece::Var(_));
                        if after_bare && t.starts_with(|c: char| c.is_alphanumeric() || c == '_') {
                            valid = false
                        }
                        // a home mark stands alone or in front of a slash
                        if pos == 1 && matches!(PIECES[s[0]], Piece::Home) && !t.starts_with('/') {
                            valid = false
                        }
                    }
                    uri.push_str(&t);
                    want = match (want, v) {
                        (Some(w), Some(v)) => Some(w + &v),
                        _ => None,
                    };
                }
                if !valid {
                    continue;
                }
                ctx.step();
                ctx.state(&(va, vb, &uri));
                ctx.case(&format!("uri:{:?}:{:?}:{}", va, vb, uri), || {
                    let l = ft::Lib { name: "n".into(), type_: "t".into(), uri: uri.clone(), options: "".into(), descr: "".into() };
                    let got = l.get_expanded_uri();
                    if l.uri != uri {
                        return Err(bad("uri-changed", uri.clone()));
                    }
                    match (want.clone(), got) {
                        (Some(w), Ok(g)) if w == g => Ok("expanded".into()),
                        (None, Err(_)) => Ok("unset".into()),
                        (w, g) => Err(bad("uri", format!("{} with A={:?} AB={:?}: expected {:?}, got {:?}", uri, va, vb, w, g))),
                    }
                });
            }
        }
    }
    std::env::remove_var("MCV_A");
    std::env::remove_var("MCV_AB");
    if let Some(h) = saved {
        std::env::set_var("HOME", h)
    }
}
