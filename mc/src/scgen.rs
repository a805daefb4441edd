//! Schematic documents: every element as canonical lines plus the value that
//! reading them must give.

use kicad_parse_gen::schematic as sc;

/// one line; `raw` lines are copied verbatim by the reader
#[derive(Clone, Debug)]
pub struct Ln {
    pub raw: bool,
    pub text: String,
}

pub fn ln(s: impl Into<String>) -> Ln {
    Ln { raw: false, text: s.into() }
}
pub fn raw(s: impl Into<String>) -> Ln {
    Ln { raw: true, text: s.into() }
}

/// the same line with other spacing between its parts
pub fn respace(l: &Ln, style: usize) -> String {
    if l.raw || style == 0 {
        return l.text.clone();
    }
    let sep = if style == 1 { " " } else { "   " };
    let (lead, body) = match l.text.strip_prefix('\t') {
        Some(b) => ("\t", b),
        None => ("", &l.text[..]),
    };
    let mut out = String::from(lead);
    let mut inside = false;
    let mut esc = false;
    let mut gap = false;
    for c in body.chars() {
        if inside {
            out.push(c);
            if esc {
                esc = false
            } else if c == '\\' {
                esc = true
            } else if c == '"' {
                inside = false
            }
            continue;
        }
        if c == ' ' {
            gap = true;
            continue;
        }
        if gap {
            out.push_str(sep);
            gap = false;
        }
        if c == '"' {
            inside = true
        }
        out.push(c);
    }
    if style == 2 {
        out.push_str("  ");
    }
    out
}

pub fn join(lines: &[Ln], style: usize) -> String {
    let nl = if style == 3 { "\r\n" } else { "\n" };
    let mut s = String::new();
    for l in lines {
        s.push_str(&respace(l, if style == 3 { 0 } else { style }));
        s.push_str(nl);
    }
    s
}

/// how many spellings `join` knows
pub const STYLES: usize = 4;

#[derive(Debug)]
pub enum El {
    E(sc::Element),
    S(sc::Sheet),
}

#[derive(Debug)]
pub struct Part {
    pub lines: Vec<Ln>,
    pub value: El,
    /// orientation line of a component, its value is not public
    pub is_component: bool,
}

pub const INTS: &[i64] = &[0, 1, -5, 4850, 12345, -100000, 7, 250];
pub const QSTRS: &[&str] = &["U1", "", "a b", "\u{b5}%{}()", "5\\\" x", "~", "a  b", "\\\\", "x y z  1", "#PWR01", "1", "http://a.b/c?d=e&f", "\u{4e2d}"];
pub const WORDS: &[&str] = &["R", "74HC00-1", "~", "\u{3a9}_x", "lib:part", "F", "$X"];
pub const ROTS: &[[i64; 4]] = &[
    [1, 0, 0, -1],
    [0, 1, 1, 0],
    [-1, 0, 0, 1],
    [0, -1, -1, 0],
    [-1, 0, 0, -1],
    [1, 0, 0, 1],
    [0, 1, -1, 0],
    [0, -1, 1, 0],
    [0, 0, 0, 0],
    [2, 10, -10, 12345],
];

/// `{:w}` the way the format pads: left aligned
fn pad(s: &str, w: usize) -> String {
    let mut o = s.to_string();
    while o.chars().count() < w {
        o.push(' ')
    }
    o
}

#[derive(Clone)]
pub struct F {
    pub i: i64,
    pub value: usize,
    pub vertical: bool,
    pub x: usize,
    pub y: usize,
    pub size: usize,
    pub hidden: bool,
    pub hj: usize,
    pub vj: usize,
    pub italic: bool,
    pub bold: bool,
    pub name: Option<&'static str>,
}

/// (as written, value)
pub const FCOORD: &[(&str, f64)] = &[
    ("4850", 4850.0),
    ("0", 0.0),
    ("-25", -25.0),
    ("12.5", 12.5),
    ("123456", 123456.0),
    ("7", 7.0),
    ("-100.25", -100.25),
];
pub const FNAMES: &[&str] = &["Reference", "Value", "Footprint", "UserDocLink"];

pub fn field0(i: i64) -> F {
    F {
        i,
        value: 0,
        vertical: false,
        x: 0,
        y: 0,
        size: 0,
        hidden: false,
        hj: 0,
        vj: 0,
        italic: false,
        bold: false,
        name: if i > 3 { Some("MPN") } else { None },
    }
}

pub const FSIZE: &[i64] = &[60, 0, 7, 100, 1234];

pub fn field(f: &F) -> (Ln, sc::ComponentField) {
    let hj = [("C", sc::Justify::Center), ("L", sc::Justify::Left), ("R", sc::Justify::Right), ("B", sc::Justify::Bottom), ("T", sc::Justify::Top)];
    let vj = [("C", sc::Justify::Center), ("B", sc::Justify::Bottom), ("T", sc::Justify::Top), ("L", sc::Justify::Left), ("R", sc::Justify::Right)];
    let mut s = format!(
        "F {} \"{}\" {} {} {} {} {} {} {}{}{}",
        f.i,
        QSTRS[f.value],
        if f.vertical { "V" } else { "H" },
        pad(FCOORD[f.x].0, 3),
        pad(FCOORD[f.y].0, 3),
        pad(&FSIZE[f.size].to_string(), 3),
        if f.hidden { "0001" } else { "0000" },
        hj[f.hj].0,
        vj[f.vj].0,
        if f.italic { "I" } else { "N" },
        if f.bold { "B" } else { "N" }
    );
    let name = match f.name {
        Some(n) => {
            // the default names of the first four need not be written
            if f.i < 0 || f.i > 3 || FNAMES[f.i as usize] != n {
                s.push_str(&format!(" \"{}\"", n));
            }
            n
        }
        None => FNAMES[f.i as usize],
    };
    let v = sc::ComponentField {
        i: f.i,
        value: QSTRS[f.value].to_string(),
        orientation: if f.vertical { sc::Orientation::Vertical } else { sc::Orientation::Horizontal },
        x: FCOORD[f.x].1,
        y: FCOORD[f.y].1,
        size: FSIZE[f.size],
        visible: !f.hidden,
        hjustify: hj[f.hj].1.clone(),
        vjustify: vj[f.vj].1.clone(),
        italic: f.italic,
        bold: f.bold,
        name: name.to_string(),
    };
    (ln(s), v)
}

pub struct Comp {
    pub name: usize,
    pub reference: &'static str,
    pub unit: &'static str,
    pub convert: &'static str,
    pub x: i64,
    pub y: i64,
    pub ar: usize,
    pub fields: Vec<F>,
    pub rot: usize,
}

pub fn comp0() -> Comp {
    Comp {
        name: 0,
        reference: "U1",
        unit: "1",
        convert: "1",
        x: 4850,
        y: 3650,
        ar: 0,
        fields: (0..4).map(field0).collect(),
        rot: 0,
    }
}

fn ar(i: usize) -> String {
    format!("AR Path=\"/5655A9F{:X}/56460011\" Ref=\"U{}\"  Part=\"{}\" ", i + 3, i + 1, i + 1)
}

pub fn component(c: &Comp) -> Part {
    let u = format!("U {} {} 56460011", c.unit, c.convert);
    let mut lines = vec![
        raw("$Comp"),
        ln(format!("L {} {}", WORDS[c.name], c.reference)),
        raw(u.clone()),
        ln(format!("P {} {}", c.x, c.y)),
    ];
    let paths: Vec<String> = (0..c.ar).map(ar).collect();
    lines.extend(paths.iter().map(|a| raw(a.clone())));
    let mut fields = vec![];
    for f in &c.fields {
        let (l, v) = field(f);
        lines.push(l);
        fields.push(v);
    }
    lines.push(ln(format!("\t{} {} {}", pad(c.unit, 4), pad(&c.x.to_string(), 4), pad(&c.y.to_string(), 4))));
    let r = ROTS[c.rot];
    lines.push(ln(format!(
        "\t{} {} {} {}",
        pad(&r[0].to_string(), 4),
        pad(&r[1].to_string(), 4),
        pad(&r[2].to_string(), 4),
        pad(&r[3].to_string(), 4)
    )));
    lines.push(raw("$EndComp"));
    let mut v = sc::Component::default();
    v.name = WORDS[c.name].into();
    v.reference = c.reference.into();
    v.u = u;
    v.x = c.x;
    v.y = c.y;
    v.ar_path = paths;
    v.fields = fields;
    Part { lines, value: El::E(sc::Element::Component(v)), is_component: true }
}

pub const KINDS: &[&str] = &["component", "field", "field4", "wire", "connection", "noconn", "text", "other", "sheet", "label"];

pub const OTHERS: &[&[&str]] = &[
    &["Entry Wire Line", "\t1000 1100 1100 1000"],
    &["$Bitmap", "Pos 1000 1000", "Scale 1.000000", "Data", "89 50 4E 47 ", "EndData", "$EndBitmap"],
    &["Kmarq B 4850 3650 \"Warning\" F=1"],
    &["  leading and trailing "],
    &[""],
    &["\tL x y", "F 0 \"U1\""],
    &["Wires", "LIBS:late", "Texts ~ 1", "$EndComp", "$EndDescr"],
];

pub fn dims(kind: &str) -> Vec<usize> {
    match kind {
        // name ref unit convert x y ar fields rot
        "component" => vec![WORDS.len(), 4, 7, 2, INTS.len(), INTS.len(), 3, 9, ROTS.len()],
        // value orientation x y size hidden hj vj italic bold index name
        "field" => vec![QSTRS.len(), 2, FCOORD.len(), FCOORD.len(), FSIZE.len(), 2, 5, 5, 2, 2, 4, 3],
        "field4" => vec![QSTRS.len(), 2, FCOORD.len(), FCOORD.len(), FSIZE.len(), 2, 5, 5, 2, 2, 4, 5],
        "wire" => vec![3, INTS.len(), INTS.len(), INTS.len(), INTS.len()],
        "connection" | "noconn" => vec![INTS.len(), INTS.len()],
        // type x y orientation size shape italic thickness text
        "text" => vec![4, INTS.len(), INTS.len(), 5, FSIZE.len(), 5, 2, 4, 10],
        "other" => vec![OTHERS.len()],
        // x y dimx dimy unique name name_size filename filename_size labels
        "sheet" => vec![INTS.len(), INTS.len(), INTS.len(), INTS.len(), 3, QSTRS.len(), FSIZE.len(), 4, FSIZE.len(), 5],
        // name form side x y size
        "label" => vec![QSTRS.len(), 5, 4, INTS.len(), INTS.len(), FSIZE.len()],
        _ => unreachable!(),
    }
}

fn wire(t: usize, x1: i64, y1: i64, x2: i64, y2: i64) -> Part {
    let (n, type_) = match t {
        0 => ("Wire", sc::WireType::Wire),
        1 => ("Notes", sc::WireType::Notes),
        _ => ("Bus", sc::WireType::Bus),
    };
    Part {
        lines: vec![ln(format!("Wire {} Line", n)), ln(format!("\t{} {} {} {}", x1, y1, x2, y2))],
        value: El::E(sc::Element::Wire(sc::Wire { type_, x1, y1, x2, y2 })),
        is_component: false,
    }
}

pub fn other(lines: &[&str]) -> Vec<Part> {
    lines
        .iter()
        .map(|l| Part { lines: vec![raw(*l)], value: El::E(sc::Element::Other(l.to_string())), is_component: false })
        .collect()
}

fn label(d: &[usize]) -> (Ln, sc::SheetLabel) {
    let form = [("I", sc::LabelForm::Input), ("O", sc::LabelForm::Output), ("B", sc::LabelForm::BiDi), ("T", sc::LabelForm::TriState), ("U", sc::LabelForm::Unspecified)];
    let side = [("L", sc::LabelSide::Left), ("R", sc::LabelSide::Right), ("T", sc::LabelSide::Top), ("B", sc::LabelSide::Bottom)];
    let l = sc::SheetLabel {
        name: QSTRS[d[0]].into(),
        form: form[d[1]].1.clone(),
        side: side[d[2]].1.clone(),
        x: INTS[d[3]],
        y: INTS[d[4]],
        size: FSIZE[d[5]],
    };
    (
        ln(format!("\"{}\" {} {} {} {} {}", QSTRS[d[0]], form[d[1]].0, side[d[2]].0, INTS[d[3]], INTS[d[4]], FSIZE[d[5]])),
        l,
    )
}

pub fn sheet(d: &[usize], labels: &[Vec<usize>]) -> Part {
    let unique = ["5655A9F3", "0", "FFFFFFFF"][d[4]];
    let filename = ["sub.sch", "", "a b/c.sch", "../x.sch"][d[7]];
    let mut v = sc::Sheet::default();
    v.x = INTS[d[0]];
    v.y = INTS[d[1]];
    v.dimx = INTS[d[2]];
    v.dimy = INTS[d[3]];
    v.unique = unique.into();
    v.name = QSTRS[d[5]].into();
    v.name_size = FSIZE[d[6]];
    v.filename = filename.into();
    v.filename_size = FSIZE[d[8]];
    let mut lines = vec![
        raw("$Sheet"),
        ln(format!("S {} {} {} {}", v.x, v.y, v.dimx, v.dimy)),
        ln(format!("U {}", unique)),
        ln(format!("F0 \"{}\" {}", v.name, v.name_size)),
        ln(format!("F1 \"{}\" {}", v.filename, v.filename_size)),
    ];
    for (n, l) in labels.iter().enumerate() {
        let (t, l) = label(l);
        lines.push(ln(format!("F{} {}", n + 2, t.text)));
        v.labels.push(l);
    }
    lines.push(raw("$EndSheet"));
    Part { lines, value: El::S(v), is_component: false }
}

pub fn build(kind: &str, d: &[usize]) -> Vec<Part> {
    let bin = |x: usize| x == 1;
    match kind {
        "component" => {
            let mut c = comp0();
            c.name = d[0];
            c.reference = ["U1", "#PWR01", "R?", "U1,U2"][d[1]];
            c.unit = ["1", "2", "26", "0", "10", "100", "12345"][d[2]];
            c.convert = ["1", "2"][d[3]];
            c.x = INTS[d[4]];
            c.y = INTS[d[5]];
            c.ar = d[6];
            let named = |i, n| {
                let mut f = field0(i);
                f.name = Some(n);
                f
            };
            match d[7] {
                0 => {}
                1 => c.fields = vec![],
                2 => c.fields.push(field0(4)),
                3 => {
                    c.fields.push(field0(4));
                    c.fields.push(named(5, "Vendor X"))
                }
                4 => c.fields.truncate(1),
                5 => c.fields[2] = named(2, "Sub"),
                6 => {
                    c.fields.truncate(1);
                    c.fields.push(named(1, "MPN"))
                }
                7 => c.fields.reverse(),
                _ => {
                    c.fields.push(named(11, "MPN"));
                    c.fields.push(named(7, "MPN"));
                    c.fields.push(named(4, ""))
                }
            }
            c.rot = d[8];
            vec![component(&c)]
        }
        "field" | "field4" => {
            let named = kind == "field4";
            let i = if named { [4, 5, 12, 100][d[10]] } else { d[10] as i64 };
            let mut f = field0(i);
            f.value = d[0];
            f.vertical = bin(d[1]);
            f.x = d[2];
            f.y = d[3];
            f.size = d[4];
            f.hidden = bin(d[5]);
            f.hj = d[6];
            f.vj = d[7];
            f.italic = bin(d[8]);
            f.bold = bin(d[9]);
            if named {
                f.name = Some(["MPN", "", "a b", "Reference", "5\\\" x"][d[11]]);
            } else {
                f.name = [None, Some("MPN"), Some("Value")][d[11]];
            }
            let mut c = comp0();
            if named {
                c.fields.push(f)
            } else {
                c.fields[i as usize] = f
            }
            vec![component(&c)]
        }
        "wire" => vec![wire(d[0], INTS[d[1]], INTS[d[2]], INTS[d[3]], INTS[d[4]])],
        "connection" => {
            let (x, y) = (INTS[d[0]], INTS[d[1]]);
            vec![Part {
                lines: vec![ln(format!("Connection ~ {} {}", x, y))],
                value: El::E(sc::Element::Connection(sc::Connection { x, y })),
                is_component: false,
            }]
        }
        "noconn" => {
            let (x, y) = (INTS[d[0]], INTS[d[1]]);
            vec![Part {
                lines: vec![ln(format!("NoConn ~ {} {}", x, y))],
                value: El::E(sc::Element::NoConnect(sc::NoConnect { x, y })),
                is_component: false,
            }]
        }
        "text" => {
            let (n, t, global) = match d[0] {
                0 => ("Label", sc::TextType::Label, false),
                1 => ("Notes", sc::TextType::Note, false),
                2 => ("GLabel", sc::TextType::Global, true),
                _ => ("HLabel", sc::TextType::Hierarchical, true),
            };
            let shape = ["Input", "Output", "3State", "BiDi", "UnSpc"][d[5]];
            let text = ["NET", "~RESET", "", " two words ", "$Comp", "Wire Wire Line", "a\\nb", "\"q\"", "$EndSCHEMATC", "\u{3a9}\tx"][d[8]];
            let thick = [0, 12, -1, 100][d[7]];
            let orient = [0i64, 1, 2, 3, 900][d[3]];
            let v = sc::Text {
                t,
                x: INTS[d[1]],
                y: INTS[d[2]],
                orientation: orient,
                size: FSIZE[d[4]],
                shape: if global { Some(shape.into()) } else { None },
                italic: bin(d[6]),
                thickness: thick,
                text: text.into(),
            };
            let l = format!(
                "Text {} {} {} {} {} {}{} {}",
                n,
                pad(&v.x.to_string(), 4),
                pad(&v.y.to_string(), 4),
                pad(&orient.to_string(), 4),
                pad(&v.size.to_string(), 4),
                if global { format!("{} ", shape) } else { String::new() },
                if v.italic { "Italic" } else { "~" },
                thick
            );
            vec![Part { lines: vec![ln(l), raw(text)], value: El::E(sc::Element::Text(v)), is_component: false }]
        }
        "other" => other(OTHERS[d[0]]),
        "sheet" => {
            let z = || vec![0usize; 6];
            let mut l2 = z();
            l2[0] = 2;
            l2[1] = 1;
            l2[2] = 1;
            let labels = match d[9] {
                0 => vec![],
                1 => vec![z()],
                2 => vec![z(), l2],
                3 => vec![l2, z(), z()],
                _ => (0..11)
                    .map(|n| {
                        let mut v = z();
                        v[0] = n % QSTRS.len();
                        v
                    })
                    .collect(),
            };
            vec![sheet(d, &labels)]
        }
        "label" => vec![sheet(&[0; 10], &[d.to_vec()])],
        _ => unreachable!(),
    }
}

pub struct Head {
    pub lines: Vec<Ln>,
    pub libraries: Vec<String>,
    pub eelayer: String,
    pub description: sc::Description,
    /// no page description in the text
    pub plain: bool,
}

// libs eelayer size dimx dimy portrait sheet count title date rev comp c1 c2 c3 c4
pub fn head_dims() -> Vec<usize> {
    vec![5, 3, 4, INTS.len(), INTS.len(), 2, INTS.len(), INTS.len(), QSTRS.len(), QSTRS.len(), QSTRS.len(), QSTRS.len(), QSTRS.len(), QSTRS.len(), QSTRS.len(), QSTRS.len()]
}

pub fn head(d: &[usize]) -> Head {
    let libs: Vec<&str> = match d[0] {
        0 => vec!["power"],
        1 => vec![],
        2 => vec!["power", "device"],
        3 => vec!["a b", ""],
        _ => vec!["power", "power", "a,b", "LIBS:x"],
    };
    let eelayer = ["EELAYER 25 0", "EELAYER 24  0", "EELAYER 27 0 "][d[1]];
    let desc = sc::Description {
        size: ["A4", "User", "A", "USLetter"][d[2]].into(),
        dimx: INTS[d[3]],
        dimy: INTS[d[4]],
        portrait: d[5] == 1,
        sheet: INTS[d[6]],
        sheet_count: INTS[d[7]],
        title: QSTRS[d[8]].into(),
        date: QSTRS[d[9]].into(),
        rev: QSTRS[d[10]].into(),
        comp: QSTRS[d[11]].into(),
        comment1: QSTRS[d[12]].into(),
        comment2: QSTRS[d[13]].into(),
        comment3: QSTRS[d[14]].into(),
        comment4: QSTRS[d[15]].into(),
    };
    let mut lines = vec![raw("EESchema Schematic File Version 2")];
    for l in &libs {
        lines.push(raw(format!("LIBS:{}", l)))
    }
    lines.push(raw(eelayer));
    lines.push(raw("EELAYER END"));
    let port = if desc.portrait { " portrait" } else { "" };
    lines.push(ln(format!("$Descr {} {} {}{}", desc.size, desc.dimx, desc.dimy, port)));
    lines.push(raw("encoding utf-8"));
    lines.push(ln(format!("Sheet {} {}", desc.sheet, desc.sheet_count)));
    for (n, v) in [
        ("Title", &desc.title),
        ("Date", &desc.date),
        ("Rev", &desc.rev),
        ("Comp", &desc.comp),
        ("Comment1", &desc.comment1),
        ("Comment2", &desc.comment2),
        ("Comment3", &desc.comment3),
        ("Comment4", &desc.comment4),
    ] {
        lines.push(ln(format!("{} \"{}\"", n, v)))
    }
    lines.push(raw("$EndDescr"));
    Head {
        lines,
        libraries: libs.iter().map(|s| s.to_string()).collect(),
        eelayer: eelayer.into(),
        description: desc,
        plain: false,
    }
}

pub fn head0() -> Vec<usize> {
    vec![0; 16]
}

/// a page head with that many libraries
pub fn libraries(n: usize) -> Head {
    let mut h = head(&head0());
    let names: Vec<String> = (0..n).map(|i| format!("lib{}", i)).collect();
    h.lines.retain(|l| !l.text.starts_with("LIBS:"));
    for (i, l) in names.iter().enumerate() {
        h.lines.insert(1 + i, raw(format!("LIBS:{}", l)));
    }
    h.libraries = names;
    h
}

/// a small document of each kind, for sequences
pub fn representatives() -> Vec<(&'static str, Vec<usize>)> {
    vec![
        ("component", vec![0; 9]),
        ("component", vec![1, 1, 1, 1, 2, 1, 2, 3, 6]),
        ("wire", vec![0; 5]),
        ("wire", vec![2, 1, 2, 3, 4]),
        ("connection", vec![3, 4]),
        ("noconn", vec![4, 3]),
        ("text", vec![0; 9]),
        ("text", vec![3, 1, 2, 3, 1, 1, 1, 1, 3]),
        ("other", vec![0]),
        ("other", vec![1]),
        ("other", vec![6]),
        ("sheet", vec![3, 3, 4, 4, 0, 0, 0, 0, 0, 2]),
        ("sheet", vec![1, 2, 3, 4, 2, 2, 1, 2, 1, 0]),
    ]
}
