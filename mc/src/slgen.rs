//! Symbol library documents: canonical lines plus the value reading them must
//! give.

use crate::scgen::{ln, raw, Ln, FCOORD, FNAMES, QSTRS};
use kicad_parse_gen::schematic as sc;
use kicad_parse_gen::symbol_lib as sl;

pub struct Sym {
    pub lines: Vec<Ln>,
    pub value: sl::Symbol,
}

pub const INTS: &[i64] = &[0, 100, -250, 1, 12345, -1000000];
pub const SIZES: &[i64] = &[50, 0, 40, 1000];
pub const PIN_TYPES: &[(&str, sl::PinType)] = &[
    ("I", sl::PinType::Input),
    ("O", sl::PinType::Output),
    ("B", sl::PinType::Bidi),
    ("T", sl::PinType::Tristate),
    ("P", sl::PinType::Passive),
    ("U", sl::PinType::Unspecified),
    ("W", sl::PinType::PowerInput),
    ("w", sl::PinType::PowerOutput),
    ("C", sl::PinType::OpenCollector),
    ("E", sl::PinType::OpenEmitter),
    ("N", sl::PinType::NotConnected),
];
pub const SHAPES: &[(&str, sl::PinShape)] = &[
    ("", sl::PinShape::Line),
    ("I", sl::PinShape::Inverted),
    ("C", sl::PinShape::Clock),
    ("CI", sl::PinShape::InvertedClock),
    ("L", sl::PinShape::InputLow),
    ("CL", sl::PinShape::ClockLow),
    ("V", sl::PinShape::OutputLow),
    ("F", sl::PinShape::FallingEdgeClock),
    ("X", sl::PinShape::NonLogic),
];

pub const KINDS: &[&str] = &["def", "field", "field4", "alias", "pin", "rect", "other"];

pub const OTHERS: &[&[&str]] = &[
    &["P 2 0 1 0 -100 0 100 0 N"],
    &["A 0 0 100 1 -1 0 1 0 N 100 0 100 0", "C 0 0 50 0 1 0 N"],
    &["T 0 0 0 50 0 0 1 some~text Normal 0 C C"],
    &[""],
    &["XY 1 2", "SS", "X", "S", "  X A 1 0 0", "DRAW", "ENDDEF", "#", "F0 \"x\""],
];

pub fn dims(kind: &str) -> Vec<usize> {
    match kind {
        // name reference offset pinnumber pinname units locked power
        "def" => vec![6, 4, FCOORD.len(), 2, 2, 4, 2, 2],
        // value x y size orientation visible hj vj italic bold index name
        "field" | "field4" => vec![QSTRS.len(), FCOORD.len(), FCOORD.len(), SIZES.len(), 2, 2, 5, 5, 2, 2, 4, 4],
        // aliases filters order
        "alias" => vec![4, 4, 2],
        // name number x y len orientation num_size name_size unit convert type visible shape
        "pin" => vec![6, 4, INTS.len(), INTS.len(), INTS.len(), 4, SIZES.len(), SIZES.len(), 3, 3, PIN_TYPES.len(), 2, SHAPES.len()],
        // x1 y1 x2 y2 unit convert thickness fill
        "rect" => vec![INTS.len(), INTS.len(), INTS.len(), INTS.len(), 3, 3, 4, 3],
        "other" => vec![OTHERS.len()],
        _ => unreachable!(),
    }
}

pub fn field(i: i64, name: Option<&str>, d: &[usize]) -> (Ln, sl::Field) {
    let hj = [("C", sc::Justify::Center), ("L", sc::Justify::Left), ("R", sc::Justify::Right), ("B", sc::Justify::Bottom), ("T", sc::Justify::Top)];
    let vj = [("C", sc::Justify::Center), ("B", sc::Justify::Bottom), ("T", sc::Justify::Top), ("L", sc::Justify::Left), ("R", sc::Justify::Right)];
    let mut s = format!(
        "F{} \"{}\" {} {} {} {} {} {} {}{}{}",
        i,
        QSTRS[d[0]],
        FCOORD[d[1]].0,
        FCOORD[d[2]].0,
        SIZES[d[3]],
        ["H", "V"][d[4]],
        ["V", "I"][d[5]],
        hj[d[6]].0,
        vj[d[7]].0,
        ["N", "I"][d[8]],
        ["N", "B"][d[9]]
    );
    let n = match name {
        Some(n) => {
            if i > 3 || FNAMES[i as usize] != n {
                s.push_str(&format!(" \"{}\"", n))
            }
            n
        }
        None => FNAMES[i as usize],
    };
    let f = sl::Field {
        i,
        value: QSTRS[d[0]].into(),
        x: FCOORD[d[1]].1,
        y: FCOORD[d[2]].1,
        dimension: SIZES[d[3]],
        orientation: if d[4] == 0 { sc::Orientation::Horizontal } else { sc::Orientation::Vertical },
        visible: d[5] == 0,
        hjustify: hj[d[6]].1.clone(),
        vjustify: vj[d[7]].1.clone(),
        italic: d[8] == 1,
        bold: d[9] == 1,
        name: n.into(),
    };
    (ln(s), f)
}

pub fn pin(d: &[usize]) -> (Ln, sl::Draw) {
    let ori = [("U", sl::PinOrientation::Up), ("D", sl::PinOrientation::Down), ("L", sl::PinOrientation::Left), ("R", sl::PinOrientation::Right)];
    let name = ["A", "~", "~RESET", "+3.3V", "PA0/\u{b5}X", "X"][d[0]];
    let number = ["1", "A12", "~", "100"][d[1]];
    let p = sl::Pin {
        name: name.into(),
        number: number.into(),
        x: INTS[d[2]],
        y: INTS[d[3]],
        len: INTS[d[4]],
        orientation: ori[d[5]].1.clone(),
        num_size: SIZES[d[6]],
        name_size: SIZES[d[7]],
        unit: [1, 0, 12][d[8]],
        convert: [1, 0, 2][d[9]],
        pin_type: PIN_TYPES[d[10]].1.clone(),
        pin_visible: d[11] == 0,
        pin_shape: SHAPES[d[12]].1.clone(),
    };
    let shape = match (p.pin_visible, SHAPES[d[12]].0) {
        (true, "") => "".to_string(),
        (true, s) => format!(" {}", s),
        (false, s) => format!(" N{}", s),
    };
    (
        ln(format!(
            "X {} {} {} {} {} {} {} {} {} {} {}{}",
            name, number, p.x, p.y, p.len, ori[d[5]].0, p.num_size, p.name_size, p.unit, p.convert, PIN_TYPES[d[10]].0, shape
        )),
        sl::Draw::Pin(p),
    )
}

pub fn rect(d: &[usize]) -> (Ln, sl::Draw) {
    let fill = [("f", sl::Fill::FilledBackground), ("F", sl::Fill::FilledForeground), ("N", sl::Fill::Transparent)];
    let r = sl::Rectangle {
        x1: INTS[d[0]],
        y1: INTS[d[1]],
        x2: INTS[d[2]],
        y2: INTS[d[3]],
        unit: [0, 1, 12][d[4]],
        convert: [1, 0, 2][d[5]],
        thickness: [10, 0, 12, 100][d[6]],
        fill: fill[d[7]].1.clone(),
    };
    (
        ln(format!("S {} {} {} {} {} {} {} {}", r.x1, r.y1, r.x2, r.y2, r.unit, r.convert, r.thickness, fill[d[7]].0)),
        sl::Draw::Rectangle(r),
    )
}

/// `order`: footprint filters in front of the aliases (accepted, written behind them)
pub fn symbol(
    def: &[usize],
    fields: Vec<(Ln, sl::Field)>,
    aliases: &[&str],
    filters: &[&str],
    draw: Vec<(Ln, sl::Draw)>,
    order: bool,
) -> (Sym, Vec<Ln>) {
    let name = ["R", "~GND", "74HC00", "\u{3a9}", "a\"b", "F"][def[0]].replace('"', "'");
    let reference = ["U", "#PWR", "~", "IC12"][def[1]];
    let (ot, ov) = FCOORD[def[2]];
    let units = [1, 0, 12, -3][def[5]];
    let mut v = sl::Symbol::new(name.clone(), reference.to_string());
    v.text_offset = ov;
    v.draw_pinnumber = def[3] == 0;
    v.draw_pinname = def[4] == 0;
    v.unit_count = units;
    v.unit_locked = def[6] == 1;
    v.is_power = def[7] == 1;
    let title = if fields.len() > 1 { fields[1].1.value.clone() } else { name.clone() };
    let mut lines = vec![
        raw(format!("# {}", title)),
        raw("#"),
        ln(format!(
            "DEF {} {} 0 {} {} {} {} {} {}",
            name,
            reference,
            ot,
            ["Y", "N"][def[3]],
            ["Y", "N"][def[4]],
            units,
            ["F", "L"][def[6]],
            ["N", "P"][def[7]]
        )),
    ];
    for (l, f) in fields {
        lines.push(l);
        v.fields.push(f);
    }
    let mut al = vec![];
    if !aliases.is_empty() {
        al.push(ln(format!("ALIAS {}", aliases.join(" "))));
    }
    let mut fl = vec![];
    if !filters.is_empty() {
        fl.push(raw("$FPLIST"));
        for f in filters {
            fl.push(raw(*f))
        }
        fl.push(raw("$ENDFPLIST"));
    }
    v.aliases = aliases.iter().map(|s| s.to_string()).collect();
    v.footprint_filters = filters.iter().map(|s| s.to_string()).collect();
    let mut tail = vec![raw("DRAW")];
    for (l, d) in draw {
        tail.push(l);
        v.draw.push(d);
    }
    tail.push(raw("ENDDRAW"));
    tail.push(raw("ENDDEF"));
    tail.push(raw("#"));
    let mut input = lines.clone();
    if order {
        input.extend(fl.clone());
        input.extend(al.clone());
    } else {
        input.extend(al.clone());
        input.extend(fl.clone());
    }
    input.extend(tail.clone());
    lines.extend(al);
    lines.extend(fl);
    lines.extend(tail);
    (Sym { lines, value: v }, input)
}

fn base_fields() -> Vec<(Ln, sl::Field)> {
    (0..4).map(|i| field(i, None, &[i as usize; 12].map(|x| if x == i as usize { 0 } else { x }))).collect()
}

/// (canonical symbol, input lines)
pub fn build(kind: &str, d: &[usize]) -> (Sym, Vec<Ln>) {
    let base = [0usize; 8];
    match kind {
        "def" => symbol(d, base_fields(), &[], &[], vec![], false),
        "field" => {
            let mut f = base_fields();
            let i = d[10];
            f[i] = field(i as i64, [None, Some("MPN"), Some("Value"), Some("")][d[11]], d);
            symbol(&base, f, &[], &[], vec![], false)
        }
        "field4" => {
            let mut f = base_fields();
            f.push(field([4, 5, 12, 100][d[10]], Some(["MPN", "", "a b", "Reference"][d[11]]), d));
            symbol(&base, f, &[], &[], vec![], false)
        }
        "alias" => {
            let al: &[&str] = [&[][..], &["R2"], &["R2", "R3"], &["~X", "74HC00", "a.b", "\u{3a9}"]][d[0]];
            let fl: &[&str] = [&[][..], &[" R_*"], &[" R_*", " Resistor_*"], &["", "ALIAS x", "DRAW"]][d[1]];
            symbol(&base, base_fields(), al, fl, vec![], d[2] == 1)
        }
        "pin" => symbol(&base, base_fields(), &[], &[], vec![pin(d)], false),
        "rect" => symbol(&base, base_fields(), &[], &[], vec![rect(d)], false),
        "other" => symbol(
            &base,
            base_fields(),
            &[],
            &[],
            OTHERS[d[0]].iter().map(|s| (raw(*s), sl::Draw::Other(s.to_string()))).collect(),
            false,
        ),
        _ => unreachable!(),
    }
}

pub const DRAWS: usize = 6;
/// representative drawing lines
pub fn draw(n: usize) -> (Ln, sl::Draw) {
    match n {
        0 => pin(&[0; 13]),
        1 => pin(&[2, 1, 1, 2, 1, 3, 1, 2, 1, 1, 10, 1, 3]),
        2 => rect(&[0; 8]),
        3 => rect(&[1, 2, 3, 4, 1, 1, 2, 2]),
        4 => (raw(OTHERS[0][0]), sl::Draw::Other(OTHERS[0][0].to_string())),
        _ => (raw(OTHERS[2][0]), sl::Draw::Other(OTHERS[2][0].to_string())),
    }
}

/// representative symbols for sequences
pub fn reps(n: usize) -> (Sym, Vec<Ln>) {
    match n {
        0 => build("def", &[0; 8]),
        1 => symbol(&[1, 1, 2, 1, 1, 1, 1, 1], base_fields(), &["A", "B"], &[" R_*"], vec![draw(0), draw(2), draw(4)], false),
        2 => symbol(&[2, 0, 3, 0, 1, 2, 0, 0], base_fields(), &[], &[" X"], vec![draw(1)], true),
        3 => symbol(&[3, 2, 1, 1, 0, 3, 0, 0], vec![], &["z"], &[], vec![draw(5), draw(3), draw(1)], false),
        _ => symbol(&[0; 8], base_fields().into_iter().take(1).collect(), &[], &[], vec![], false),
    }
}
pub const REPS: usize = 5;
