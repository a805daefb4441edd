mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod core;
mod fpgen;
mod geo;
mod lagen;
mod mutate;
mod scgen;
mod shape;
mod slgen;
mod sx;
mod watch;

use crate::core::*;
use std::path::PathBuf;
use std::time::Instant;

fn main() {
    let mut args = std::env::args().skip(1);
    let id = args.next().unwrap_or_default();
    let mut only = None;
    let mut tier = match std::env::var("VERIF_TIER").as_ref().map(|s| &s[..]) {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    while let Some(x) = args.next() {
        match &x[..] {
            "--case" => only = args.next(),
            "--thorough" => tier = Tier::Thorough,
            "--quick" => tier = Tier::Quick,
            _ => {
                eprintln!("unknown argument {}", x);
                std::process::exit(2);
            }
        }
    }
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| ".".into()));
    if std::env::var_os("MC_CHILD").is_none() {
        std::process::exit(watch::supervise(&root, &id));
    }
    watch::silence();
    watch::start(root.clone(), id.clone());
    install_panic_hook();
    let started = Instant::now();
    let mut ctx = Ctx::new(&id, tier, only);
    let (run, level, rule): (fn(&mut Ctx), &str, &str) = match &id[..] {
        "C01" => (
            c01::run,
            "model_checking",
            "state: a footprint document; transition: choosing one element or one attribute value; every document is read, compared with the model value, written, compared with the model text, read and written again",
        ),
        "C02" => (
            c02::run,
            "model_checking",
            "state: a board document; transition: choosing one element or one attribute value; every document is read, compared with the model value, written, compared with the model text, read and written again",
        ),
        "C03" => (
            c03::run,
            "model_checking",
            "state: a schematic text; transition: choosing one element, attribute value or spelling; every text is read, compared with the model value, written, compared byte for byte with the canonical text, read and written again",
        ),
        "C04" => (
            c04::run,
            "model_checking",
            "state: a symbol library text; transition: choosing one symbol, line, attribute value or spelling; every text is read, compared with the model value, written, compared byte for byte with the canonical text and read again",
        ),
        "C05" => (
            c05::run,
            "model_checking",
            "state: a library table text, or a URI under an environment; transition: choosing one entry, string, spelling or URI piece; every table is read, compared, written at several indentations, compared and read again, every URI is expanded and compared with the model",
        ),
        "C06" => (
            c06::run,
            "model_checking",
            "state: a text given to a reader; transition: one edit of a well-formed text or one more token; each is read and, if accepted, written, and must come back with a value or an error",
        ),
        "C07" => (
            c07::run,
            "model_checking",
            "state: a document with one foreign list, word or line in one place; transition: inserting or replacing that one thing; every document is read and, if accepted, written, and the written content must be the whole input content",
        ),
        "C08" => (
            c08::run,
            "model_checking",
            "state: a file content under a name, or a path that can not be read; transition: choosing one content, name or edit; every file is opened with every expectation and by every reader, and the answers compared with each kind's own text reader",
        ),
        "C19" => (
            c19::run,
            "fault_enumeration",
            "distinct (content, what was at the target before, place or byte at which storing fails); each write is run on the real file system and its result compared with what is in the file",
        ),
        "C17" => (
            c17::run,
            "model_checking",
            "state: a set of schematic files that name each other as sheets; transition: adding one sheet to one file; every hierarchy is written to disk, listed and looked up, and compared with a reference traversal",
        ),
        "C09" => (
            c09::run,
            "model_checking",
            "state: a board after a sequence of moves; transition: one move; after every move the written board is compared with the moved text tree",
        ),
        "C10" => (
            c10::run,
            "model_checking",
            "state: an item, footprint, board, schematic or set of boxes; transition: choosing one attribute, element or move; the box the library gives is compared with one worked out on the text tree",
        ),
        "C11" => (
            c11::run,
            "model_checking",
            "state: a board and a history of renamings, bulk renamings and additions; transition: one operation; the written board and the lookups are compared with the model after each",
        ),
        "C21" => (
            c21::run,
            "model_checking",
            "state: a net name and a history of operations on it; transition: one operation; name, recognition and outcome are compared with the model after each",
        ),
        "C20" => (
            c20::run,
            "model_checking",
            "state: a text, pair or list of references; transition: appending one token or reference; the key and the order are compared with the model",
        ),
        "C23" => (
            c23::run,
            "model_checking",
            "state: setup entries and a history of lookups and updates, or a pair of net classes; transition: one operation or comparison; entries, plot parameters and the written board are compared with the model",
        ),
        "C14" => (
            c14::run,
            "model_checking",
            "state: a component and a history of field operations; transition: one operation; the component, its lookups, the outcome and the written form are compared with the model",
        ),
        "C15" => (
            c15::run,
            "model_checking",
            "state: a board or schematic and a history of edits by reference; transition: one edit; the content and every lookup are compared with the model",
        ),
        "C16" => (
            c16::run,
            "model_checking",
            "state: a footprint and a history of flips and rotations; transition: one of them; the written footprint is compared with the flipped or rotated text tree after each",
        ),
        "C24" => (
            c24::run,
            "model_checking",
            "state: an element; transition: comparing it with another one, in both orders; the answer is compared with the one worked out from the values that belong to the part",
        ),
        "C12" => (
            c12::run,
            "model_checking",
            "a state is a footprint with conforming and faulty texts, courtyard, pads and attributes, a size setting and an order; a transition checks it, fixes it, and checks and fixes it again",
        ),
        "C13" => (
            c13::run,
            "model_checking",
            "a state is a symbol, a name or a library with conforming and faulty parts; a transition reads and checks it",
        ),
        "C22" => (
            c22::run,
            "model_checking",
            "a state is a file and a tool; a transition runs the tool on the file, and once more with a full output; exit status, output, findings and the directory are compared with what the library computes",
        ),
        "C18" => (
            c18::run,
            "model_checking",
            "a document in KiCad's own line layout, or a sequence of elements",
        ),
        "C25" => (
            c25::run,
            "model_checking",
            "state: a footprint and a history of edits of its parts, or a part built through the API; transition: one edit; every query is compared with the element list of the model after each",
        ),
        "C26" => (
            c26::run,
            "model_checking",
            "state: a symbol and a history of renamings, a library, a schematic or a report; transition: one renaming or one element added; every query is compared with the model after each",
        ),
        "C27" => (
            c27::run,
            "model_checking",
            "a state is a document with one word replaced; a transition is the replacement; it is read, and what is accepted is written and compared word by word",
        ),
        "C28" => (
            c28::run,
            "model_checking",
            "a state is a document with one part or line repeated, repeated with other values, or moved; a transition is that change; it is read, and what is accepted is written and compared part by part",
        ),
        _ => {
            eprintln!("unknown property '{}'", id);
            std::process::exit(2);
        }
    };
    run(&mut ctx);
    let rep = Report { level, rule, started };
    std::process::exit(finish(&ctx, &rep, &root));
}
