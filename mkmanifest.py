#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json

TRUST = "Trusts the independent model in mc/src and the Rust compiler; covers exactly the enumerated alphabet and bounds, nothing outside them."
CHECKS = [
    ("C01", "bounded exhaustive enumeration of documents against a reference model", "model_checking",
     "All footprint documents whose elements depart from a base form in up to 2 attributes (thorough: 3), and all element sequences up to length 3 (4), replayed on the real reader and writer. " + TRUST),
    ("C02", "bounded exhaustive enumeration of documents against a reference model", "model_checking",
     "All board documents whose elements and header depart from a base form in up to 2 attributes (thorough: 3), and all element sequences up to length 3 (4), replayed on the real reader and writer. " + TRUST),
    ("C03", "bounded exhaustive enumeration of documents against a reference model", "model_checking",
     "All schematics whose parts and header depart from a base form in up to 2 attributes (thorough: 3), and all part sequences up to length 3 (4), in several spacings, replayed on the real reader and writer. " + TRUST),
    ("C04", "bounded exhaustive enumeration of documents against a reference model", "model_checking",
     "All symbol libraries whose symbols and drawing lines depart from a base form in up to 2 attributes (thorough: 3), and sequences of parts, replayed on the real reader and writer. " + TRUST),
    ("C05", "bounded exhaustive enumeration of documents against a reference model", "model_checking",
     "All library tables up to the bound over an alphabet of names, URIs, options and descriptions, and all URI texts over an alphabet of references under several environments, against an independent expander. " + TRUST),
    ("C06", "exhaustive enumeration of single and double mutations of documents under a supervisor that reports crashes and hangs", "model_checking",
     "All documents one token edit away from the base documents (thorough: two), all prefixes, all short token strings and deep nestings, given to every reader and, where accepted, to its writer. " + TRUST),
    ("C07", "exhaustive insertion of unknown content at every place of the base documents", "model_checking",
     "Every place of every base document times an alphabet of unknown words, elements and lines; the result must be an error or keep the content when written back. " + TRUST),
    ("C08", "exhaustive enumeration of file contents, names and expectations", "model_checking",
     "Every content (all kinds, near misses, foreign and binary files) with every name under every expectation, through every reader, in a scratch directory. " + TRUST),
    ("C09", "exhaustive enumeration of boards and move sequences against a reference model", "model_checking",
     "All boards of one element departing in up to 2 attributes and of up to 3 elements, with move sequences up to length 3, compared after every move with the moved text tree. " + TRUST),
    ("C10", "exhaustive enumeration of shapes against a reference model", "model_checking",
     "All items departing in up to 2 attributes, shapes with corners on a grid in every order, footprints and boards of up to 3 parts, schematics, and all sequences of joined boxes; compared with boxes worked out on the text tree. " + TRUST),
    ("C11", "exhaustive enumeration of operation histories against a reference model", "model_checking",
     "All histories of net renamings, bulk renamings and additions up to the bound on boards with nets, net classes and pads in several arrangements; the written board and every lookup compared with the model after each step. " + TRUST),
    ("C12", "exhaustive enumeration of conforming and faulty footprints and of check and fix histories", "model_checking",
     "All footprints departing from a conforming one in up to 3 attributes (thorough: 4), all combinations of one text's attributes, and all combinations of name, position, courtyard, attribute, pads and size; findings, repaired footprint, second check and second repair compared with a model on the text tree. " + TRUST),
    ("C13", "exhaustive enumeration of conforming and faulty symbols", "model_checking",
     "All pins departing in up to 5 attributes (thorough: 7), all field and class combinations, all drawing sequences up to length 4 (5), and names with every character at every place; findings compared group by group with the model. " + TRUST),
    ("C14", "exhaustive enumeration of operation histories against a reference model", "model_checking",
     "All histories of field additions, updates and lookups up to the bound on components with several field arrangements; component, lookups, outcome and written form compared after each step. " + TRUST),
    ("C15", "exhaustive enumeration of operation histories against a reference model", "model_checking",
     "All histories of edits by reference up to the bound on boards and schematics, with absent and repeated references; content and every lookup compared after each step. " + TRUST),
    ("C16", "exhaustive enumeration of flip and rotate histories against a reference model", "model_checking",
     "All footprint elements departing in up to the bound's attributes and combinations of elements under all short histories of flips and rotations; the written footprint compared with the flipped or rotated text tree after each step. " + TRUST),
    ("C17", "exhaustive enumeration of sheet trees on disk against a reference model", "model_checking",
     "All sheet trees and graphs up to the bound, with missing, malformed and self-containing sheets, replayed on files in a scratch directory. " + TRUST),
    ("C18", "exhaustive enumeration of documents printed by an independent model of the KiCad writer", "model_checking",
     "Every element variant, sequences of elements, point list lengths around the wrapping points and indentation levels, compared byte for byte with the model's text. " + TRUST),
    ("C19", "exhaustive enumeration of faults and prior states of the target file", "fault_enumeration",
     "All targets (absent, longer, shorter, read-only directory, missing directory, full device, link and others) times contents and write calls, with the whole scratch directory compared before and after. " + TRUST),
    ("C20", "bounded exhaustive enumeration of references against a reference model", "model_checking",
     "All reference texts up to the bound over an alphabet of letters, digits and signs, all pairs, and all lists up to the bound; keys and orders compared with the model. " + TRUST),
    ("C21", "exhaustive enumeration of names and operation histories against a reference model", "model_checking",
     "All net names up to the bound over an alphabet of name pieces with all short histories of operations; name, recognition and outcome compared after each step. " + TRUST),
    ("C22", "exhaustive enumeration of tools, input files and output states", "model_checking",
     "Every tool on every kind of valid file, files cut at and missing every byte, foreign files, missing files, links and odd names, once more with a full output device; exit status, output, logged findings and the directory compared with the library linked into the checker. " + TRUST),
    ("C23", "exhaustive enumeration of operation histories against a reference model", "model_checking",
     "All setup entry lists up to the bound with all short histories of lookups and updates, and all pairs of net classes departing in the bound's attributes; entries and written board compared after each step. " + TRUST),
    ("C24", "exhaustive enumeration of pairs of elements against a reference model", "model_checking",
     "All ordered pairs of elements of the same kind departing in up to the bound's attributes, and all pairs of kinds; the comparison's answer compared with the one worked out from the parts' values. " + TRUST),
    ("C25", "exhaustive enumeration of operation histories against a reference model", "model_checking",
     "All footprints up to the sequence bound over an alphabet of every element kind, each with every edit and short ones with every pair of edits; every query compared with the model's element list after each step. " + TRUST),
    ("C26", "exhaustive enumeration of operation histories against a reference model", "model_checking",
     "All symbols over name forms, reference forms, field sets and drawings with every history of renamings up to the bound, all small libraries, sheets and report trees; whole values compared with the model. " + TRUST),
    ("C27", "exhaustive enumeration of single word replacements on the real readers", "model_checking",
     "Every number and choice place of every line form and element with every word of the wide families; the reading fails, or the written text has the same words in the same places. " + TRUST),
    ("C28", "exhaustive enumeration of single repetitions and moves on the real readers", "model_checking",
     "Every part of every list of every element, board section and table entry repeated, repeated with other values or moved to every place of its list; the reading fails, or the written text holds exactly the parts that were read. " + TRUST),
]
NA = []
m = {
    "version": 1,
    "setup_cmd": "bash check.sh build",
    "checks": [
        {
            "property": p,
            "quick_cmd": "bash check.sh " + p,
            "thorough_cmd": "bash check.sh " + p + " --thorough",
            "evidence_file": "evidence/%s.json" % p,
            "technique": t,
            "level": l,
            "level_note": n,
        }
        for p, t, l, n in CHECKS
    ],
    "not_applicable": [{"property": p, "reason": r} for p, r in NA],
    "notes": "One checker crate (mc) with a path dependency on /repo, rebuilt by check.sh on every run. No hooks in /repo.",
}
open("MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
