//! Fixed scenarios: defects which were repaired must stay so, and recorded findings are announced.
use crate::drive::Run;
use crate::run::*;
use crate::scen::*;
use crate::sim::{Chaos, FKind, Fault};
use beancount_parser_lima::{BeancountParser, BeancountSources};
use std::collections::BTreeMap;

/// findings listed in the committed file: (property, probe) -> what fails
pub fn listed(verif: &str) -> BTreeMap<(String, String), String> {
    let mut out = BTreeMap::new();
    let Ok(t) = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", verif)) else { return out };
    for l in t.lines() {
        let Some(rest) = l.strip_prefix("finding: property=") else { continue };
        let mut it = rest.splitn(3, ' ');
        if let (Some(p), Some(n), Some(w)) = (it.next(), it.next(), it.next()) {
            if let Some(n) = n.strip_prefix("probe=") {
                out.insert((p.to_string(), n.to_string()), w.to_string());
            }
        }
    }
    out
}


/// files given as text
fn world(files: &[(&str, &str)]) -> World {
    World {
        cwd: "/led".into(),
        root: "main.bean".into(),
        files: files.iter().map(|(p, t)| FileSpec { path: format!("/led/{}", p), items: vec![], chop: false, raw: Some(t.as_bytes().to_vec()) }).collect(),
        ..Default::default()
    }
}

fn probe(prop: &str, name: &str, files: &[(&str, &str)], faults: Vec<Fault>) -> Scenario {
    Scenario {
        property: prop.into(),
        seed: 1,
        kind: format!("probe:{}", name),
        worlds: vec![world(files)],
        faults: vec![faults],
        chaos: vec![Chaos { hash_seed: 1, ..Default::default() }],
        ..Default::default()
    }
}

fn fails(op: &str, path: &str) -> Fault {
    Fault { op: op.into(), path: path.into(), kind: FKind::Errno(libc::EACCES), skip: 0, times: 0 }
}

const OPEN: &str = "2024-01-01 open Assets:A\n";

pub fn all(prop: &str) -> Vec<Scenario> {
    let p = |name: &str, files: &[(&str, &str)]| probe(prop, name, files, vec![]);
    match prop {
        "C02" => vec![
            probe(prop, "wildcard-stat", &[("main.bean", "include \"*/x.bean\"\n"), ("a/x.bean", OPEN), ("b/x.bean", "2024-01-01 open Assets:B\n")], vec![fails("stat", "/led/b/x.bean")]),
            p("error-at-end", &[("main.bean", "include \"missing.bean\"\nbogus\n")]),
        ],
        "C01" => vec![p("non-utf8-directory", &[("main.bean", ""), ("caf/main.bean", "include \"x.bean\"\n"), ("caf/x.bean", OPEN)])],
        "C03" => vec![],
        "C09" => vec![
            p("glob-non-utf8-name", &[("main.bean", "include \"in/*.bean\"\n"), ("in/x.bean", OPEN)]),
            p("long-sum", &[("main.bean", &format!("2024-01-01 price USD 1{} EUR\n", "+1".repeat(200_000)))]),
            p("deep-parentheses", &[("main.bean", &format!("2024-01-01 price USD {}1{} EUR\n", "(".repeat(600_000), ")".repeat(600_000)))]),
            p("trim-multi-byte", &[("main.bean", "2024-01-01 note Assets:A \"é\u{a0}\u{3000}\n")]),
            p("other-digits", &[("main.bean", "2024-01-0٣ open Assets:A\n2024-01-01 price USD ٣.٣ EUR\n")]),
            p("division-by-zero", &[("main.bean", "2024-01-01 price USD 1/0 EUR\n2024-01-01 price USD 99999999999999999999999999*99999999999999999999999999 EUR\n")]),
            p("odd-currency", &[("main.bean", "option \"operating_currency\" \"é\"\noption \"operating_currency\" \"\"\noption \"conversion_currency\" \"Aé\"\n")]),
        ],
        "C10" => vec![probe(prop, "root-realpath-cycle", &[("main.bean", "2024-01-01 open Assets:A\ninclude \"x.bean\"\n"), ("x.bean", "include \"../led/main.bean\"\n")], vec![Fault { op: "realpath".into(), path: "/led/main.bean".into(), kind: FKind::Errno(libc::EACCES), skip: 0, times: 1 }])],
        "C14" => vec![p("many-pragmas", &[("main.bean", &"pushtag #a\npoptag #a\n".repeat(60_000))])],
        _ => vec![],
    }
}

pub fn run(s: &Scenario, _run: Run, st: &mut Stats) -> Result<(), String> {
    let w = &s.worlds[0];
    let name = s.kind.trim_start_matches("probe:");
    let mut vfs = w.vfs();
    if name == "glob-non-utf8-name" {
        vfs.put_bytes_name("/led/in", b"caf\xe9.bean", OPEN.as_bytes().to_vec());
    }
    if name == "non-utf8-directory" {
        vfs.rename("/led", b"caf", b"caf\xe9");
    }
    let light = matches!(name, "many-pragmas" | "long-sum" | "deep-parentheses");
    let ran = simulate_vfs(vfs, &s.faults[0], &s.chaos[0], &[], st, || {
        if name == "non-utf8-directory" {
            use std::os::unix::ffi::OsStrExt;
            let root = std::path::PathBuf::from(std::ffi::OsStr::from_bytes(b"/led/caf\xe9/main.bean"));
            let src = BeancountSources::try_from(root).unwrap();
            let ok = BeancountParser::new(&src).parse().is_ok();
            return crate::obs::Obs { ok, ..Default::default() };
        }
        if !light {
            return load_and_parse(w);
        }
        let src = load(w).unwrap();
        let ok = BeancountParser::new(&src).parse().is_ok();
        crate::obs::Obs { ok, ..Default::default() }
    });
    let (o, _) = ran.ok("load and parse")?;
    match name {
        "wildcard-stat" => {
            if o.ok && o.dirs.len() != 2 {
                return Err(format!("accepted: parsing succeeded with {} of 2 directives", o.dirs.len()));
            }
        }
        "error-at-end" => {
            if !o.errors.iter().any(|e| e.text.contains("missing.bean")) {
                return Err("unreported: the missing include before a syntax error at the end of the file is not reported".into());
            }
        }
        "root-realpath-cycle" => {
            if o.ok {
                return Err(format!("repeated: parsing succeeded with {} directives, the file has 1, and its cycle was not reported", o.dirs.len()));
            }
        }
        "non-utf8-directory" => {
            if !o.ok {
                return Err("refused: an include from a directory whose name is not UTF-8 is not found".into());
            }
        }
        "many-pragmas" => {
            if !o.ok {
                return Err("refused: a ledger of many pragmas did not parse".into());
            }
        }
        _ => {}
    }
    Ok(())
}

/// how cases are made, and what makes one non-trivial
pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "a seed gives an include tree (files, wildcards, links, path spellings) with its contents, chaos (short and interrupted reads, listing order, misreported sizes) and I/O faults; non-trivial: the model expects directives or errors; distinct by the log of system calls and the observations",
        "C02" => "as C01 with files that fail to open, read, decode or resolve, bad patterns and unmatched includes; non-trivial: the model expects an error, or directives which must survive",
        "C03" => "a seed gives one ledger executed several times under different hash keys, listing orders, read fragmentation, interruptions and metadata; non-trivial: the ledger yields directives or errors",
        "C04" => "a seed gives a ledger and a history of parse, clone, drop, report and resolve after the files have been changed or removed; non-trivial: the ledger yields directives or errors",
        "C05" => "a seed gives up to three ledgers on one disk, faults, two to four threads with their operations, and a schedule of slices; each operation is first executed alone in a process of its own; non-trivial: there were more context switches than threads",
        "C06" => "a seed gives a ledger with errors or warnings and a script for the writer (part of a write, interruption, zero, failure); non-trivial: a report was written and the writer was not perfect",
        "C07" => "as C01 with contents rich in multi-byte text, failing and repeated includes; non-trivial: the model expects directives or errors to be located",
        "C08" => "a seed gives a ledger and a history of synthetic spans created, resolved, reported and cloned; non-trivial: at least two spans were created",
        "C09" => "a seed gives a ledger some of whose files are then damaged (bits, truncation, blocks torn, zeroed, misplaced or spliced, invalid UTF-8, arbitrary Unicode); non-trivial: some file was damaged",
        "C14" => "a seed gives an include graph with faults, few descriptors, or unusual size; non-trivial: there was file system work",
        "C15" => "a seed gives three ledgers and a history of attempts, each with its own faults, compared with the same attempt in a fresh process; non-trivial: one attempt failed and one gave a result",
        "C16" => "a seed gives a ledger, further versions of its files, and the system calls before which they are replaced; non-trivial: some replacement took place during the load",
        _ => "a seed gives an include tree with contents which exercise this property, and chaos (hash keys, listing order, short and interrupted reads); non-trivial: the model expects directives or errors",
    }
}
