//! Compiles pattern lists with the automata crate and writes down the automata it builds.
//!
//! One job per line: tab-separated fields `D name hex` (definition), `P states hex`
//! (pattern with comma-separated start conditions), `S hex` (byte string to match).
//! One JSON value per line: the automaton of every start condition (byte classes,
//! transitions, accepted rule) and, per byte string, the verdict of each of them.
use automata::dfa::INVALID_STATE;
use automata::{to_flex_pattern_dfa, FlexPatternDef, NameDefinition};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn unhex(line: &str) -> Vec<u8> {
    let v = |c: u8| (c as char).to_digit(16).expect("hex") as u8;
    line.as_bytes().chunks(2).map(|p| v(p[0]) * 16 + v(p[1])).collect()
}

fn list(v: impl IntoIterator<Item = i64>) -> String {
    let s: Vec<String> = v.into_iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}

fn job(line: &str) -> String {
    let mut defs = Vec::new();
    let mut pats = Vec::new();
    let mut strings = Vec::new();
    let f: Vec<&str> = line.split('\t').collect();
    let mut i = 0;
    while i < f.len() {
        match f[i] {
            "D" => {
                defs.push(NameDefinition {
                    name: f[i + 1].to_string(),
                    definition: String::from_utf8(unhex(f[i + 2])).unwrap(),
                });
                i += 3;
            }
            "P" => {
                pats.push(FlexPatternDef {
                    state_set: f[i + 1].split(',').map(|x| x.parse().unwrap()).collect(),
                    pattern: String::from_utf8(unhex(f[i + 2])).unwrap(),
                });
                i += 3;
            }
            "S" => {
                strings.push(unhex(f[i + 1]));
                i += 2;
            }
            _ => i += 1,
        }
    }
    let dfas = to_flex_pattern_dfa(&pats, &defs);
    let mut o = String::from("{\"r\":\"ok\",\"dfa\":[");
    for (k, d) in dfas.iter().enumerate() {
        let mut classes: HashMap<Vec<usize>, usize> = HashMap::new();
        let mut columns: Vec<Vec<usize>> = Vec::new();
        let mut cls = Vec::new();
        for b in 0..256 {
            let col: Vec<usize> = d.states.iter().map(|s| s.transitions[b]).collect();
            let n = columns.len();
            let id = *classes.entry(col.clone()).or_insert(n);
            if id == n {
                columns.push(col);
            }
            cls.push(id as i64);
        }
        let num = |s: usize| if s == INVALID_STATE { -1 } else { s as i64 };
        let rows: Vec<String> = (0..d.states.len())
            .map(|s| list(columns.iter().map(|c| num(c[s]))))
            .collect();
        let acc = list(d.states.iter().map(|s| s.accept_lexer_rule_id.map_or(-1, |r| r as i64)));
        let ver = list(strings.iter().map(|s| d.match_bytes(s).map_or(-1, |r| r as i64)));
        let _ = write!(
            o,
            "{}{{\"cls\":{},\"next\":[{}],\"acc\":{},\"ver\":{}}}",
            if k > 0 { "," } else { "" },
            list(cls),
            rows.join(","),
            acc,
            ver
        );
    }
    o.push_str("]}");
    o
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| job(&line)))
            .unwrap_or_else(|_| String::from("{\"r\":\"panic\"}"));
        writeln!(out.lock(), "{}", r).unwrap();
    }
}
