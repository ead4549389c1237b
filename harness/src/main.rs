//! Runs inputs through the real parser and records what it does.
//!
//! `harness MODE [ARGS] < inputs`: one input per line, hex encoded; one JSON value per
//! line on stdout, in the same order.  Only observes: all judging is done elsewhere.
use postgresql_cst_parser::{parse, NodeOrToken, ParserError, PostgreSQLSyntax, ResolvedNode};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};

fn unhex(line: &str) -> String {
    let b = line.as_bytes();
    let v = |c: u8| (c as char).to_digit(16).expect("hex") as u8;
    let bytes: Vec<u8> = b.chunks(2).map(|p| v(p[0]) * 16 + v(p[1])).collect();
    String::from_utf8(bytes).expect("inputs are UTF-8")
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut buf = [0u16; 2];
                for u in c.encode_utf16(&mut buf) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn error_json(e: &ParserError) -> String {
    match e {
        ParserError::ScanError { message } => format!("{{\"r\":\"err\",\"m\":{}}}", esc(message)),
        ParserError::ScanReport(r) => format!(
            "{{\"r\":\"rep\",\"m\":{},\"d\":{},\"p\":{}}}",
            esc(&r.message),
            esc(&r.detail),
            r.position_in_bytes
        ),
        ParserError::ParseError { message, start_byte_pos, end_byte_pos } => format!(
            "{{\"r\":\"syn\",\"m\":{},\"s\":{},\"e\":{}}}",
            esc(message),
            start_byte_pos,
            end_byte_pos
        ),
    }
}

/// Postorder events: leaf [kind, start, end], node [kind, start, end, number of children].
/// `bad` collects internal inconsistencies of the tree's own accessors.
fn events(root: &ResolvedNode, input: &str, texts: bool) -> String {
    fn rec(n: &ResolvedNode, input: &str, texts: bool, o: &mut String, bad: &mut usize) {
        let mut count = 0;
        let mut pos: u32 = n.text_range().start().into();
        for c in n.children_with_tokens() {
            count += 1;
            let (s, e): (u32, u32);
            match c {
                NodeOrToken::Node(m) => {
                    s = m.text_range().start().into();
                    e = m.text_range().end().into();
                    rec(m, input, texts, o, bad);
                }
                NodeOrToken::Token(t) => {
                    s = t.text_range().start().into();
                    e = t.text_range().end().into();
                    if input.get(s as usize..e as usize) != Some(t.text()) {
                        *bad += 1;
                    }
                    let _ = write!(o, "[{},{},{}", t.kind() as u32, s, e);
                    if texts {
                        o.push_str(",[");
                        for (i, b) in t.text().bytes().enumerate() {
                            let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, b);
                        }
                        o.push(']');
                    }
                    o.push_str("],");
                }
            }
            if s != pos {
                *bad += 1;
            }
            pos = e;
        }
        let (s, e): (u32, u32) = (n.text_range().start().into(), n.text_range().end().into());
        if pos != e {
            *bad += 1;
        }
        let _ = write!(o, "[{},{},{},{}],", n.kind() as u32, s, e, count);
    }
    let mut o = String::from("{\"r\":\"ok\",\"ev\":[");
    let mut bad = 0;
    rec(root, input, texts, &mut o, &mut bad);
    o.pop();
    if root.text().to_string() != input {
        bad += 1;
    }
    let _ = write!(o, "],\"bad\":{}}}", bad);
    o
}

fn panic_json(p: Box<dyn std::any::Any + Send>) -> String {
    let m = p
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default();
    format!("{{\"r\":\"panic\",\"m\":{}}}", esc(&m))
}

fn guarded(f: impl FnOnce() -> String) -> String {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(panic_json)
}

type ParseResult = Result<ResolvedNode, ParserError>;

fn result_json(r: &ParseResult, input: &str, texts: bool) -> String {
    match r {
        Ok(t) => events(t, input, texts),
        Err(e) => error_json(e),
    }
}

fn observe_parse(input: &str, texts: bool) -> String {
    guarded(|| result_json(&parse(input), input, texts))
}

#[cfg(pgcst_verif)]
fn observe_tokens(input: &str) -> String {
    fn list(ts: &[(String, usize, usize)]) -> String {
        let v: Vec<String> =
            ts.iter().map(|(k, s, e)| format!("[{},{},{}]", esc(k), s, e)).collect();
        format!("[{}]", v.join(","))
    }
    guarded(|| match postgresql_cst_parser::verif_hooks::tokens(input) {
        Ok((a, b)) => format!("{{\"r\":\"ok\",\"s\":{},\"f\":{}}}", list(&a), list(&b)),
        Err(e) => error_json(&e),
    })
}
#[cfg(not(pgcst_verif))]
fn observe_tokens(_: &str) -> String {
    "{\"r\":\"nohook\"}".into()
}

/// For every alternative text, how `prefix text` fares:
/// 'v' the token at the end of the prefix is accepted, '.' it is the one complained about,
/// 'E' something earlier is complained about, 'S' scan error, 'P' panic, 'A' whole input accepted.
fn observe_viable(prefix: &str, alts: &[String]) -> String {
    let mut o = String::from("\"");
    for a in alts {
        let input = format!("{}{}", prefix, a);
        let at = prefix.len() + a.bytes().take_while(|b| *b == b' ').count();
        let c = catch_unwind(AssertUnwindSafe(|| match parse(&input) {
            Ok(_) => 'A',
            Err(ParserError::ParseError { start_byte_pos, .. }) => {
                if start_byte_pos == at {
                    '.'
                } else if start_byte_pos > at {
                    'v'
                } else {
                    'E'
                }
            }
            Err(_) => 'S',
        }))
        .unwrap_or('P');
        o.push(c);
    }
    o.push('"');
    o
}

fn parallel(lines: &[String], f: impl Fn(&str) -> String + Send + Sync) -> Vec<String> {
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let next = AtomicUsize::new(0);
    let out: Vec<Mutex<String>> = lines.iter().map(|_| Mutex::new(String::new())).collect();
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= lines.len() {
                        break;
                    }
                    let r = f(&lines[i]);
                    *out[i].lock().unwrap() = r;
                })
                .unwrap();
        }
    });
    out.into_iter().map(|m| m.into_inner().unwrap()).collect()
}

fn digest(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// Histories: every line is `t:i,i,i;t:i,...`, the calls each thread makes, by index into the
/// inputs of file ARG.  Output: per line, the observations, as [thread, step, input, digest].
fn histories(lines: &[String], inputs: &[String]) -> Vec<String> {
    lines
        .iter()
        .map(|l| {
            let plans: Vec<Vec<usize>> = l
                .split(';')
                .map(|p| p.split(',').map(|x| x.parse().unwrap()).collect())
                .collect();
            let barrier = Arc::new(Barrier::new(plans.len()));
            let res: Vec<Vec<String>> = std::thread::scope(|s| {
                let hs: Vec<_> = plans
                    .iter()
                    .enumerate()
                    .map(|(t, plan)| {
                        let barrier = barrier.clone();
                        std::thread::Builder::new()
                            .stack_size(1 << 28)
                            .spawn_scoped(s, move || {
                                barrier.wait();
                                // one buffer for all inputs of the thread; the previous result is
                                // looked at once more after the next call
                                let mut buf = String::new();
                                let mut prev: Option<(usize, ParseResult)> = None;
                                let mut out = vec![];
                                for &i in plan {
                                    buf.clear();
                                    buf.push_str(&inputs[i]);
                                    let r = catch_unwind(AssertUnwindSafe(|| parse(&buf)));
                                    if let Some((j, p)) = prev.take() {
                                        let d = digest(&result_json(&p, &inputs[j], true));
                                        out.push(format!("[{},{},\"{:016x}\"]", t + 1, j + 1, d));
                                    }
                                    match r {
                                        Ok(r) => {
                                            let d = digest(&result_json(&r, &inputs[i], true));
                                            out.push(format!("[{},{},\"{:016x}\"]", t + 1, i + 1, d));
                                            prev = Some((i, r));
                                        }
                                        Err(p) => {
                                            let d = digest(&panic_json(p));
                                            out.push(format!("[{},{},\"{:016x}\"]", t + 1, i + 1, d));
                                        }
                                    }
                                }
                                out
                            })
                            .unwrap()
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            format!("[{}]", res.concat().join(","))
        })
        .collect()
}

/// The tables of the parser as its look-up functions see them.
#[cfg(pgcst_verif)]
fn tables() -> String {
    use postgresql_cst_parser::verif_hooks as v;
    let (n, t, x, end) = v::table_sizes();
    let row = |w: u32, f: &dyn Fn(u32) -> i16| format!("[{}]", (0..w).map(|a| f(a).to_string()).collect::<Vec<_>>().join(","));
    let act: Vec<String> = (0..n).map(|s| row(t, &|a| v::action(s, a))).collect();
    let go: Vec<String> = (0..n).map(|s| row(x, &|a| v::goto(s, a))).collect();
    let ps: Vec<String> = v::productions().iter().map(|(l, n)| format!("[{},{}]", l, n)).collect();
    format!("{{\"n\":{},\"t\":{},\"x\":{},\"end\":{},\"act\":[{}],\"go\":[{}],\"rules\":[{}]}}", n, t, x, end, act.join(","), go.join(","), ps.join(","))
}

#[cfg(not(pgcst_verif))]
fn tables() -> String {
    String::from("{\"n\":0}")
}

/// What the scanner is made of: keywords, and the automata or the regex rules of its start conditions.
#[cfg(all(pgcst_verif, pgcst_verif_scan))]
fn scanner() -> String {
    use postgresql_cst_parser::verif_hooks as v;
    let kws: Vec<String> = v::keywords().iter().map(|(k, t)| format!("[{},{}]", esc(k), esc(t))).collect();
    #[cfg(not(feature = "regex-match"))]
    let parts = {
        let num = |b: u8| if b == 255 { String::from("-1") } else { b.to_string() };
        let parts: Vec<String> = v::automata()
            .iter()
            .map(|(name, next, acc)| {
                let rows: Vec<String> =
                    next.iter().map(|r| format!("[{}]", r.iter().map(|b| num(*b)).collect::<Vec<_>>().join(","))).collect();
                let acc: Vec<String> = acc.iter().map(|b| num(*b)).collect();
                format!("{{\"name\":{},\"next\":[{}],\"acc\":[{}]}}", esc(name), rows.join(","), acc.join(","))
            })
            .collect();
        format!("\"automata\":[{}]", parts.join(","))
    };
    #[cfg(feature = "regex-match")]
    let parts = {
        let parts: Vec<String> = v::regex_rules()
            .iter()
            .map(|(s, k, p, eof)| format!("[{},{},{},{}]", esc(s), esc(k), esc(p), eof))
            .collect();
        format!("\"rules\":[{}]", parts.join(","))
    };
    format!("{{\"r\":\"ok\",\"keywords\":[{}],{}}}", kws.join(","), parts)
}

#[cfg(not(all(pgcst_verif, pgcst_verif_scan)))]
fn scanner() -> String {
    String::from("{\"r\":\"nohook\"}")
}

/// How long the parse takes, and what it returns.
fn observe_time(input: &str) -> String {
    let t = std::time::Instant::now();
    let r = guarded(|| {
        let r = parse(input);
        let us = t.elapsed().as_micros();
        let mut o = match &r {
            Ok(_) => String::from("{\"r\":\"ok\"}"),
            Err(e) => error_json(e),
        };
        o.pop();
        let _ = write!(o, ",\"us\":{}}}", us);
        o
    });
    r
}

/// Only the outcome, on a thread with the stack of a main thread (8 MB).
fn observe_outcome(input: &str) -> String {
    let input = input.to_string();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            guarded(|| match parse(&input) {
                Ok(t) => {
                    let n: u32 = t.text_range().end().into();
                    format!("{{\"r\":\"ok\",\"n\":{}}}", n)
                }
                Err(e) => error_json(&e),
            })
        })
        .unwrap()
        .join()
        .unwrap()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let mode = args[1].as_str();
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let raw: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    let arg_inputs = || -> Vec<String> {
        std::fs::read_to_string(&args[2]).unwrap().lines().map(unhex).collect()
    };
    let out: Vec<String> = match mode {
        "parse" => parallel(&raw, |l| observe_parse(&unhex(l), false)),
        "parsetext" => parallel(&raw, |l| observe_parse(&unhex(l), true)),
        "tokens" => parallel(&raw, |l| observe_tokens(&unhex(l))),
        "digest" => parallel(&raw, |l| format!("\"{:016x}\"", digest(&observe_parse(&unhex(l), true)))),
        "time" => parallel(&raw, |l| observe_time(&unhex(l))),
        "outcome" => parallel(&raw, |l| observe_outcome(&unhex(l))),
        "viable" => {
            let alts = arg_inputs();
            parallel(&raw, |l| observe_viable(&unhex(l), &alts))
        }
        "histories" => histories(&raw, &arg_inputs()),
        "tables" => vec![guarded(tables)],
        "scanner" => vec![guarded(scanner)],
        "kinds" => (0..5000u32)
            .map_while(|i| {
                catch_unwind(|| {
                    let k = <PostgreSQLSyntax as cstree::Syntax>::from_raw(cstree::RawSyntaxKind(i));
                    format!("[{},{}]", k as u32, esc(&format!("{:?}", k)))
                })
                .ok()
            })
            .collect(),
        _ => panic!("mode"),
    };
    let so = std::io::stdout();
    let mut so = std::io::BufWriter::new(so.lock());
    for o in out {
        so.write_all(o.as_bytes()).unwrap();
        so.write_all(b"\n").unwrap();
    }
}
