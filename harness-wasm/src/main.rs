//! What the WebAssembly entry point returns: one hex-encoded input per line, one hex-encoded
//! result per line (as a JSON string).
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let so = std::io::stdout();
    let mut so = std::io::BufWriter::new(so.lock());
    for l in text.lines() {
        let b: Vec<u8> = l
            .as_bytes()
            .chunks(2)
            .map(|p| u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap())
            .collect();
        let s = String::from_utf8(b).unwrap();
        match catch_unwind(AssertUnwindSafe(|| postgresql_cst_parser_wasm::parse_sql(&s))) {
            Ok(o) => {
                let h: String = o.bytes().map(|b| format!("{:02x}", b)).collect();
                writeln!(so, "\"{}\"", h).unwrap();
            }
            Err(_) => writeln!(so, "null").unwrap(),
        }
    }
}
