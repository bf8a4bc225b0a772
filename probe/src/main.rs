//! One request per line: `op arg arg ...` with hexadecimal arguments; one answer per line, hexadecimal.
//! `-` means that this build does not have the operation.
extern crate alloc;
mod ops;
use std::io::{BufRead, Write};

fn main() {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        out.write_all((ops::respond(&line) + "\n").as_bytes()).unwrap();
        out.flush().unwrap();
    }
}
