//! Running the compiler in this process.

use butte_build::codegen::RpcGenerator;
use butte_build::compile_fbs_generic;
use std::io::{self, Read, Write};
use std::sync::{Arc, Mutex};
use vpbt::run::catch;

#[derive(Clone, Default)]
pub struct Sink(pub Arc<Mutex<Vec<u8>>>);

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// What the compiler did with an input: outer error: it panicked.
pub struct Done {
    pub result: Result<(), String>,
    pub out: Vec<u8>,
}

pub fn run(
    ugly: bool,
    gen: Option<Box<dyn RpcGenerator>>,
    input: Box<dyn Read>,
) -> Result<Done, String> {
    let sink = Sink::default();
    let s = sink.clone();
    let r = catch(move || compile_fbs_generic(ugly, gen, input, Box::new(s)).map_err(|e| format!("{:#}", e)))?;
    let out = std::mem::take(&mut *sink.0.lock().unwrap());
    Ok(Done { result: r, out })
}

pub fn compile_with(text: &str, ugly: bool, gen: Option<Box<dyn RpcGenerator>>) -> Result<Result<String, String>, String> {
    let d = run(ugly, gen, Box::new(io::Cursor::new(text.as_bytes().to_vec())))?;
    match d.result {
        Ok(()) => Ok(Ok(String::from_utf8(d.out).map_err(|e| format!("the output is no UTF-8: {}", e))?)),
        Err(e) => {
            if !d.out.is_empty() {
                return Err(format!("reported {:?} but wrote {} bytes", e, d.out.len()));
            }
            Ok(Err(e))
        }
    }
}

/// Unformatted output, or the error reported.
pub fn compile(text: &str) -> Result<Result<String, String>, String> {
    compile_with(text, true, None)
}

pub fn clip(s: &str) -> String {
    let mut t: String = s.chars().take(2500).collect();
    if t.len() < s.len() {
        t.push_str("...");
    }
    t
}

/// Compile a schema that must be accepted.
pub fn must(text: &str) -> Result<String, String> {
    match compile(text) {
        Err(p) => Err(format!("the compiler panicked: {}\n{}", p, clip(text))),
        Ok(Err(e)) => Err(format!("a valid schema was refused: {}\n{}", clip(&e), clip(text))),
        Ok(Ok(s)) => Ok(s),
    }
}
