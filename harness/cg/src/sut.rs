//! Calls of the schema compiler.
use std::io::{self, Read, Write};
use std::sync::{Arc, Mutex};

#[derive(Clone, Default)]
pub struct Sink(pub Arc<Mutex<Vec<u8>>>);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub struct Src(pub io::Cursor<Vec<u8>>);
impl Src {
    pub fn new(b: &[u8]) -> Box<dyn Read> {
        Box::new(Src(io::Cursor::new(b.to_vec())))
    }
}
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0.read(b)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Code(String),
    Rejected(String),
    Panic(String),
}

impl Out {
    pub fn code(&self) -> Option<&str> {
        match self {
            Out::Code(s) => Some(s),
            _ => None,
        }
    }
}

/// Compiles; the second part is what was written to the output.
pub fn compile_with(text: &[u8], ugly: bool, gen: Option<Box<dyn butte_build::codegen::RpcGenerator>>) -> (Out, Vec<u8>) {
    let sink = Sink::default();
    let s2 = sink.clone();
    let src = Src::new(text);
    let res = model::run::guard(move || butte_build::compile_fbs_generic(ugly, gen, src, Box::new(s2)).map_err(|e| format!("{:#}", e)));
    let written = match sink.0.lock() {
        Ok(g) => g.clone(),
        Err(p) => p.into_inner().clone(),
    };
    let out = match res {
        Ok(Ok(())) => match String::from_utf8(written.clone()) {
            Ok(s) => Out::Code(s),
            Err(_) => Out::Panic("output is not UTF-8".into()),
        },
        Ok(Err(e)) => Out::Rejected(e),
        Err(p) => Out::Panic(p),
    };
    (out, written)
}

pub fn compile(text: &str) -> Out {
    compile_with(text.as_bytes(), true, None).0
}
