C = "butte-build/src/compile.rs"
M = "butte-build/src/main.rs"
IO = '''
use std::{cell::RefCell, io::{self, Read, Write}, rc::Rc};
struct Pieces(Vec<Result<Vec<u8>, io::ErrorKind>>);
impl Read for Pieces {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0.is_empty() { return Ok(0); }
        if let Err(k) = self.0[0] { self.0.remove(0); return Err(k.into()); }
        let p = self.0[0].as_mut().unwrap();
        let n = p.len().min(b.len());
        b[..n].copy_from_slice(&p[..n]);
        p.drain(..n);
        if p.is_empty() { self.0.remove(0); }
        Ok(n)
    }
}
#[derive(Clone, Default)]
struct Out(Rc<RefCell<Vec<u8>>>, usize, Rc<RefCell<Vec<io::ErrorKind>>>);
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if let Some(k) = self.2.borrow_mut().pop() { return Err(k.into()); }
        let n = if self.1 == 0 { b.len() } else { b.len().min(self.1) };
        self.0.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
#[allow(dead_code)]
fn run(ugly: bool, src: Vec<Result<Vec<u8>, io::ErrorKind>>, out: &Out) -> Result<String, String> {
    match butte_build::compile_fbs_generic(ugly, None, Box::new(Pieces(src)), Box::new(out.clone())) {
        Ok(()) => Ok(String::from_utf8(out.0.borrow().clone()).unwrap()),
        Err(e) => Err(e.to_string()),
    }
}
'''
seed("text-decoded-by-pieces", "S04",
     [(C, """    let mut schema_text = String::new();
    input.read_to_string(&mut schema_text)?;
""", """    let mut schema_text = String::new();
    let mut chunk = [0u8; 8192];
    loop {
        match input.read(&mut chunk) {
            Ok(0) => break,
            Ok(n) => schema_text.push_str(std::str::from_utf8(&chunk[..n])?),
            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
            Err(e) => return Err(e.into()),
        }
    }
""")],
     "a character of more than one byte that arrives in two pieces, as at a boundary of the buffer",
     "a valid schema is refused depending on how its text arrives",
     kind="fe", main=IO + '''
fn main() {
    let text = "// a caf\\u{e9}\\ntable T { a: int; }".as_bytes();
    let whole = run(true, vec![Ok(text.to_vec())], &Out::default()).unwrap();
    for i in 1..text.len() {
        let parts = vec![Ok(text[..i].to_vec()), Ok(text[i..].to_vec())];
        assert_eq!(run(true, parts, &Out::default()).as_ref(), Ok(&whole), "{}", i);
    }
}
''')

seed("interrupted-write-ends", "S04",
     [(C, """    output.write_all(&text_output[..])?;
""", """    let mut left = &text_output[..];
    while !left.is_empty() {
        match output.write(left) {
            Ok(n) if n > 0 => left = &left[n..],
            // nobody reads any more
            Ok(_) => break,
            Err(e) => return Err(e.into()),
        }
    }
""")],
     "an output that takes no more bytes in the middle of the code, or a write that is interrupted",
     "success is reported although part of the code was not written; an interrupted write is an error",
     kind="fe", main=IO + '''
struct Stops(Out, usize);
impl Write for Stops {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.1 == 0 { return Ok(0); }
        self.1 -= 1;
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let text = b"table T { a: int; }".to_vec();
    let whole = run(true, vec![Ok(text.clone())], &Out::default()).unwrap();
    let pieces = Out(Default::default(), 10, Default::default());
    assert_eq!(run(true, vec![Ok(text.clone())], &pieces), Ok(whole));
    let half = Out(Default::default(), 50, Default::default());
    let r = butte_build::compile_fbs_generic(true, None, Box::new(Pieces(vec![Ok(text)])), Box::new(Stops(half, 2)));
    assert!(r.is_err());
}
''')

seed("output-name-first-dot", "S04",
     [(C, """    let output_path = out_dir.join(
        path_ref
            .with_extension("rs")
            .file_name()
            .ok_or_else(|| anyhow!("path has no file_name: {:?}", path_ref))?,
    );
""", """    let file_name = path_ref
        .file_name()
        .ok_or_else(|| anyhow!("path has no file_name: {:?}", path_ref))?
        .to_string_lossy();
    let module = file_name.split('.').next().unwrap_or_default();
    let output_path = out_dir.join(format!("{}.rs", module));
""")],
     "a schema file whose name has a dot before its extension",
     "the code is put under another name, where it may replace the code of another schema",
     kind="fe", main='''
fn main() {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir_all(d.join("out")).unwrap();
    std::env::set_var("OUT_DIR", d.join("out"));
    std::fs::write(d.join("game.fbs"), "table First {}").unwrap();
    std::fs::write(d.join("game.v2.fbs"), "table Second {}").unwrap();
    butte_build::compile_fbs(d.join("game.fbs")).unwrap();
    butte_build::compile_fbs(d.join("game.v2.fbs")).unwrap();
    let read = |n: &str| std::fs::read_to_string(d.join("out").join(n)).unwrap_or_default();
    let (a, b) = (read("game.rs"), read("game.v2.rs"));
    std::fs::remove_dir_all(&d).unwrap();
    assert!(a.contains("First") && b.contains("Second"));
}
''')

seed("cli-keeps-old-tail", "S04",
     [(M, """        Box::new(std::fs::File::create(output)?)
""", """        // build scripts watch the file: do not replace it
        Box::new(
            std::fs::OpenOptions::new()
                .write(true)
                .create(true)
                .open(output)?,
        )
""")],
     "the command line tool, with an output file that is there and longer than the new code",
     "the end of the old file stays behind the new code",
     kind="cli", main='''
''')
