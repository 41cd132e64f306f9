seed("slot-index-in-a-byte", "G01",
     [(G, """            let offset_value = butte::field_index_to_field_offset(index as VOffsetT);
""", """            let offset_value = butte::field_index_to_field_offset(VOffsetT::from(index as u8));
""")],
     "a table of more than 256 fields",
     "the fields from the 257th on have the slots of the first ones",
     kind="gen", files={"schema.fbs": "table T { " + " ".join("f%d: int;" % i for i in range(260)) + " }\n"}, main="""
mod schema;
use schema::*;
fn main() {
    assert_eq!(T::<&[u8]>::VT_F0, 4);
    assert_eq!(T::<&[u8]>::VT_F255, 514);
    assert_eq!(T::<&[u8]>::VT_F256, 516);
}
""")

seed("formatter-input-unchecked", "S04",
     [(C, """            .write_all(code.as_bytes())?;
        let formatted""", """            .write_all(code.as_bytes())
            .unwrap_or_else(|e| eprintln!("rustfmt: {}", e));
        let formatted""")],
     "a formatter that stops reading before it has all of a long code, and reports success",
     "shortened code and success instead of an error",
     kind="fe", main='''
use std::os::unix::fs::PermissionsExt;
fn main() {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let tool = d.join("rustfmt");
    std::fs::write(&tool, "#!/bin/sh\\nexec 0<&-\\necho 'pub struct Half;'\\nexit 0\\n").unwrap();
    std::fs::set_permissions(&tool, std::fs::Permissions::from_mode(0o755)).unwrap();
    std::env::set_var("PATH", &d);
    let text: String = (0..300).map(|i| format!("table T{} {{ a: int; b: string; }}\\n", i)).collect();
    let r = butte_build::compile_fbs_generic(false, None, Box::new(std::io::Cursor::new(text)), Box::new(std::io::sink()));
    std::fs::remove_dir_all(&d).unwrap();
    assert!(r.is_err());
}
''')

seed("growth-clears-part", "W04",
     [("butte/src/builder.rs", """                write_bytes(ptr, 0, middle);
""", """                // what lies further up is overwritten before long
                write_bytes(ptr, 0, middle.min(32 * 1024));
""")],
     "a builder that grows beyond 64 kilobytes and then writes something with padding",
     "padding has bytes of what lay there before the builder grew",
     main='''
use butte::*;
fn build(cap: usize) -> Vec<u8> {
    let mut b = FlatBufferBuilder::new_with_capacity(cap);
    let mut all = Vec::new();
    for i in 0..40_000u64 {
        let t = b.start_table();
        b.push_slot_always(4, 255u8);
        b.push_slot_always(6, u64::max_value() - i % 7);
        all.push(b.end_table(t));
    }
    b.finish_minimal(all[0]);
    b.finished_data().to_vec()
}
fn main() {
    let fresh = build(4 << 20);
    for cap in &[0, 1, 1000, 5001, 65_536] {
        assert!(build(*cap) == fresh, "capacity {}", cap);
    }
}
''')
