B = "butte/src/builder.rs"
seed("vtable-eq-ignores-size", "W03",
     [("butte/src/vtable.rs", """        self.as_bytes() == other.as_bytes()
""", """        // the header is written by the same code for both, the slots are what differs
        match (self.as_bytes(), other.as_bytes()) {
            (Ok(a), Ok(b)) => a.len() == b.len() && a[2 * SIZE_VOFFSET..] == b[2 * SIZE_VOFFSET..],
            _ => false,
        }
""")],
     "two tables whose fields lie at the same offsets but that have different inline sizes (a u32 and a u64 field, say)",
     "the second table shares a vtable that states the first one's size",
     main='''
use butte::*;
fn main() {
    let mut b = FlatBufferBuilder::new();
    let s = b.start_table();
    b.push_slot_always(4, 7u32);
    let t1 = b.end_table(s);
    let s = b.start_table();
    b.push_slot_always(4, 7u64);
    let t2 = b.end_table(s);
    let s = b.start_table();
    b.push_slot_always(4, t1);
    b.push_slot_always(6, t2);
    let root = b.end_table(s);
    b.finish_minimal(root);
    let data = b.finished_data();
    let root = Table::get_root(data).unwrap();
    let size = |slot: u16| {
        let at = root.loc + root.vtable().unwrap().get(slot).unwrap().unwrap() as usize;
        let loc = at + u32::from_le_bytes([data[at], data[at + 1], data[at + 2], data[at + 3]]) as usize;
        Table::new(data, loc).vtable().unwrap().object_inline_num_bytes().unwrap()
    };
    assert!(size(4) >= 8);
    assert!(size(6) >= 12, "a table with a u64 is said to have {} bytes", size(6));
}
''')

seed("reset-keeps-alignment", "W04",
     [(B, """        self.nested = false;
        self.finished = false;

        self.min_align = 0;
    }
""", """        self.nested = false;
        self.finished = false;
    }
""")],
     "a builder reused through reset after writing something with a larger alignment than the new buffer has",
     "the reused builder pads the end of the buffer differently from a fresh one",
     main='''
use butte::*;
fn small(b: &mut FlatBufferBuilder) -> Vec<u8> {
    let s = b.start_table();
    b.push_slot_always(4, 7u8);
    let t = b.end_table(s);
    b.finish_minimal(t);
    b.finished_data().to_vec()
}
fn main() {
    let fresh = small(&mut FlatBufferBuilder::new());
    let mut b = FlatBufferBuilder::new();
    let s = b.start_table();
    b.push_slot_always(4, 7u64);
    let t = b.end_table(s);
    b.finish_minimal(t);
    b.reset();
    assert_eq!(fresh, small(&mut b));
}
''')

seed("size-prefix-unaligned", "W02",
     [(B, """        let to_align = {
            // for the root offset:
            let a = SIZE_UOFFSET;
            // for the size prefix:
            let b = if size_prefixed { SIZE_UOFFSET } else { 0 };
            // for the file identifier (a string that is not zero-terminated):
            let c = if file_identifier.is_some() {
                FILE_IDENTIFIER_LENGTH
            } else {
                0
            };
            a + b + c
        };
""", """        let to_align = {
            // for the root offset and the size prefix:
            let a = if size_prefixed {
                2 * SIZE_UOFFSET
            } else {
                SIZE_UOFFSET
            };
            // for the file identifier (a string that is not zero-terminated):
            match file_identifier {
                Some(ident) if size_prefixed => a.max(ident.len()),
                Some(ident) => a + ident.len(),
                None => a,
            }
        };
""")],
     "a size-prefixed buffer with a file identifier that contains 8-byte values",
     "8-byte values of a size-prefixed buffer with identifier are only 4-byte aligned",
     main='''
use butte::*;
fn main() {
    let mut b = FlatBufferBuilder::new();
    let s = b.start_table();
    b.push_slot_always(4, 0x0102030405060708u64);
    let t = b.end_table(s);
    b.finish_size_prefixed(t, Some("ABCD"));
    let data = b.finished_data();
    let at = (0..data.len()).find(|&i| data[i..].starts_with(&[8, 7, 6, 5, 4, 3, 2, 1])).unwrap();
    assert_eq!(at % 8, 0, "a u64 lies at {}", at);
}
''')

seed("nth-back-clamps", "R03",
     [("butte/src/vector.rs", """        self.remaining = self.remaining.saturating_sub(n);
        self.next_back()
""", """        // never skip past the front
        self.remaining -= n.min(self.remaining.saturating_sub(1));
        self.next_back()
""")],
     "nth_back with an argument not smaller than the number of elements left",
     "yields the first element where the iterator is exhausted",
     main='''
use butte::*;
fn main() {
    let buf = [3u8, 0, 0, 0, 10, 11, 12];
    let v: Vector<u8> = Vector::new(&buf, 0);
    assert_eq!(v.iter().nth_back(2).unwrap().unwrap(), 10);
    assert!(v.iter().nth_back(3).is_none());
}
''')

seed("small-offset-is-absent", "R02",
     [("butte/src/table.rs", """            if offset == 0 {
                return Ok(default);
            }
""", """            // nothing can lie inside the table's own vtable offset
            if offset < SIZE_SOFFSET {
                return Ok(default);
            }
""")],
     "a (damaged) vtable with an entry between 1 and 3",
     "the slot reads as absent although the vtable has a non-zero entry for it",
     main='''
use butte::*;
fn main() {
    // root offset 10, vtable at 4: length 6, inline 5, slot 4 -> 1
    let buf = [10u8, 0, 0, 0, 6, 0, 5, 0, 1, 0, 6, 0, 0, 0, 9];
    let t = Table::get_root(&buf[..]).unwrap();
    assert_eq!(t.get::<u8>(4, None).unwrap(), Some(0));
}
''')

seed("required-accepts-elided", "W06",
     [(B, """            .expect("Could not get byte loc")
            .expect("No value at byte loc") as usize;
        assert!(o != 0, "missing required field {}", assert_msg_name);
""", """            .expect("Could not get byte loc");
        assert!(o.is_some(), "missing required field {}", assert_msg_name);
""")],
     "a required field that is missing while a field with a higher slot is present",
     "the check for a required field passes although the field is absent",
     main='''
use butte::*;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| {
        let mut b = FlatBufferBuilder::new();
        let s = b.start_table();
        b.push_slot_always(6, 7u8);
        let t = b.end_table(s);
        b.required(t, 4, "name");
    });
    std::process::exit(if r.is_err() { 0 } else { 1 });
}
''')

seed("byte-string-nested", "W05",
     [(B, """        self.assert_not_nested(
            "create_byte_string can not be called when a table or vector is under construction",
        );
        self.align(data.len() + 1, PushAlignment::new(SIZE_UOFFSET));
""", """        if !data.is_empty() {
            self.assert_not_nested(
                "create_byte_string can not be called when a table or vector is under construction",
            );
        }
        self.align(data.len() + 1, PushAlignment::new(SIZE_UOFFSET));
""")],
     "an empty byte string created while a table is under construction",
     "the misuse is not refused and the bytes end up inside the table",
     main='''
use butte::*;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| {
        let mut b = FlatBufferBuilder::new();
        b.start_table();
        b.create_byte_string(b"");
    });
    std::process::exit(if r.is_err() { 0 } else { 1 });
}
''')

seed("string-end-bound", "R01",
     [("butte/src/vector.rs", """        if end_loc >= buf.len() {
            return Err(Error::OutOfBounds);
        }
        // This""", """        if end_loc > buf.len() {
            return Err(Error::OutOfBounds);
        }
        // This""")],
     "a buffer truncated exactly before the zero byte of a string",
     "reading the string panics",
     main='''
use butte::*;
fn main() {
    let buf = [2u8, 0, 0, 0, b'h', b'i'];
    assert!(<&str as Follow>::follow(&buf, 0).is_err());
}
''')

seed("undone-vtable-stays", "W02",
     [(B, """                VTableWriter::init(&mut self.owned_buf[vt_start_pos..vt_end_pos]).clear();
                self.head += vtable_byte_len;
""", """                // what is left of it is overwritten by the next object
                self.head += vtable_byte_len;
""")],
     "a table that reuses a vtable, followed by an object that needs padding",
     "padding bytes contain the rest of an undone vtable",
     main='''
use butte::*;
fn main() {
    let mut b = FlatBufferBuilder::new();
    let mut last = None;
    for i in 0..2 {
        let s = b.start_table();
        b.push_slot_always(4, 0x11111111u32 + i);
        b.push_slot_always(6, 0x22222222u32 + i);
        b.push_slot_always(8, 0x33333333u32 + i);
        b.push_slot_always(10, 0x44444444u32 + i);
        last = Some(b.end_table(s));
    }
    let before = b.unfinished_data().len();
    let v = b.create_string("");
    let data = b.unfinished_data().to_vec();
    let s = &data[..data.len() - before];
    assert!(s.iter().all(|&x| x == 0), "{:?}", s);
    let _ = (last, v);
}
''')
