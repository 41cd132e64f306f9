B = "butte/src/builder.rs"
seed("strings-shared-by-address", "W01",
     [(B, """        for (i, &s) in xs.iter().enumerate().rev() {
            let o = self.create_string(s);
            offsets[i] = o;
        }
""", """        for (i, &s) in xs.iter().enumerate().rev() {
            // the same string again needs no second copy
            let o = match xs.get(i + 1) {
                Some(next) if next.as_ptr() == s.as_ptr() => offsets[i + 1],
                _ => self.create_string(s),
            };
            offsets[i] = o;
        }
""")],
     "a vector of strings with neighbours that are slices of different length of the same text, from the same place",
     "the vector has the longer or shorter neighbour in place of the string",
     main='''
use butte::*;
fn main() {
    let text = "abcdef";
    let mut b = FlatBufferBuilder::new();
    let xs = [&text[..2], &text[..4], "x"];
    let v = b.create_vector_of_strings(&xs);
    let t = b.start_table();
    b.push_slot_always(4, v);
    let t = b.end_table(t);
    b.finish(t, None);
    let t = Table::get_root(b.finished_data()).unwrap();
    let v = t.get::<ForwardsUOffset<Vector<ForwardsUOffset<&str>>>>(4, None).unwrap().unwrap();
    let got: Vec<_> = v.iter().map(|x| x.unwrap()).collect();
    assert_eq!(got, xs);
}
''')

seed("bool-is-one", "R02",
     [("butte/src/primitives.rs", """        Ok(read_scalar_at::<u8>(buf, loc)? != 0)
""", """        Ok(read_scalar_at::<u8>(buf, loc)? == 1)
""")],
     "a bool stored as a byte other than 0 and 1, as other writers may",
     "a true value reads as false",
     main='''
use butte::*;
fn main() {
    for b in 0..=255u8 {
        assert_eq!(bool::follow(&[b], 0), Ok(b != 0));
    }
}
''')

seed("second-write-of-slot", "W05",
     [(B, """        self.assert_nested("push_slot_always");
        let off = self.push(x);
""", """        self.assert_nested("push_slot_always");
        debug_assert!(
            self.field_locs.last().map_or(true, |fl| fl.id != slotoff),
            "tried to write a vtable field multiple times"
        );
        let off = self.push(x);
"""), (B, """                debug_assert_eq!(
                    vtfw.get_field_offset(fl.id),
                    0,
                    "tried to write a vtable field multiple times"
                );
                vtfw""", """                vtfw""")],
     "a slot of a table written twice with another slot written in between",
     "the misuse is not refused",
     main='''
use butte::*;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| {
        let mut b = FlatBufferBuilder::new();
        let t = b.start_table();
        b.push_slot_always(4, 1u8);
        b.push_slot_always(6, 2u8);
        b.push_slot_always(4, 3u8);
        let t = b.end_table(t);
        b.finish(t, None);
    });
    assert!(r.is_err());
}
''')

seed("vtable-search-window", "W03",
     [(B, """        for &revloc in self.written_vtable_revpos.iter().rev() {
""", """        // tables of one kind are mostly written together
        for &revloc in self.written_vtable_revpos.iter().rev().take(16) {
""")],
     "a table laid out like another one, with more than sixteen other layouts written in between",
     "the same vtable is written twice",
     main='''
use butte::*;
fn main() {
    let mut b = FlatBufferBuilder::new();
    for _ in 0..2 {
        for i in 0..30u16 {
            let t = b.start_table();
            b.push_slot_always(6 + 4 * i, 7u32);
            b.end_table(t);
        }
    }
    assert_eq!(b.num_written_vtables(), 30);
}
''')

seed("reset-of-unfinished", "W04",
     [(B, """        // memset only the part of the buffer that could be dirty:
        {
""", """        // memset only the part of the buffer that could be dirty:
        if self.finished {
""")],
     "a builder that is reset in the middle of writing and then writes something with padding",
     "padding has bytes of what was written before the reset",
     main='''
use butte::*;
fn main() {
    let write = |b: &mut FlatBufferBuilder| {
        let t = b.start_table();
        b.push_slot_always(4, 1u8);
        b.push_slot_always(6, 2u64);
        let t = b.end_table(t);
        b.finish(t, None);
        b.finished_data().to_vec()
    };
    let fresh = write(&mut FlatBufferBuilder::new());
    let mut b = FlatBufferBuilder::new();
    b.create_string("a long string that is not finished, as after an error");
    b.reset();
    assert_eq!(write(&mut b), fresh);
}
''')

seed("slice-length-in-32-bits", "R01",
     [("butte/src/vector.rs", """    let len = read_scalar_at::<UOffsetT>(buf, loc)? as usize;
    let data_buf = buf
        .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
        .ok_or(Error::OutOfBounds)?;
    let ptr = data_buf.as_ptr() as *const T;
    if""", """    let len = read_scalar_at::<UOffsetT>(buf, loc)?;
    let end = len * sz as UOffsetT;
    let data_buf = buf
        .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + end as usize)
        .ok_or(Error::OutOfBounds)?;
    let len = len as usize;
    let ptr = data_buf.as_ptr() as *const T;
    if""")],
     "a hostile vector of elements of more than one byte whose length in bytes does not fit in 32 bits, read as a slice",
     "a panic with overflow checks, a slice far beyond the buffer without",
     main='''
use butte::*;
fn main() {
    for n in 0..64u32 {
        let mut buf = vec![0u8; 64];
        buf[..4].copy_from_slice(&(n << 26 | 1).to_le_bytes());
        let r = <&[u64]>::follow(&buf[..], 0);
        assert!(n == 0 || r.is_err());
    }
}
''')

seed("nth-past-end-continues", "R03",
     [("butte/src/vector.rs", """        self.remaining = self.remaining.saturating_sub(n);

        // Note""", """        if n >= self.remaining {
            return None;
        }
        self.remaining -= n;

        // Note""")],
     "nth past the end of what is left, then another call",
     "the iterator still has elements after it was run past its end",
     main='''
use butte::*;
fn main() {
    let buf = [3u8, 0, 0, 0, 10, 11, 12];
    let v = Vector::<u8>::new(&buf, 0);
    let (mut a, mut b) = (v.iter(), vec![10u8, 11, 12].into_iter());
    for n in [0usize, 7, 0].iter() {
        assert_eq!(a.nth(*n).map(|x| x.unwrap()), b.nth(*n));
        assert_eq!(a.len(), b.len());
    }
}
''')

seed("prefix-identifier", "R02",
     [("butte/src/table.rs", """    let got = if size_prefixed {
        <SkipSizePrefix<SkipRootOffset<FileIdentifier>>>::follow(data, 0)?
    } else {
        <SkipRootOffset<FileIdentifier>>::follow(data, 0)?
    };

    Ok(ident.as_bytes() == got)
""", """    let got = if size_prefixed {
        <SkipSizePrefix<SkipRootOffset<FileIdentifier>>>::follow(data, 0)?
    } else {
        <SkipRootOffset<FileIdentifier>>::follow(data, 0)?
    };

    // identifiers are compared as extensions of files are
    Ok(ident.as_bytes().eq_ignore_ascii_case(got))
""")],
     "a buffer whose identifier differs from the asked one in case only",
     "a buffer of another kind is taken for one of this kind",
     main='''
use butte::*;
fn main() {
    let buf = [8u8, 0, 0, 0, b'M', b'O', b'N', b'S', 0, 0, 0, 0];
    assert_eq!(buffer_has_identifier(&buf, "MONS", false), Ok(true));
    assert_eq!(buffer_has_identifier(&buf, "mons", false), Ok(false));
}
''')

seed("wide-table-silently-cut", "W05",
     [(B, """        debug_assert!(table_object_size < 0x10000); // vTable use 16bit offsets.
""", """        debug_assert!(self.field_locs.len() < 0x8000); // vTable use 16bit offsets.
""")],
     "a table whose fields take 64 KiB or more",
     "a table too large for its 16-bit offsets is not refused, and its fields are lost",
     main='''
use butte::*;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for n in [8180u16, 8191, 8200].iter() {
        let n = *n;
        let r = std::panic::catch_unwind(|| {
            let mut b = FlatBufferBuilder::new();
            let t = b.start_table();
            for i in 0..n {
                b.push_slot_always(4 + 2 * i, u64::from(i) + 1);
            }
            let t = b.end_table(t);
            b.finish(t, None);
            b.finished_data().to_vec()
        });
        if let Ok(data) = r {
            let t = Table::get_root(&data[..]).unwrap();
            for i in 0..n {
                assert_eq!(t.get::<u64>(4 + 2 * i, None), Ok(Some(u64::from(i) + 1)));
            }
        }
    }
}
''')
