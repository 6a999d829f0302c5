//! C10: reading property records: every record becomes a node holding the value it
//! encodes, and reading goes on at the byte after the record.
use crate::common::*;
use crate::records::*;
use crate::rt::*;
use crate::stubs::*;
use crate::{each, node_harnesses, witness};
use std::sync::{Arc, RwLock};
use wz_reader::property::*;
use wz_reader::util::parse_property::*;
use wz_reader::*;

/// parse the record of kind `t` at the start of the buffer, expect it to end at `end`
pub fn record(x: &X, t: u8, end: usize) -> WzNodeArc {
    let s = x.rd.create_slice_reader_without_hash();
    let r = parse_property_node("a".into(), t, Some(&x.parent), &x.rd, &s, 0);
    assert!(s.pos.get() == end, "the next record is looked for at a wrong place");
    leak(s);
    match r {
        Err(e) => {
            leak(e);
            panic!("a well-formed record is refused");
        }
        Ok((name, node, uols)) => {
            assert!(name.as_str() == "a", "wrong name");
            assert!(uols.is_none(), "not a link");
            leak((name, uols));
            same_place(&node, &x.parent, "a");
            node
        }
    }
}

/// the node's value is the text stored at these bytes (`wide`: 16-bit units)
fn text_is(x: &X, n: &WzNodeArc, link: bool, at: usize, len: usize, wide: bool) {
    let g = n.read().unwrap();
    let s = match &g.object_type {
        WzObjectType::Value(WzValue::String(s)) if !link => s,
        WzObjectType::Value(WzValue::UOL(s)) if link => s,
        _ => panic!("wrong kind of value"),
    };
    assert!(g.children.is_empty());
    text_at(x, s, at, len, wide);
    leak(g);
}
fn vector(long: bool) {
    let mut b = B::new(40);
    b.put(&[0, 0, 0, 0]).block("Shape2D#Vector2D");
    let v = int(&mut b, long);
    let w = int(&mut b, !long);
    size(&mut b);
    b.put(&[7]);
    let x = over(&b);
    let n = record(&x, 9, b.0.len() - 1);
    value!(n, WzObjectType::Value(WzValue::Vector(Vector2D(p, q))) if *p == v && *q == w);
    witness!(v < 0 && w > 9);
    leak((b, x, n));
}
/// parse the record of kind `t`, which must be refused
fn refused(x: &X, t: u8) -> WzPropertyParseError {
    let s = x.rd.create_slice_reader_without_hash();
    let r = parse_property_node("a".into(), t, Some(&x.parent), &x.rd, &s, 0);
    leak(s);
    match r {
        Ok(n) => {
            leak(n);
            panic!("a broken record is accepted");
        }
        Err(e) => e,
    }
}
/// the children of a node: exactly these names, with these short values, in the tree
fn shorts(n: &WzNodeArc, want: &[(&str, i16)]) {
    let g = n.read().unwrap();
    assert!(g.children.len() == want.len(), "wrong number of children");
    let mut i = 0;
    while i < want.len() {
        match g.children.get(want[i].0) {
            None => panic!("a child is missing"),
            Some(c) => {
                same_place(c, n, want[i].0);
                value!(c, WzObjectType::Value(WzValue::Short(k)) if *k == want[i].1);
            }
        }
        i += 1;
    }
    leak(g);
}

node_harnesses! {
    c10_null [6] {
        let b = B(vec![9, 9]);
        let x = over(&b);
        let n = record(&x, 0, 0);
        value!(n, WzObjectType::Value(WzValue::Null));
        witness!();
        leak((b, x, n));
    }
    c10_short [6] {
        each!(t in [2, 11] {
            let v: [u8; 2] = any();
            let mut b = B::new(3);
            b.put(&v).put(&[7]);
            let x = over(&b);
            let n = record(&x, t, 2);
            value!(n, WzObjectType::Value(WzValue::Short(k)) if *k == i16::from_le_bytes(v));
            witness!(v[1] == 0x80);
            leak((b, x, n));
        });
    }
    c10_int [6] {
        each!(k in [(3, false), (19, true)] {
            let (t, long) = k;
            let mut b = B::new(6);
            let v = int(&mut b, long);
            let end = b.0.len();
            b.put(&[7]);
            let x = over(&b);
            let n = record(&x, t, end);
            value!(n, WzObjectType::Value(WzValue::Int(k)) if *k == v);
            witness!(v < 0);
            leak((b, x, n));
        });
    }
    c10_long [10] {
        let v: [u8; 8] = any();
        let mut b = B::new(10);
        b.put(&[0x80]).put(&v).put(&[7]);
        let x = over(&b);
        let n = record(&x, 20, 9);
        value!(n, WzObjectType::Value(WzValue::Long(k)) if *k == i64::from_le_bytes(v));
        witness!(v[7] == 0x80);
        leak((b, x, n));
    }
    c10_long_short [10] {
        let v: i8 = any();
        assume(v != -128);
        let x = over(&B(vec![v as u8, 7]));
        let n = record(&x, 20, 1);
        value!(n, WzObjectType::Value(WzValue::Long(k)) if *k == v as i64);
        witness!(v < 0);
        leak((x, n));
    }
    c10_float [10] {
        let v: [u8; 4] = any();
        let mut b = B::new(6);
        b.put(&[0x80]).put(&v).put(&[7]);
        let x = over(&b);
        let n = record(&x, 4, 5);
        value!(n, WzObjectType::Value(WzValue::Float(k)) if k.to_bits() == u32::from_le_bytes(v));
        leak((b, x, n));
        let v: u8 = any();
        assume(v != 0x80);
        let x = over(&B(vec![v, 7]));
        let n = record(&x, 4, 1);
        value!(n, WzObjectType::Value(WzValue::Float(k)) if *k == v as f32);
        witness!(v == 3);
        leak((x, n));
    }
    c10_double [10] {
        let v: [u8; 8] = any();
        let mut b = B::new(9);
        b.put(&v).put(&[7]);
        let x = over(&b);
        let n = record(&x, 5, 8);
        value!(n, WzObjectType::Value(WzValue::Double(k)) if k.to_bits() == u64::from_le_bytes(v));
        witness!(v[7] == 0x80);
        leak((b, x, n));
    }
    c10_text [6] {
        // an inline text, plain or wide, and one stored elsewhere
        let c: [u8; 4] = any();
        let mut b = B::new(16);
        b.put(&[0, 0xfe, c[0], c[1], 7]);
        let x = over(&b);
        let n = record(&x, 8, 4);
        text_is(&x, &n, false, 2, 2, false);
        leak((b, x, n));
        let mut b = B::new(16);
        b.put(&[0x73, 1, c[0], c[1], 7]);
        let x = over(&b);
        let n = record(&x, 8, 4);
        text_is(&x, &n, false, 2, 2, true);
        leak((b, x, n));
        witness!(c[0] != c[1]);
    }
    c10_text_far [12] {
        let c: [u8; 4] = any();
        let mut b = B::new(16);
        b.put(&[1, 6, 0, 0, 0, 7, 0xff, c[2]]);
        let x = over(&b);
        let n = record(&x, 8, 5);
        text_is(&x, &n, false, 7, 1, false);
        leak((b, x, n));
        let mut b = B::new(16);
        b.put(&[0x1b, 5, 0, 0, 0, 2, c[0], c[1], c[2], c[3]]);
        let x = over(&b);
        let n = record(&x, 8, 5);
        text_is(&x, &n, false, 6, 4, true);
        leak((b, x, n));
        witness!(c[0] != c[1]);
    }
    c10_vector [20] { vector(true) }
    c10_raw [20] {
        // the bytes of a raw block, old and new layout
        each!(v in [0u8, 1] {
            let d: [u8; 2] = any();
            let mut b = B::new(40);
            b.put(&[0, 0, 0, 0]).block("RawData").put(&[v]);
            if v == 1 {
                b.put(&[0]);
            }
            b.put(&[2]).put(&d);
            size(&mut b);
            b.put(&[7, 8, 9]);
            let x = over(&b);
            let n = record(&x, 9, b.0.len() - 3);
            let g = n.read().unwrap();
            assert!(matches!(&g.object_type, WzObjectType::Value(WzValue::RawData(r)) if same(r.get_buffer(), &d)), "wrong bytes");
            leak(g);
            witness!(d[0] == 9);
            leak((b, x, n));
        });
    }
    c10_video [20] {
        let d: [u8; 5] = any();
        let mut b = B::new(40);
        b.put(&[0, 0, 0, 0]).block("Canvas#Video").put(&d[..3]).put(&[2]).put(&d[3..]);
        size(&mut b);
        b.put(&[7, 8, 9]);
        let x = over(&b);
        let n = record(&x, 9, b.0.len() - 3);
        let g = n.read().unwrap();
        assert!(matches!(&g.object_type, WzObjectType::Value(WzValue::Video(r)) if same(r.get_buffer(), &d[3..])), "wrong bytes");
        leak(g);
        witness!(d[0] == 9);
        leak((b, x, n));
    }
    c10_sound [20] {
        // an mp3: whatever lies between the sizes and the data is its header
        let d: [u8; 3] = any();
        let mut b = B::new(60);
        b.put(&[0, 0, 0, 0]).block("Sound_DX8").put(&[0, 2]);
        let ms = int(&mut b, true);
        b.put(&d);
        size(&mut b);
        b.put(&[7, 8, 9]);
        let x = over(&b);
        let n = record(&x, 9, b.0.len() - 3);
        let g = n.read().unwrap();
        if let WzObjectType::Property(WzSubProperty::Sound(s)) = &g.object_type {
            assert!(s.duration == ms as u32 && s.sound_type == WzSoundType::Mp3, "wrong kind of sound");
            let got = s.get_buffer();
            assert!(same(&got, &d[1..]), "wrong sound data");
            leak(got);
        } else {
            assert!(false, "not a sound");
        }
        leak(g);
        witness!(d[0] == 9);
        leak((b, x, n));
    }
    c10_uol [20] {
        let c: u8 = any();
        let mut b = B::new(40);
        b.put(&[0, 0, 0, 0]).block("UOL").put(&[0, 0, 0xff, c]);
        size(&mut b);
        let end = b.0.len();
        b.put(&[7, 8, 9]);
        let x = over(&b);
        let s = x.rd.create_slice_reader_without_hash();
        let r = parse_property_node("a".into(), 9, Some(&x.parent), &x.rd, &s, 0);
        assert!(s.pos.get() == end);
        match &r {
            Err(_) => assert!(false, "a link is refused"),
            Ok((name, n, uols)) => {
                assert!(same(name.as_bytes(), b"a"));
                same_place(n, &x.parent, "a");
                text_is(&x, n, true, end - 1, 1, false);
                assert!(matches!(uols, Some(v) if v.len() == 1 && Arc::ptr_eq(&v[0], n)), "the link is not reported");
            }
        }
        witness!(c == 3);
        leak((r, s));
        leak((b, x));
    }
    c10_property [20] {
        // a sub-property; content beyond its children is skipped
        let v: [u8; 4] = any();
        let mut b = B::new(60);
        b.put(&[0, 0, 0, 0]).block("Property").put(&[0, 0, 2]);
        b.block("b").put(&[2, v[0], v[1]]).block("c").put(&[11, v[2], v[3], 5, 5]);
        size(&mut b);
        let end = b.0.len();
        b.put(&[7, 8, 9]);
        let x = over(&b);
        let s = x.rd.create_slice_reader_without_hash();
        let r = parse_property_node("a".into(), 9, Some(&x.parent), &x.rd, &s, 0);
        assert!(s.pos.get() == end, "the next record is looked for at a wrong place");
        match &r {
            Err(_) => assert!(false, "a property is refused"),
            Ok((name, n, uols)) => {
                assert!(same(name.as_bytes(), b"a"));
                same_place(n, &x.parent, "a");
                assert!(matches!(&n.read().unwrap().object_type, WzObjectType::Property(WzSubProperty::Property)));
                assert!(matches!(uols, None) || matches!(uols, Some(v) if v.is_empty()), "not a link");
                shorts(n, &[("b", i16::from_le_bytes([v[0], v[1]])), ("c", i16::from_le_bytes([v[2], v[3]]))]);
            }
        }
        witness!(v[0] == 3);
        leak((r, s));
        leak((b, x));
    }
    c10_unknown [20] {
        // an unknown extended kind becomes a null, and its content is skipped
        let mut b = B::new(60);
        b.put(&[0, 0, 0, 0]).block("Canvas#").put(&[1, 2, 3]);
        size(&mut b);
        b.put(&[7, 8, 9]);
        let x = over(&b);
        let s = x.rd.create_slice_reader_without_hash();
        let r = parse_property_node("a".into(), 9, Some(&x.parent), &x.rd, &s, 0);
        assert!(s.pos.get() == b.0.len() - 3, "the next record is looked for at a wrong place");
        assert!(r.is_ok(), "an unknown extended kind is refused");
        #[cfg(not(kani))]
        if let Ok((name, n, uols)) = &r {
            assert!(&**name == "a" && uols.is_none());
            same_place(n, &x.parent, "a");
            value!(n, WzObjectType::Value(WzValue::Null));
        }
        witness!();
        leak((r, s));
        leak((b, x));
    }
    c10_refused [20] {
        // every other kind of record is an error that names the record
        let b = B(vec![0; 20]);
        each!(t in [1, 7, 10, 21] {
            let x = over(&b);
            let e = refused(&x, t);
            assert!(matches!(&e, WzPropertyParseError::UnknownPropertyType(k, n, 0) if *k == t && same(n.as_bytes(), b"a")));
            leak((x, e));
        });
        witness!();
        leak(b);
    }
    c10_list [20] {
        // the records of a list, in order
        let v: [u8; 4] = any();
        let mut b = B::new(40);
        b.put(&[3]).block("b").put(&[2, v[0], v[1]]).block("a").put(&[0]).block("c").put(&[11, v[2], v[3], 9]);
        let x = over(&b);
        let s = x.rd.create_slice_reader_without_hash();
        let r = parse_property_list(Some(&x.parent), &x.rd, &s, 0);
        assert!(s.pos.get() == b.0.len() - 1);
        match &r {
            Err(_) => assert!(false, "a list is refused"),
            Ok((l, uols)) => {
                assert!(uols.is_empty() && l.len() == 3);
                each!(k in [(0, "b"), (1, "a"), (2, "c")] {
                    assert!(same(l[k.0].0.as_bytes(), k.1.as_bytes()), "wrong order");
                    same_place(&l[k.0].1, &x.parent, k.1);
                });
                value!(l[0].1, WzObjectType::Value(WzValue::Short(k)) if *k == i16::from_le_bytes([v[0], v[1]]));
                value!(l[1].1, WzObjectType::Value(WzValue::Null));
                value!(l[2].1, WzObjectType::Value(WzValue::Short(k)) if *k == i16::from_le_bytes([v[2], v[3]]));
            }
        }
        witness!(v[0] == 3);
        leak((r, s));
        leak((b, x));
    }
    c10_canvas [20] {
        // a picture: children, size, format, and where its data is
        let v: [u8; 2] = any();
        let mut b = B::new(80);
        b.put(&[0, 0, 0, 0]).block("Canvas").put(&[0, 1, 0, 0, 1]).block("b").put(&[2, v[0], v[1]]);
        let w = int(&mut b, true);
        let h = int(&mut b, true);
        let _f = int(&mut b, true);
        let scale: u8 = any();
        b.put(&[scale]);
        let pages = int(&mut b, true);
        b.put(&[0]);
        let c: [u8; 4] = any();
        b.put(&[c[0], c[1], 4, 0, 0, 0, c[2]]);
        let at = b.0.len();
        b.put(&[0x78, c[3], 6]);
        size(&mut b);
        let end = b.0.len();
        b.put(&[7, 8, 9]);
        let x = over(&b);
        let s = x.rd.create_slice_reader_without_hash();
        let r = parse_property_node("a".into(), 9, Some(&x.parent), &x.rd, &s, 0);
        assert!(s.pos.get() == end, "the next record is looked for at a wrong place");
        match &r {
            Err(_) => assert!(false, "a picture is refused"),
            Ok((name, n, uols)) => {
                assert!(same(name.as_bytes(), b"a"));
                same_place(n, &x.parent, "a");
                shorts(n, &[("b", i16::from_le_bytes(v))]);
                let g = n.read().unwrap();
                if let WzObjectType::Property(WzSubProperty::PNG(p)) = &g.object_type {
                    assert!(p.width == w as u32 && p.height == h as u32, "wrong size");
                    assert!(p.pages == pages && p.header == 0x78 | (c[3] as i32) << 8);
                    #[cfg(kani)]
                    {
                        let (rd, o, l, f1, f2) = p.parts();
                        assert!(Arc::ptr_eq(rd, &x.rd) && o == at && l == 3, "wrong data");
                        assert!(f1 == _f as u32 && f2 as i32 == scale as i8 as i32, "wrong format");
                    }
                } else {
                    assert!(false, "not a picture");
                }
                leak(g);
            }
        }
        witness!(v[0] == 3);
        leak((r, s));
        leak((b, x));
    }
    c10_convex [20] {
        // a convex: numbered elements without names or sizes
        let mut b = B::new(80);
        b.put(&[0, 0, 0, 0]).block("Shape2D#Convex2D").put(&[2]).block("Shape2D#Vector2D");
        let v = int(&mut b, true);
        b.put(&[1]).block("Shape2D#Vector2D").put(&[2]);
        let w = int(&mut b, true);
        size(&mut b);
        let end = b.0.len();
        b.put(&[7, 8, 9]);
        let x = over(&b);
        let s = x.rd.create_slice_reader_without_hash();
        let r = parse_property_node("a".into(), 9, Some(&x.parent), &x.rd, &s, 0);
        assert!(s.pos.get() == end, "the next record is looked for at a wrong place");
        match &r {
            Err(_) => assert!(false, "a convex is refused"),
            Ok((name, n, uols)) => {
                same_place(n, &x.parent, "a");
                let g = n.read().unwrap();
                assert!(matches!(&g.object_type, WzObjectType::Property(WzSubProperty::Convex)) && g.children.len() == 2);
                each!(k in [("0", v, 1), ("1", 2, w)] {
                    match g.children.get(k.0) {
                        None => panic!("an element is missing"),
                        Some(c) => {
                            same_place(c, n, k.0);
                            value!(c, WzObjectType::Value(WzValue::Vector(Vector2D(p, q))) if *p == k.1 && *q == k.2);
                        }
                    }
                });
                leak(g);
            }
        }
        witness!(v == 3);
        leak((r, s));
        leak((b, x));
    }
}
