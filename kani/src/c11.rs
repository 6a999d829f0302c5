//! C11: looking up one node in an unparsed image finds what parsing the whole image
//! would put at that path.
use crate::records::*;
use crate::common::*;
use crate::rt::*;
use crate::stubs::*;
use crate::{each, node_harnesses, witness};
use std::sync::{Arc, RwLock};
use wz_reader::property::*;
use wz_reader::util::parse_property::*;
use wz_reader::*;

/// a short integer record
fn short(b: &mut B, name: &str, v: [u8; 2]) {
    b.block(name).put(&[2, v[0], v[1]]);
}
/// look up a path from the start of the buffer: the short integer found there, if any
fn find(x: &X, path: &str, name: &str) -> Option<i16> {
    let s = x.rd.create_slice_reader_without_hash();
    let r = get_node(path, &x.rd, &s, 0);
    leak(s);
    match r {
        Ok((n, node)) => {
            assert!(same(n.as_bytes(), name.as_bytes()), "wrong name");
            let g = node.read().unwrap();
            assert!(same(g.name.as_bytes(), name.as_bytes()), "wrong node");
            let v = match &g.object_type {
                WzObjectType::Value(WzValue::Short(k)) => *k,
                _ => panic!("wrong value"),
            };
            leak(g);
            leak((n, node));
            Some(v)
        }
        Err(e) => {
            assert!(matches!(&e, WzPropertyParseError::NodeNotFound), "a lookup in a well-formed image fails");
            leak(e);
            None
        }
    }
}
fn nowhere(x: &X, path: &str) {
    assert!(find(x, path, "").is_none(), "a missing node is found");
}
/// `first` adds one record to the list; the node behind it must be found
fn behind(first: impl FnOnce(&mut B)) {
    let v: [u8; 2] = any();
    let mut b = B::new(80);
    b.put(&[2]);
    first(&mut b);
    short(&mut b, "b", v);
    let x = over(&b);
    assert!(find(&x, "b", "b") == Some(i16::from_le_bytes(v)), "not found");
    witness!(v[0] == 3);
    leak((b, x));
}
/// an extended record: its name, and its content after the size
fn sized(b: &mut B, name: &str, content: impl FnOnce(&mut B)) {
    b.block(name).put(&[9]);
    let at = b.0.len();
    b.put(&[0, 0, 0, 0]);
    content(b);
    b.0[at] = (b.0.len() - at - 4) as u8;
}

fn tree() -> X {
    let mut b = B::new(60);
    b.put(&[3]);
    short(&mut b, "s", [1, 0]);
    sized(&mut b, "a", |b| {
        b.block("Property").put(&[0, 0, 1]);
        short(b, "b", [1, 0]);
    });
    short(&mut b, "b", [8, 8]);
    let x = over(&b);
    leak(b);
    x
}

node_harnesses! {
    c11_behind_fixed [8] {
        behind(|b| { b.block("a").put(&[0]); });
        behind(|b| { let v: [u8; 2] = any(); b.block("a").put(&[2]).put(&v); });
        behind(|b| { let v: [u8; 2] = any(); b.block("a").put(&[11]).put(&v); });
    }
    c11_behind_int [10] {
        behind(|b| { b.block("a").put(&[3]); int(b, true); });
        behind(|b| { b.block("a").put(&[19, 5]); });
        behind(|b| { let v: [u8; 8] = any(); b.block("a").put(&[20, 0x80]).put(&v); });
    }
    c11_behind_float [10] {
        behind(|b| { b.block("a").put(&[4]); int(b, true); });
        behind(|b| { b.block("a").put(&[4, 2]); });
        behind(|b| { let v: [u8; 8] = any(); b.block("a").put(&[5]).put(&v); });
    }
    c11_behind_text [10] {
        behind(|b| { let v: [u8; 2] = any(); b.block("a").put(&[8, 0, 0xfe]).put(&v); });
        behind(|b| { let v: [u8; 4] = any(); b.block("a").put(&[8, 0x73, 2]).put(&v); });
        behind(|b| { let v: [u8; 4] = any(); b.block("a").put(&[8, 1]).put(&v); });
        behind(|b| { let v: [u8; 4] = any(); b.block("a").put(&[8, 0x1b]).put(&v); });
    }
    c11_behind_sized [20] {
        behind(|b| { let v: [u8; 2] = any(); b.block("a").put(&[9, 4, 0, 0, 0]).put(&v).put(&v); });
        behind(|b| sized(b, "a", |b| { b.block("Property").put(&[0, 0, 1]); short(b, "b", [5, 5]); }));
    }
    c11_nested [20] {
        // "a/b" and "a/c/d", past records before and after
        let v: [u8; 4] = any();
        let mut b = B::new(120);
        b.put(&[3]);
        short(&mut b, "b", [9, 9]);
        sized(&mut b, "a", |b| {
            b.block("Property").put(&[0, 0, 2]);
            sized(b, "c", |b| {
                b.block("Property").put(&[0, 0, 1]);
                short(b, "d", [v[2], v[3]]);
            });
            short(b, "b", [v[0], v[1]]);
        });
        short(&mut b, "c", [8, 8]);
        let x = over(&b);
        assert!(find(&x, "a/b", "b") == Some(i16::from_le_bytes([v[0], v[1]])));
        assert!(find(&x, "a/c/d", "d") == Some(i16::from_le_bytes([v[2], v[3]])));
        witness!(v[0] == 3);
        leak((b, x));
    }
    c11_missing [20] {
        let x = tree();
        nowhere(&x, "z/b");
        nowhere(&x, "a/z");
        witness!();
        leak(x);
    }
    c11_missing_value [20] {
        let x = tree();
        nowhere(&x, "s/b");
        nowhere(&x, "a/b/b");
        witness!();
        leak(x);
    }
    //@ tier=native
    c11_missing_odd [20] {
        let x = tree();
        each!(p in ["b/", "a/b/", "a/", "//", "a//b", "/", "s/"] {
            nowhere(&x, p);
        });
        let _: u8 = any();
        leak(x);
    }
    c11_missing_empty [20] {
        let mut b = B::new(20);
        b.put(&[1]);
        short(&mut b, "b", [8, 8]);
        let x = over(&b);
        nowhere(&x, "");
        nowhere(&x, "/b");
        nowhere(&x, "z");
        witness!();
        leak((x, b));
    }
    c11_missing_leaf [20] {
        // an extended record without children
        let mut b = B::new(60);
        b.put(&[2]);
        sized(&mut b, "a", |b| {
            b.block("Shape2D#Vector2D").put(&[1, 2]);
        });
        short(&mut b, "b", [8, 8]);
        let x = over(&b);
        nowhere(&x, "a/b");
        witness!();
        leak((x, b));
    }
    c11_canvas [20] {
        let v: [u8; 2] = any();
        let mut b = B::new(80);
        b.put(&[1]);
        sized(&mut b, "a", |b| {
            b.block("Canvas").put(&[0, 1, 0, 0, 1]);
            short(b, "b", v);
            b.put(&[1, 1, 2, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0x78]);
        });
        let x = over(&b);
        assert!(find(&x, "a/b", "b") == Some(i16::from_le_bytes(v)));
        nowhere(&x, "a/c");
        leak((b, x));
        let mut b = B::new(80);
        b.put(&[1]);
        sized(&mut b, "a", |b| {
            b.block("Canvas").put(&[0, 0, 1, 1, 2, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0x78]);
        });
        let x = over(&b);
        nowhere(&x, "a/b");
        witness!(v[0] == 3);
        leak((b, x));
    }
    c11_raw [20] {
        let v: [u8; 2] = any();
        let mut b = B::new(80);
        b.put(&[1]);
        sized(&mut b, "a", |b| {
            b.block("RawData").put(&[1, 1, 0, 0, 1]);
            short(b, "b", v);
            b.put(&[1, 7]);
        });
        let x = over(&b);
        assert!(find(&x, "a/b", "b") == Some(i16::from_le_bytes(v)));
        leak((b, x));
        let mut b = B::new(80);
        b.put(&[1]);
        sized(&mut b, "a", |b| {
            b.block("RawData").put(&[0, 5, 1, 1, 2, 0, 0]);
        });
        let x = over(&b);
        nowhere(&x, "a/b");
        witness!(v[0] == 3);
        leak((b, x));
    }
    c11_convex [20] {
        let mut b = B::new(80);
        b.put(&[1]);
        let mut v = 0;
        sized(&mut b, "a", |b| {
            b.block("Shape2D#Convex2D").put(&[2]).block("Shape2D#Vector2D").put(&[1, 2]).block("Shape2D#Vector2D");
            v = int(b, true);
            b.put(&[3]);
        });
        let x = over(&b);
        let s = x.rd.create_slice_reader_without_hash();
        let r = get_node("a/1", &x.rd, &s, 0);
        match &r {
            Err(_) => assert!(false, "an element of a convex is not found"),
            Ok((name, n)) => {
                assert!(same(name.as_bytes(), b"1"));
                value!(n, WzObjectType::Value(WzValue::Vector(Vector2D(p, 3))) if *p == v);
            }
        }
        witness!(v == 3);
        leak((r, s));
        leak((b, x));
    }
    c11_image [20] {
        // through the image: a header, then the list
        let v: [u8; 2] = any();
        let h: [u8; 2] = any();
        let start: u8 = any();
        let mut b = B::new(40);
        b.put(&[7, start]).text("Property").put(&h).put(&[1]);
        short(&mut b, "b", v);
        let rd = plain_reader(&b.0);
        let img = WzImage::new(&"i".into(), 1, b.0.len() - 1, &rd);
        let r = img.at_path("b");
        if start != 0x73 {
            assert!(matches!(&r, Err(wz_image::Error::UnknownImageHeader(k, _)) if *k == start));
        } else {
            match &r {
                Err(_) => assert!(false, "a node is not found in an image"),
                Ok(n) => value!(n, WzObjectType::Value(WzValue::Short(k)) if *k == i16::from_le_bytes(v)),
            }
        }
        witness!(start == 0x73 && v[0] == 3);
        leak((r, img));
        leak((b, rd));
    }
}
