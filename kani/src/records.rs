//! Building stored property records, and looking at the nodes made from them.
use crate::common::*;
use crate::rt::*;
use crate::stubs::*;
use std::sync::Arc;
use wz_reader::property::*;
use wz_reader::*;

/// A buffer under construction.
pub struct B(pub Vec<u8>);
impl B {
    pub fn new(cap: usize) -> B {
        B(Vec::with_capacity(cap))
    }
    pub fn put(&mut self, b: &[u8]) -> &mut B {
        let mut i = 0;
        while i < b.len() {
            self.0.push(b[i]);
            i += 1;
        }
        self
    }
    /// an inline text (no keystream)
    pub fn text(&mut self, s: &str) -> &mut B {
        let s = s.as_bytes();
        self.0.push((s.len() as u8).wrapping_neg());
        let mut i = 0;
        while i < s.len() {
            self.0.push(s[i] ^ 0xAAu8.wrapping_add(i as u8));
            i += 1;
        }
        self
    }
    /// an inline string block
    pub fn block(&mut self, s: &str) -> &mut B {
        self.0.push(0x73);
        self.text(s)
    }
}
/// a compressed integer: one byte, or 0x80 and the full width
pub fn int(b: &mut B, long: bool) -> i32 {
    if long {
        let v: [u8; 4] = any();
        b.put(&[0x80]).put(&v);
        i32::from_le_bytes(v)
    } else {
        let v: i8 = any();
        assume(v != -128);
        b.put(&[v as u8]);
        v as i32
    }
}
pub struct X {
    pub rd: Arc<WzReader>,
    pub parent: WzNodeArc,
}
pub fn over(b: &B) -> X {
    X { rd: plain_reader(&b.0), parent: WzNode::from_str("p", 1, None).into_lock() }
}
/// the node has this name and parent
pub fn same_place(node: &WzNodeArc, parent: &WzNodeArc, name: &str) {
    let g = node.read().unwrap();
    assert!(same(g.name.as_bytes(), name.as_bytes()), "wrong name");
    assert!(std::ptr::eq(g.parent.as_ptr(), Arc::as_ptr(parent)), "wrong parent");
    leak(g);
}
macro_rules! value {
    ($node:expr, $p:pat $(if $g:expr)?) => {{
        let g = $node.read().unwrap();
        assert!(matches!(&g.object_type, $p $(if $g)?), "wrong value");
        assert!(g.children.is_empty());
        leak(g);
    }};
}
pub(crate) use value;
/// the size field of an extended record, once its content is complete
pub fn size(b: &mut B) {
    b.0[0] = (b.0.len() - 4) as u8;
}
pub fn text_at(x: &X, s: &WzString, at: usize, len: usize, wide: bool) {
    assert!(s.string_type == if wide { WzStringType::Unicode } else { WzStringType::Ascii });
    #[cfg(kani)]
    {
        let (r, o, l) = s.parts();
        assert!(Arc::ptr_eq(r, &x.rd) && o == at && l as usize == len, "wrong text");
    }
    #[cfg(not(kani))]
    {
        let b = &x.rd.map[at..at + len];
        let want = if wide {
            let u: Vec<u16> = (0..len / 2).map(|i| u16::from_le_bytes([b[i * 2], b[i * 2 + 1]]) ^ (0xAAAA + i as u16)).collect();
            String::from_utf16_lossy(&u)
        } else {
            let u: Vec<u8> = (0..len).map(|i| b[i] ^ (0xAA + i as u8)).collect();
            String::from_utf8_lossy(&u).to_string()
        };
        assert!(s.get_string().unwrap() == want, "wrong text");
    }
}

