//! The packed parent link of a tree node: its source file is compiled into this program, as it is private to the crate.
#[path = "/repo/src/internal/rb_tree/node.rs"]
#[allow(dead_code, clippy::all)]
mod node;

use crate::kit::*;
use crate::Case;
use node::{Color, Node, ParentColor};

type N = Node<u64, u64>;

fn color(r: &mut Rng) -> Color {
    if r.chance(1, 2) { Color::Black } else { Color::Red }
}

fn same(a: &Color, b: &Color) -> bool {
    matches!((a, b), (Color::Red, Color::Red) | (Color::Black, Color::Black))
}

fn copy(c: &Color) -> Color {
    match c { Color::Red => Color::Red, Color::Black => Color::Black }
}

fn link_case(r: &mut Rng) -> R {
    let at = |r: &mut Rng| -> *mut N { if r.chance(1, 8) { std::ptr::null_mut() } else { ((1 + r.us(1 << 20)) << (3 + r.us(40))) as *mut N } };
    let (mut c, mut p) = (color(r), at(r));
    let mut w: ParentColor<u64, u64> = ParentColor::_new(copy(&c), p);
    for _ in 0..r.us(12) {
        ck!(same(&w.color(), &c) && w.ptr() == p, "color {:?} and parent {:?} read back as {:?} and {:?}", c, p, w.color(), w.ptr());
        if r.chance(1, 2) {
            c = color(r);
            op!("set color {c:?}");
            w._set_color(copy(&c));
        } else {
            // a parent is only ever set over a null one or after a reset
            p = at(r);
            op!("set parent {p:?}");
            w = ParentColor::_new(copy(&c), std::ptr::null_mut());
            w._set_ptr(p);
        }
    }
    ck!(same(&w.color(), &c) && w.ptr() == p, "color {:?} and parent {:?} read back as {:?} and {:?}", c, p, w.color(), w.ptr());
    Ok(())
}

fn child_case(r: &mut Rng) -> R {
    let mut ns: Vec<N> = (0..6).map(|_| N::default()).collect();
    let b = ns.as_mut_ptr();
    let at = |i: usize| unsafe { b.add(i) };
    let (x, y) = (r.us(3), 3 + r.us(3));
    let c = color(r);
    unsafe {
        (*at(y))._set_color(copy(&c));
        if r.chance(1, 2) {
            op!("set left");
            (*at(x))._set_left(at(y));
            ck!((*at(x)).left == at(y) && (*at(x)).right.is_null(), "the left child is set");
        } else {
            op!("set right");
            (*at(x))._set_right(at(y));
            ck!((*at(x)).right == at(y) && (*at(x)).left.is_null(), "the right child is set");
        }
        ck!((*at(y)).parent.ptr() == at(x), "the parent of a new child is {:?}, not {:?}", (*at(y)).parent.ptr(), at(x));
        ck!(same(&(*at(y))._color(), &c), "the color of a new child has changed");
    }
    Ok(())
}

pub fn links() -> Vec<Case> {
    vec![link_case, child_case]
}
