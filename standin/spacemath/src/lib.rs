//! Stand-in for `spacemath` (the author's unpublished sibling checkout), written from bugi's call
//! sites. It supplies planar points, segments, circles and triangles with *exact* orientation and
//! intersection predicates, i.e. it assumes the real crate's predicates are correct.

pub mod two;

/// Sign of an orientation / intersection test.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Orient {
    Negative,
    Zero,
    Positive,
}

impl Orient {
    pub fn is_positive(self) -> bool {
        self == Orient::Positive
    }
    pub fn is_negative(self) -> bool {
        self == Orient::Negative
    }
    pub fn is_zero(self) -> bool {
        self == Orient::Zero
    }
    pub fn is_nonzero(self) -> bool {
        self != Orient::Zero
    }
}

impl From<f64> for Orient {
    fn from(x: f64) -> Self {
        if x > 0.0 {
            Orient::Positive
        } else if x < 0.0 {
            Orient::Negative
        } else {
            Orient::Zero
        }
    }
}

/// Exact sign of the planar cross product (b - a) x (c - a), by floating-point expansions.
pub(crate) fn orient2d(a: (f64, f64), b: (f64, f64), c: (f64, f64)) -> Orient {
    // (bx-ax)(cy-ay) - (by-ay)(cx-ax) = bx*cy - bx*ay - ax*cy - by*cx + by*ax + ay*cx
    let prods = [
        (b.0, c.1),
        (-b.0, a.1),
        (-a.0, c.1),
        (-b.1, c.0),
        (b.1, a.0),
        (a.1, c.0),
    ];
    let mut e: Vec<f64> = Vec::with_capacity(12);
    for &(x, y) in prods.iter() {
        let p = x * y;
        let err = x.mul_add(y, -p);
        grow(&mut e, err);
        grow(&mut e, p);
    }
    // a nonoverlapping expansion in increasing magnitude: its last nonzero term has its sign
    Orient::from(e.iter().rev().cloned().find(|x| *x != 0.0).unwrap_or(0.0))
}

/// Shewchuk's GROW-EXPANSION: adds b to the nonoverlapping expansion e exactly.
fn grow(e: &mut Vec<f64>, b: f64) {
    let mut q = b;
    for t in e.iter_mut() {
        let s = q + *t;
        let bv = s - q;
        let av = s - bv;
        let err = (q - av) + (*t - bv);
        *t = err;
        q = s;
    }
    e.push(q);
}
