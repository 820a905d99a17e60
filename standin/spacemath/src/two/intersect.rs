use super::{Circle, Point, Segment};
use crate::{orient2d, Orient};

/// Positive if the closed shapes share a point, Zero if they do not.
pub trait Intersect<T> {
    fn intersects(&self, other: &T) -> Orient;
}

fn hit(x: bool) -> Orient {
    if x {
        Orient::Positive
    } else {
        Orient::Zero
    }
}

fn in_box(s: &Segment, p: Point) -> bool {
    p.x >= s.p.x.min(s.q.x)
        && p.x <= s.p.x.max(s.q.x)
        && p.y >= s.p.y.min(s.q.y)
        && p.y <= s.p.y.max(s.q.y)
}

impl Intersect<Segment> for Segment {
    fn intersects(&self, o: &Segment) -> Orient {
        let d = |a: Point, b: Point, c: Point| orient2d(a.into(), b.into(), c.into());
        let (d1, d2) = (d(o.p, o.q, self.p), d(o.p, o.q, self.q));
        let (d3, d4) = (d(self.p, self.q, o.p), d(self.p, self.q, o.q));
        let opposite = |x: Orient, y: Orient| x.is_nonzero() && y.is_nonzero() && x != y;
        hit((opposite(d1, d2) && opposite(d3, d4))
            || (d1.is_zero() && in_box(o, self.p))
            || (d2.is_zero() && in_box(o, self.q))
            || (d3.is_zero() && in_box(self, o.p))
            || (d4.is_zero() && in_box(self, o.q)))
    }
}

impl Intersect<Point> for Circle {
    fn intersects(&self, o: &Point) -> Orient {
        hit((self.center - *o).norm() <= self.radius)
    }
}
