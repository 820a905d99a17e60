use super::{Point, Segment};

/// Euclidean distance to another shape.
pub trait Dist<T = Point> {
    fn dist(&self, other: T) -> f64;
}

impl Dist<Point> for Point {
    fn dist(&self, other: Point) -> f64 {
        (*self - other).norm()
    }
}

impl Dist<Point> for Segment {
    fn dist(&self, other: Point) -> f64 {
        let d = self.q - self.p;
        let len2 = d.dot(d);
        let t = if len2 == 0.0 {
            0.0
        } else {
            ((other - self.p).dot(d) / len2).max(0.0).min(1.0)
        };
        (self.p + d * t - other).norm()
    }
}

impl Dist<Segment> for Point {
    fn dist(&self, other: Segment) -> f64 {
        other.dist(*self)
    }
}
