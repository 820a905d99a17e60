use crate::{orient2d, Orient};
use std::ops::{Add, AddAssign, Div, Mul, Neg, Sub, SubAssign};

pub mod dist;
pub mod intersect;

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Point {
    pub x: f64,
    pub y: f64,
}

impl Point {
    pub fn new(x: f64, y: f64) -> Self {
        Self { x, y }
    }
    pub fn zero() -> Self {
        Self::new(0.0, 0.0)
    }
    pub fn mid(self, o: Point) -> Point {
        Point::new((self.x + o.x) / 2.0, (self.y + o.y) / 2.0)
    }
    pub fn dot(self, o: Point) -> f64 {
        self.x * o.x + self.y * o.y
    }
    pub fn cross(self, o: Point) -> f64 {
        self.x * o.y - self.y * o.x
    }
    pub fn norm(self) -> f64 {
        self.dot(self).sqrt()
    }
    pub fn to_unit(self) -> Point {
        self / self.norm()
    }
}

impl From<(f64, f64)> for Point {
    fn from(p: (f64, f64)) -> Self {
        Point::new(p.0, p.1)
    }
}
impl From<Point> for (f64, f64) {
    fn from(p: Point) -> Self {
        (p.x, p.y)
    }
}
impl Add for Point {
    type Output = Point;
    fn add(self, o: Point) -> Point {
        Point::new(self.x + o.x, self.y + o.y)
    }
}
impl Sub for Point {
    type Output = Point;
    fn sub(self, o: Point) -> Point {
        Point::new(self.x - o.x, self.y - o.y)
    }
}
impl AddAssign for Point {
    fn add_assign(&mut self, o: Point) {
        *self = *self + o;
    }
}
impl SubAssign for Point {
    fn sub_assign(&mut self, o: Point) {
        *self = *self - o;
    }
}
impl Neg for Point {
    type Output = Point;
    fn neg(self) -> Point {
        Point::new(-self.x, -self.y)
    }
}
impl Mul<f64> for Point {
    type Output = Point;
    fn mul(self, k: f64) -> Point {
        Point::new(self.x * k, self.y * k)
    }
}
impl Mul<Point> for f64 {
    type Output = Point;
    fn mul(self, p: Point) -> Point {
        p * self
    }
}
impl Div<f64> for Point {
    type Output = Point;
    fn div(self, k: f64) -> Point {
        Point::new(self.x / k, self.y / k)
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Segment {
    pub p: Point,
    pub q: Point,
}

impl Segment {
    pub fn new(p: Point, q: Point) -> Self {
        Self { p, q }
    }
}
impl From<(Point, Point)> for Segment {
    fn from(s: (Point, Point)) -> Self {
        Segment::new(s.0, s.1)
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Circle {
    pub center: Point,
    pub radius: f64,
}

impl Circle {
    pub fn new(center: Point, radius: f64) -> Self {
        Self { center, radius }
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Triangle {
    pub a: Point,
    pub b: Point,
    pub c: Point,
}

impl Triangle {
    pub fn new(a: Point, b: Point, c: Point) -> Self {
        Self { a, b, c }
    }
    /// Positive for counterclockwise vertices.
    pub fn dir(&self) -> Orient {
        orient2d(self.a.into(), self.b.into(), self.c.into())
    }
    pub fn area(&self) -> f64 {
        ((self.b - self.a).cross(self.c - self.a) / 2.0).abs()
    }
    pub fn circumradius(&self) -> f64 {
        let (a, b, c) = (
            (self.b - self.c).norm(),
            (self.c - self.a).norm(),
            (self.a - self.b).norm(),
        );
        a * b * c / (4.0 * self.area())
    }
}
impl From<(Point, Point, Point)> for Triangle {
    fn from(t: (Point, Point, Point)) -> Self {
        Triangle::new(t.0, t.1, t.2)
    }
}
