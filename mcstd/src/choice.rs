//! Stateless, deviation-bounded depth-first exploration of choice points.
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// no choice points: entries come in the map's internal order (a fixed hash, so reproducible)
    Off,
    /// internal order, reversed
    Reversed,
    /// internal order, starting from the k-th entry (modulo their number) and wrapping around
    Rotate(u32),
    /// one choice per iteration: which entry comes first (the rest stay in order)
    Front,
    /// every entry is a choice: all permutations of every iteration
    Full,
}

#[derive(Clone, Debug)]
struct Point {
    chosen: u32,
    arity: u32,
}

struct State {
    mode: Mode,
    prefix: Vec<u32>,
    points: Vec<Point>,
    diverged: bool,
}

thread_local! {
    static STATE: RefCell<State> = RefCell::new(State { mode: Mode::Off, prefix: vec![], points: vec![], diverged: false });
}

pub fn mode() -> Mode {
    STATE.with(|s| s.borrow().mode)
}

/// Ask the explorer to pick one of `arity` alternatives.
pub fn choose(arity: usize) -> usize {
    if arity <= 1 {
        return 0;
    }
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        let at = s.points.len();
        let mut chosen = s.prefix.get(at).copied().unwrap_or(0);
        if chosen as usize >= arity {
            s.diverged = true;
            chosen = 0;
        }
        s.points.push(Point { chosen, arity: arity as u32 });
        chosen as usize
    })
}

/// What one execution met: the choices it took, their arities, and whether it left the prefix it
/// was given. It leaves it when state of the code under test outlives an execution (a counter
/// other than the atomics which `reset` knows): still an execution, but its tree is another's.
pub struct Met {
    pub chosen: Vec<u32>,
    pub arity: Vec<u32>,
    pub diverged: bool,
}

/// Run `f` once with the given choices (0 beyond their end).
pub fn run_with<T>(mode: Mode, prefix: &[u32], f: impl FnOnce() -> T) -> (T, Met) {
    crate::atomic::reset(0);
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.mode = mode;
        s.prefix = prefix.to_vec();
        s.points.clear();
        s.diverged = false;
    });
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            STATE.with(|s| {
                if let Ok(mut s) = s.try_borrow_mut() {
                    s.mode = Mode::Off;
                }
            })
        }
    }
    let _r = Reset;
    let out = f();
    let met = STATE.with(|s| {
        let s = s.borrow();
        Met {
            chosen: s.points.iter().map(|p| p.chosen).collect(),
            arity: s.points.iter().map(|p| p.arity).collect(),
            diverged: s.diverged || s.points.len() < s.prefix.len(),
        }
    });
    (out, met)
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Explored {
    pub executions: u64,
    pub choice_points: u64,
    pub capped: bool,
    /// executions that left their prefix; none of their successors was explored
    pub diverged: u64,
    /// largest number of deviations from the default order that was completed
    pub bound: usize,
}

/// Depth-first over every choice sequence with at most `bound` non-default choices, at most
/// `cap` executions. `f` returns false to stop.
pub fn explore(mode: Mode, bound: usize, cap: u64, mut f: impl FnMut(&[u32]) -> bool) -> Explored {
    // the closure sees the prefix it was started with; 0 everywhere beyond it
    let mut out = Explored { bound, ..Default::default() };
    let mut stack: Vec<Vec<u32>> = vec![vec![]];
    while let Some(prefix) = stack.pop() {
        if out.executions >= cap {
            out.capped = true;
            break;
        }
        let (go, met) = run_with(mode, &prefix, || f(&prefix));
        let Met { chosen, arity, diverged } = met;
        out.executions += 1;
        out.choice_points += chosen.len() as u64;
        if !go {
            break;
        }
        if diverged {
            out.diverged += 1;
            continue;
        }
        let used = prefix.iter().filter(|&&c| c != 0).count();
        if used >= bound {
            continue;
        }
        for i in (prefix.len()..chosen.len()).rev() {
            for alt in (1..arity[i]).rev() {
                let mut p = chosen[..i].to_vec();
                p.push(alt);
                stack.push(p);
            }
        }
    }
    out
}

/// Indices 0..n in the order the current mode dictates, as a lazily choosing iterator.
pub struct Order {
    left: Vec<usize>,
    full: bool,
}

pub fn order(n: usize) -> Order {
    let mut left: Vec<usize> = (0..n).collect();
    match mode() {
        Mode::Off => Order { left, full: false },
        Mode::Reversed => {
            left.reverse();
            Order { left, full: false }
        }
        Mode::Rotate(k) => {
            if n > 0 {
                left.rotate_left(k as usize % n);
            }
            Order { left, full: false }
        }
        Mode::Front => {
            let k = choose(n);
            let x = if n > 0 { Some(left.remove(k)) } else { None };
            if let Some(x) = x {
                left.insert(0, x);
            }
            Order { left, full: false }
        }
        Mode::Full => Order { left, full: true },
    }
    .prepared()
}

impl Order {
    fn prepared(mut self) -> Self {
        if !self.full {
            self.left.reverse(); // popped from the back
        }
        self
    }
}

impl Iterator for Order {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.full {
            if self.left.is_empty() {
                None
            } else {
                let k = choose(self.left.len());
                Some(self.left.remove(k))
            }
        } else {
            self.left.pop()
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.left.len(), Some(self.left.len()))
    }
}

impl ExactSizeIterator for Order {}
