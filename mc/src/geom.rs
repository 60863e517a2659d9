//! Plane geometry of the drawing as the properties describe it: sides of elements, interiors,
//! and the shortest orthogonal route by an independent grid search.
use crate::svgx::{Pt, Rc};

pub const EPS: f64 = 1e-3;
pub fn near(a: f64, b: f64) -> bool {
    (a - b).abs() < EPS
}
pub fn near_pt(a: Pt, b: Pt) -> bool {
    near(a.0, b.0) && near(a.1, b.1)
}
pub fn near_rc(a: Rc, b: Rc) -> bool {
    near(a.x, b.x) && near(a.y, b.y) && near(a.w, b.w) && near(a.h, b.h)
}
/// The open segment's box meets the open rectangle.
pub fn through(a: Pt, b: Pt, r: Rc) -> bool {
    let (x0, x1) = (a.0.min(b.0), a.0.max(b.0));
    let (y0, y1) = (a.1.min(b.1), a.1.max(b.1));
    x1 > r.x + EPS && x0 < r.r() - EPS && y1 > r.y + EPS && y0 < r.b() - EPS
}
pub fn len(p: &[Pt]) -> f64 {
    p.windows(2).map(|w| (w[0].0 - w[1].0).abs() + (w[0].1 - w[1].1).abs()).sum()
}

#[derive(Clone, Copy, Debug)]
pub struct Port {
    pub at: Pt,
    /// outward direction
    pub d: (f64, f64),
}
/// Middles of the free sides of an element: left and right, and top and bottom where they lie on
/// the table's outline.
pub fn ports(el: Rc, table: Rc) -> Vec<Port> {
    let mut v = vec![
        Port { at: (el.x, el.y + el.h / 2.0), d: (-1.0, 0.0) },
        Port { at: (el.r(), el.y + el.h / 2.0), d: (1.0, 0.0) },
    ];
    if near(el.y, table.y) {
        v.push(Port { at: (el.x + el.w / 2.0, el.y), d: (0.0, -1.0) });
    }
    if near(el.b(), table.b()) {
        v.push(Port { at: (el.x + el.w / 2.0, el.b()), d: (0.0, 1.0) });
    }
    v
}
/// Row 0 is the whole table; row i is the i-th field, below the header row, `HEADER_ROW`.
pub fn element(table: Rc, fields: usize, row: usize) -> Rc {
    if row == 0 {
        return table;
    }
    let row = if row == crate::model::HEADER_ROW { 0 } else { row };
    let h = table.h / (fields + 1) as f64;
    Rc { x: table.x, y: table.y + h * row as f64, w: table.w, h }
}

/// Length of a shortest orthogonal route from a port of `p1` to another one of `p2` that keeps
/// `clear` from every table, except where it leaves and arrives straight; `None` if there is none.
///
/// Routes run on the lines `lane` away from the tables and the lines through the ports; a shortest
/// route can always be shifted onto such lines.
pub fn shortest(rects: &[Rc], p1: &[Port], p2: &[Port], clear: f64, lane: f64) -> Option<f64> {
    let mut xs: Vec<f64> = vec![];
    let mut ys: Vec<f64> = vec![];
    for r in rects {
        xs.extend([r.x - lane, r.r() + lane]);
        ys.extend([r.y - lane, r.b() + lane]);
    }
    for p in p1.iter().chain(p2) {
        xs.push(p.at.0);
        ys.push(p.at.1);
    }
    for v in [&mut xs, &mut ys] {
        v.sort_by(|a, b| a.total_cmp(b));
        v.dedup();
    }
    let (nx, ny) = (xs.len(), ys.len());
    let id = |i: usize, j: usize| j * nx + i;
    let free = |a: Pt, b: Pt, cl: f64| {
        !rects.iter().any(|r| {
            through(a, b, Rc { x: r.x - cl, y: r.y - cl, w: r.w + 2.0 * cl, h: r.h + 2.0 * cl })
        })
    };
    // straight out of a port to the first grid point at least `lane` away
    let lead = |p: &Port| -> Option<(usize, f64)> {
        let mut i = xs.iter().position(|x| *x == p.at.0)? as i64;
        let mut j = ys.iter().position(|y| *y == p.at.1)? as i64;
        loop {
            i += p.d.0 as i64;
            j += p.d.1 as i64;
            if i < 0 || j < 0 || i >= nx as i64 || j >= ny as i64 {
                return None;
            }
            let q = (xs[i as usize], ys[j as usize]);
            if !free(p.at, q, 0.0) {
                return None;
            }
            let l = (q.0 - p.at.0).abs() + (q.1 - p.at.1).abs();
            if l >= lane - EPS {
                return Some((id(i as usize, j as usize), l));
            }
        }
    };
    let edge_free: Vec<[bool; 2]> = (0..nx * ny)
        .map(|k| {
            let (i, j) = (k % nx, k / nx);
            let a = (xs[i], ys[j]);
            [
                i + 1 < nx && free(a, (xs[i + 1], ys[j]), clear),
                j + 1 < ny && free(a, (xs[i], ys[j + 1]), clear),
            ]
        })
        .collect();
    let mut best: Option<f64> = None;
    let mut put = |l: f64| {
        if best.map(|b| l < b).unwrap_or(true) {
            best = Some(l)
        }
    };
    for p in p1 {
        // facing ports may be joined directly
        for q in p2 {
            let along = (q.at.0 - p.at.0) * p.d.0 + (q.at.1 - p.at.1) * p.d.1;
            if p.d.0 == -q.d.0
                && p.d.1 == -q.d.1
                && (near(p.at.0, q.at.0) || near(p.at.1, q.at.1))
                && along > EPS
                && free(p.at, q.at, 0.0)
            {
                put(along);
            }
        }
        let Some((k0, l0)) = lead(p) else { continue };
        let mut dist = vec![f64::MAX; nx * ny];
        let mut done = vec![false; nx * ny];
        dist[k0] = l0;
        let mut heap = std::collections::BinaryHeap::new();
        heap.push((std::cmp::Reverse((l0 * 4.0) as i64), k0));
        while let Some((_, k)) = heap.pop() {
            if done[k] {
                continue;
            }
            done[k] = true;
            let (i, j) = (k % nx, k / nx);
            let mut go = |m: usize, l: f64, ok: bool| {
                if ok && dist[k] + l < dist[m] {
                    dist[m] = dist[k] + l;
                    heap.push((std::cmp::Reverse((dist[m] * 4.0) as i64), m));
                }
            };
            if i + 1 < nx {
                go(k + 1, xs[i + 1] - xs[i], edge_free[k][0]);
            }
            if i > 0 {
                go(k - 1, xs[i] - xs[i - 1], edge_free[k - 1][0]);
            }
            if j + 1 < ny {
                go(k + nx, ys[j + 1] - ys[j], edge_free[k][1]);
            }
            if j > 0 {
                go(k - nx, ys[j] - ys[j - 1], edge_free[k - nx][1]);
            }
        }
        for q in p2 {
            if near_pt(p.at, q.at) {
                continue;
            }
            if let Some((k, l)) = lead(q) {
                if dist[k] < f64::MAX {
                    put(dist[k] + l);
                }
            }
        }
    }
    best
}
