//! B01..B04: bounding boxes.
use super::{near, Prop};
use crate::dd::V;
use crate::engine::{Case, Res, Src};
use crate::gens::*;
use crate::geom::*;
use crate::req;
use mazth::bound::{AxisAlignedBBox, Axis};
use mazth::i_bound::{BoundType, IBound};
use mazth::i_shape::ShapeType;

pub fn list(v: &mut Vec<Prop>) {
    v.push(Prop { id: "B01", f: b01, quick: 64_000_000, rule: "one case = one shape of any kind, its reported box against the exact extent of the shape and sampled points of it; non-trivial = coordinates not all equal and (for prisms) the base is not in a coordinate plane" });
    v.push(Prop { id: "B02", f: b02, quick: 60_000_000, rule: "one case = two boxes placed per axis as apart, touching, overlapping, nested or equal; non-trivial = exactly one axis decides, or they touch, or one is flat or unbounded" });
    v.push(Prop { id: "B03", f: b03, quick: 20_000_000, rule: "one case = a list of 1..6 boxes (one in 32 up to 300), a receiver with arbitrary contents, a permutation and a grouping of the list; non-trivial = at least two different boxes" });
    v.push(Prop { id: "B04", f: b04, quick: 60_000_000, rule: "one case = one finite box with chosen order of its extents; non-trivial = three extents not all equal" });
}
const AX: [&str; 3] = ["x", "y", "z"];
fn b01(src: &mut Src, c: &mut Case) -> Res {
    let kind = src.below(7) as usize;
    c.class(KINDS[kind]);
    let g = gen_shape(src, kind, GEO).scaled(far(src, 60), far(src, 100));
    c.show("shape", || g.show());
    let s = g.build();
    req!(matches!(s.get_bound().get_type(), BoundType::AxisAlignBox), "the bound is not an axis-aligned box");
    let (lo, hi) = bbox(&*s);
    let inf = f64::INFINITY;
    let (mut wl, mut wh) = ([-inf; 3], [inf; 3]);
    let mut tol = [0.0f64; 3];
    // sampled points of the shape
    let mut pts: Vec<([f64; 3], f64)> = vec![];
    match &g {
        G::Point(p) => {
            wl = *p;
            wh = *p;
            c.nontrivial = p[0] != p[1] || p[1] != p[2];
        }
        G::Ray(o, d) => {
            for i in 0..3 {
                wl[i] = if d[i] < 0.0 { -inf } else { o[i] };
                wh[i] = if d[i] > 0.0 { inf } else { o[i] };
            }
            let u = unitv(d);
            for t in [0.0, 1.0, 1e3, unit(src) * 10.0] {
                let p = add(o, &mulv(&u, t));
                pts.push((p, 8.0 * EPS * (maxabs(o) + t)));
            }
            c.nontrivial = d.iter().filter(|x| **x != 0.0).count() >= 2;
        }
        G::Sphere(o, r) | G::Cube(o, r) => {
            for i in 0..3 {
                wl[i] = o[i] - r;
                wh[i] = o[i] + r;
                tol[i] = 2.0 * EPS * (o[i].abs() + r);
            }
            c.nontrivial = o[0] != o[1] || o[1] != o[2];
        }
        G::Segment(a, b) => {
            for i in 0..3 {
                wl[i] = a[i].min(b[i]);
                wh[i] = a[i].max(b[i]);
            }
            c.nontrivial = (0..3).filter(|i| a[*i] != b[*i]).count() >= 2;
        }
        G::Prism(v, h) => {
            let p = prism(v, *h).ok_or("HARNESS: degenerate prism generated")?;
            for i in 0..3 {
                let all: [f64; 6] = std::array::from_fn(|k| if k < 3 { p.v[k].f()[i] } else { p.top[k - 3].f()[i] });
                wl[i] = all.iter().cloned().fold(inf, f64::min);
                wh[i] = all.iter().cloned().fold(-inf, f64::max);
                tol[i] = 32.0 * EPS * (p.kappa * h + p.cmax + h);
            }
            c.nontrivial = p.hn.f().iter().filter(|x| x.abs() > 1e-9 * h).count() >= 2;
        }
        G::Plane(o, n) => {
            let u = unitv(n);
            for k in [0.0, 1.0, 1e3, 1e6, unit(src) * 10.0] {
                let w = perp(src, &u);
                let p = add(o, &mulv(&w, k));
                pts.push((p, 64.0 * EPS * (maxabs(o) + k)));
            }
            c.nontrivial = n.iter().filter(|x| **x != 0.0).count() >= 2;
            for (p, t) in pts {
                for i in 0..3 {
                    req!(lo[i] <= p[i] + t && hi[i] >= p[i] - t, "point {:?} of the plane is outside the box {:?}..{:?} on {}", p, lo, hi, AX[i]);
                }
            }
            return Ok(());
        }
    }
    for i in 0..3 {
        near(lo[i], wl[i], tol[i], || format!("lower bound on {}", AX[i]))?;
        near(hi[i], wh[i], tol[i], || format!("upper bound on {}", AX[i]))?;
    }
    for (p, t) in pts {
        for i in 0..3 {
            req!(lo[i] <= p[i] + t && hi[i] >= p[i] - t, "point {:?} of the shape is outside the box {:?}..{:?} on {}", p, lo, hi, AX[i]);
        }
    }
    Ok(())
}
const BD: Dom = Dom::new(1e-9, 1e9);
fn mkbox(lo: &[f64; 3], hi: &[f64; 3]) -> AxisAlignedBBox {
    AxisAlignedBBox::init(ShapeType::Rect, &[lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]])
}
fn gen_interval(src: &mut Src) -> (f64, f64) {
    let x = num(src, BD);
    match src.below(6) {
        0 => (x, x),
        1 => {
            let y = num(src, BD);
            (x.min(y), x.max(y))
        }
        2 => (f64::NEG_INFINITY, x),
        3 => (x, f64::INFINITY),
        4 => (f64::NEG_INFINITY, f64::INFINITY),
        _ => (x, x + positive(src, BD)),
    }
}
fn b02(src: &mut Src, c: &mut Case) -> Res {
    let (mut al, mut ah, mut bl, mut bh) = ([0.0; 3], [0.0; 3], [0.0; 3], [0.0; 3]);
    let f = far(src, 300);
    // which axes separate, if any
    let mut special = false;
    let sep = match src.below(4) {
        0 => 8,
        1 => src.below(8),
        _ => 1 << src.below(3),
    };
    for i in 0..3 {
        let (l, h) = gen_interval(src);
        al[i] = l;
        ah[i] = h;
        let fin = |x: f64| x.is_finite();
        let (p, q);
        if sep == 8 || sep >> i & 1 == 0 {
            // meet, often only just
            match src.below(6) {
                0 if fin(h) => {
                    p = h;
                    q = h + nonzero(src, BD).abs();
                    special = true;
                }
                1 if fin(l) => {
                    q = l;
                    p = l - nonzero(src, BD).abs();
                    special = true;
                }
                2 => {
                    p = l;
                    q = h;
                }
                3 if fin(l) && fin(h) => {
                    p = l + (h - l) * 0.25;
                    q = l + (h - l) * 0.75;
                }
                4 if fin(l) && fin(h) => {
                    p = l - positive(src, BD);
                    q = h + positive(src, BD);
                }
                _ => {
                    let m = if fin(l) {
                        l
                    } else if fin(h) {
                        h
                    } else {
                        num(src, BD)
                    };
                    p = if src.bool() { f64::NEG_INFINITY } else { m - positive(src, BD) };
                    q = if src.bool() { f64::INFINITY } else { m + positive(src, BD) };
                }
            }
        } else {
            // apart on this axis, by one ulp or more
            let up = src.bool();
            let g = match src.below(4) {
                0 => 0.0,
                1 => logu(src, 1e-12, 1.0),
                2 => dict(src, false).abs(),
                _ => positive(src, BD),
            };
            if up && fin(h) {
                let x = (h + g).max(ulp_next(h, true, false));
                p = x;
                q = if src.below(4) == 0 { f64::INFINITY } else { x + src.below(3) as f64 };
            } else if fin(l) {
                let x = (l - g).min(ulp_next(l, false, false));
                q = x;
                p = if src.below(4) == 0 { f64::NEG_INFINITY } else { x - src.below(3) as f64 };
            } else {
                p = num(src, BD);
                q = p;
            }
        }
        bl[i] = p.min(q);
        bh[i] = p.max(q);
        special |= al[i] == ah[i] || bl[i] == bh[i] || al[i].is_infinite() || ah[i].is_infinite();
    }
    for x in [&mut al, &mut ah, &mut bl, &mut bh] {
        *x = x.map(|v| v * f);
    }
    let meet: Vec<bool> = (0..3).map(|i| al[i] <= bh[i] && bl[i] <= ah[i]).collect();
    let want = meet.iter().all(|x| *x);
    let nsep = meet.iter().filter(|x| !**x).count();
    c.class(["overlap", "apart on one axis", "apart on two axes", "apart on three axes"][nsep]);
    c.nontrivial = nsep == 1 || special;
    c.show("a", || format!("{:?} .. {:?}", al, ah));
    c.show("b", || format!("{:?} .. {:?}", bl, bh));
    let (a, b) = (mkbox(&al, &ah), mkbox(&bl, &bh));
    req!(a.intersect(&b) == want, "a overlaps b: {}, expected {}", !want, want);
    req!(b.intersect(&a) == want, "b overlaps a: {}, expected {}", !want, want);
    req!(a.intersect(&a) && b.intersect(&b), "a box does not overlap itself");
    let d = AxisAlignedBBox::default();
    req!(d.intersect(&a) && a.intersect(&d), "a box does not overlap the unbounded default box");
    req!(d.intersect(&mkbox(&[f64::INFINITY; 3], &[f64::INFINITY; 3])) && data(&d) == [f64::NEG_INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY, f64::INFINITY, f64::INFINITY, f64::INFINITY],
        "the default box is {:?}, not unbounded on every side", data(&d));
    // something contained in a
    let mut il = al;
    let mut ih = ah;
    for i in 0..3 {
        if il[i].is_infinite() {
            il[i] = if ih[i].is_infinite() { 0.0 } else { ih[i] };
        }
        if src.bool() {
            ih[i] = il[i];
        }
    }
    let inner = mkbox(&il, &ih);
    req!(a.intersect(&inner) && inner.intersect(&a), "a box does not overlap {:?}..{:?} inside it", il, ih);
    Ok(())
}
fn data(b: &AxisAlignedBBox) -> [f64; 6] {
    let d = b.get_bound_data();
    [d[0], d[1], d[2], d[3], d[4], d[5]]
}
fn b03(src: &mut Src, c: &mut Case) -> Res {
    // mostly short lists, now and then up to some hundred
    let k = 1 + match src.below(32) {
        31 => 6 + src.below(15),
        30 if src.below(4) == 3 => src.below(300),
        _ => src.below(6),
    } as usize;
    let mut bs: Vec<AxisAlignedBBox> = vec![];
    let (mut wl, mut wh) = ([f64::INFINITY; 3], [f64::NEG_INFINITY; 3]);
    let sc = src.bool();
    let f = far(src, 300);
    for j in 0..k {
        let (mut l, mut h) = ([0.0; 3], [0.0; 3]);
        if j > 0 && src.below(6) == 5 {
            bs.push(bs[j - 1].clone());
            continue;
        }
        for i in 0..3 {
            let (x, y) = if sc {
                let x = zigzag(src, 41);
                (x, x + src.below(10) as f64)
            } else {
                gen_interval(src)
            };
            let (x, y) = (x * f, y * f);
            l[i] = x;
            h[i] = y;
            wl[i] = wl[i].min(x);
            wh[i] = wh[i].max(y);
        }
        bs.push(mkbox(&l, &h));
    }
    c.show("boxes", || format!("{:?}", bs.iter().map(data).collect::<Vec<_>>()));
    c.class(["1 box", "2 boxes", "3 boxes", "4 boxes", "5 boxes", "6 boxes", "7 to 40 boxes", "more than 40 boxes"][if k > 40 { 7 } else { k.min(7) - 1 }]);
    c.nontrivial = bs.iter().any(|b| data(b) != data(&bs[0]));
    let mut recv = match src.below(4) {
        0 => AxisAlignedBBox::default(),
        1 => bs[src.below(k as u64) as usize].clone(),
        2 => {
            let x = num(src, BD);
            mkbox(&[x, x, x], &[x, x, x])
        }
        _ => {
            let (a, b) = (v3(src, BD), v3(src, BD));
            mkbox(&std::array::from_fn(|i| a[i].min(b[i])), &std::array::from_fn(|i| a[i].max(b[i])))
        }
    };
    c.show("receiver", || format!("{:?}", data(&recv)));
    let chk = |b: &AxisAlignedBBox, how: &str| -> Res {
        let d = data(b);
        for i in 0..3 {
            req!(d[i] == wl[i] && d[3 + i] == wh[i], "{}: {} is {:e}..{:e}, expected {:e}..{:e}", how, AX[i], d[i], d[3 + i], wl[i], wh[i]);
        }
        Ok(())
    };
    let before: Vec<[f64; 6]> = bs.iter().map(data).collect();
    let refs: Vec<&dyn IBound> = bs.iter().map(|b| b as &dyn IBound).collect();
    recv.get_union(&refs);
    chk(&recv, "union")?;
    // permuted with repetition
    let mut perm: Vec<&dyn IBound> = refs.clone();
    for i in (1..perm.len()).rev() {
        let j = src.below(i as u64 + 1) as usize;
        perm.swap(i, j);
    }
    perm.push(refs[src.below(k as u64) as usize]);
    recv.get_union(&perm);
    chk(&recv, "union in another order with a repetition")?;
    // grouped
    let cut = src.below(k as u64) as usize + 1;
    let (mut g1, mut g2) = (AxisAlignedBBox::default(), AxisAlignedBBox::default());
    g1.get_union(&refs[..cut]);
    if cut < k {
        g2.get_union(&refs[cut..]);
        let mut u = recv.clone();
        u.get_union(&[&g1 as &dyn IBound, &g2 as &dyn IBound]);
        chk(&u, "union of unions")?;
    } else {
        chk(&g1, "union into a default box")?;
    }
    for (b, w) in bs.iter().zip(before) {
        req!(data(b) == w, "a listed box was changed");
    }
    Ok(())
}
fn b04(src: &mut Src, c: &mut Case) -> Res {
    let lo = v3(src, BD);
    let mut ext = [0.0; 3];
    match src.below(5) {
        0 => {
            let p = [[1.0, 2.0, 3.0], [1.0, 1.0, 2.0], [2.0, 2.0, 1.0], [0.0, 0.0, 1.0], [1.0, 1.0, 1.0], [0.0, 5.0, 5.0]][src.below(6) as usize];
            let r = src.below(3) as usize;
            let fl = src.bool();
            for i in 0..3 {
                ext[i] = p[(if fl { 2 - i } else { i } + r) % 3];
            }
        }
        1 => {
            let x = positive(src, BD);
            for e in &mut ext {
                *e = x * (1.0 + if src.bool() { logu(src, 1e-12, 1.0) } else { 0.0 });
            }
        }
        _ => {
            for e in &mut ext {
                *e = num(src, BD).abs();
            }
        }
    }
    let f = far(src, 300);
    let (lo, ext) = (lo.map(|x| x * f), ext.map(|x| x * f));
    let hi: [f64; 3] = std::array::from_fn(|i| lo[i] + ext[i]);
    c.show("box", || format!("{:?} .. {:?}", lo, hi));
    let b = mkbox(&lo, &hi);
    let d = b.get_bound_data();
    for i in 0..3 {
        req!(d[i] == lo[i] && d[3 + i] == hi[i], "reported data {:?} are not the bounds", &d[..6]);
        req!(b._bound_lower[i] == lo[i] && b._bound_upper[i] == hi[i], "stored bounds {:?} {:?} are not the given ones", b._bound_lower, b._bound_upper);
    }
    let m = b.get_centroid();
    let x: [f64; 3] = std::array::from_fn(|i| (V::of([hi[i], 0.0, 0.0]) - V::of([lo[i], 0.0, 0.0])).0[0].f());
    for i in 0..3 {
        let w = lo[i] / 2.0 + hi[i] / 2.0;
        near(m[i], w, 4.0 * EPS * (lo[i].abs() + hi[i].abs()), || format!("centroid on {}", AX[i]))?;
    }
    let (a, e) = b.get_longest_axis();
    let i = match a {
        Axis::X => 0,
        Axis::Y => 1,
        Axis::Z => 2,
    };
    let mx = x[0].max(x[1]).max(x[2]);
    let tol = 4.0 * EPS * mx;
    c.class(if x[0] == mx { "x is longest" } else if x[1] == mx { "y is longest" } else { "z is longest" });
    c.nontrivial = !(x[0] == x[1] && x[1] == x[2]);
    req!(x[i] >= mx - tol, "the longest axis is said to be {} (extent {:e}), but the extents are {:?}", AX[i], x[i], x);
    near(e, mx, tol, || "extent of the longest axis".into())?;
    Ok(())
}
