//! Self-test of the library models (gkv/models.py): each harness states what a std, smallvec or
//! nalgebra idiom computes; the executor proves it from the models, and the native run of the same
//! text checks it against the real library.  Not a property of geokit.
#![allow(warnings)]
use crate::vk;

harness! {
    fn h_split_last() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let (l, r) = v.split_last().unwrap(); (*l + r[0] + r.len() as f64, e + a + 4.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_split_first() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let (l, r) = v.split_first().unwrap(); (*l + r[3], a + e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_first_chunk() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let Some([x, y]) = v.first_chunk::<2>() else { return }; (*x + *y, a + b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_slice_pat() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: &[f64] = &v; let r = match s { [x, .., y] => x - y, _ => 0.0 }; (r, a - e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_slice_pat2() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: &[f64] = &v; let r = match s { [x, rest @ ..] => x - rest[3], _ => 0.0 }; (r, a - e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_reverse() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = v; w.reverse(); (w[0], e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_iter_rev_sum() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (v.iter().rev().sum::<f64>(), a+b+c+d+e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_filter_map() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let k: Vec<f64> = v.iter().filter_map(|x| if *x > 0.0 { Some(*x) } else { None }).collect(); (k.iter().fold(0.0, |s, x| s + x), v.iter().map(|x| if *x > 0.0 {*x} else {0.0}).sum())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_find_map() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let k = v.iter().enumerate().find_map(|(i, x)| if i == 2 { Some(*x) } else { None }).unwrap_or(0.0); (k, c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_flat_map() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let k: f64 = v.iter().flat_map(|x| [*x, 1.0]).sum(); (k, a+b+c+d+e+5.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_flatten() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w = [[a, b], [c, d]]; (w.iter().flatten().sum::<f64>(), a+b+c+d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_scan() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let k: Vec<f64> = v.iter().scan(0.0, |s, x| { *s += *x; Some(*s) }).collect(); (k[4], a+b+c+d+e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_try_fold() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let k = v.iter().try_fold(0.0, |s, x| Some(s + x)); (k.unwrap(), a+b+c+d+e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_reduce() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (v.iter().copied().reduce(|x, y| x + y).unwrap(), a+b+c+d+e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_max_by() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (v.iter().copied().fold(f64::NEG_INFINITY, f64::max), a.max(b).max(c).max(d).max(e))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_max_by2() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (v.iter().copied().max_by(|x, y| x.partial_cmp(y).unwrap()).unwrap(), a.max(b).max(c).max(d).max(e))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_min_by2() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (v[..2].iter().copied().min_by(|x, y| x.total_cmp(y)).unwrap(), a.min(b))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_inspect() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut n = 0; let s: f64 = v.iter().inspect(|_| n += 1).sum(); (s + n as f64, a+b+c+d+e+5.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_skip_while() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (v.iter().skip_while(|_| false).sum::<f64>(), a+b+c+d+e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_map_while() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (v.iter().map_while(|x| Some(x * 2.0)).sum::<f64>(), 2.0*(a+b+c+d+e))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_successors() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: f64 = std::iter::successors(Some(a), |x| Some(x * 2.0)).take(3).sum(); (s, 7.0*a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_repeat() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: f64 = std::iter::repeat(a).take(3).sum(); (s, 3.0*a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_once_chain() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: f64 = std::iter::once(a).chain([b, c]).sum(); (s, a+b+c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_from_fn() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut i = 0; let s: f64 = std::iter::from_fn(|| { i += 1; if i < 4 { Some(a) } else { None } }).sum(); (s, 3.0*a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_zip_chunks() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: f64 = v.chunks_exact(2).zip([1.0, 2.0]).map(|(p, k)| k * (p[0] - p[1])).sum(); (s, (a-b)+2.0*(c-d))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_windows_map() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: f64 = v.windows(2).map(|w| w[1] - w[0]).sum(); (s, e-a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_array_windows_zip() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: f64 = v.iter().zip(v.iter().skip(1)).map(|(p, q)| q - p).sum(); (s, e-a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_zip_slice() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: f64 = v.iter().zip(&v[1..]).map(|(p, q)| q - p).sum(); (s, e-a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_range_incl() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut s = 0.0; for i in 1..=3 { s += v[i]; } (s, b+c+d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_range_rev() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut s = 0.0; for i in (0..5).rev() { s = s * 2.0 + v[i]; } (s, a+2.0*(b+2.0*(c+2.0*(d+2.0*e))))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_range_incl_rev() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut s = 0.0; for i in (1..=3).rev() { s = s * 2.0 + v[i]; } (s, b+2.0*(c+2.0*d))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_range_map() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: f64 = (0..5).map(|i| v[i]).sum(); (s, a+b+c+d+e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_range_fold() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s = (1..5).fold(a, |s, i| s + v[i]); (s, a+b+c+d+e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_step_by() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: f64 = v.iter().step_by(2).sum(); (s, a+c+e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_rev_enum() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: f64 = v.iter().enumerate().rev().map(|(i, x)| i as f64 * x).sum(); (s, b+2.0*c+3.0*d+4.0*e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_take_rev() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s = v.iter().take(3).rev().fold(0.0, |s, x| s * 2.0 + x); (s, a+2.0*(b+2.0*c))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_chain_rev() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s = v[..1].iter().chain(&v[1..2]).rev().fold(0.0, |s, x| s * 2.0 + x); (s, a+2.0*b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_rfind() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (*v.iter().rfind(|_| true).unwrap(), e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_rposition() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (v.iter().rposition(|_| true).unwrap() as f64, 4.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_vec_insert() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = v.to_vec(); w.insert(1, 7.0); (w[1] + w[2], 7.0 + b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_vec_remove() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = v.to_vec(); let x = w.remove(1); (x + w[1], b + c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_vec_trunc() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = v.to_vec(); w.truncate(2); (w.len() as f64, 2.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_vec_extend() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = vec![a]; w.extend(v.iter().copied()); w.extend([b]); (w[6] + w[1], a+b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_vec_append() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = vec![a]; let mut x = vec![b]; w.append(&mut x); (w[1], b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_vec_drain() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = v.to_vec(); let s: f64 = w.drain(..2).sum(); (s + w[0], a+b+c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_vec_clear() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = v.to_vec(); w.clear(); w.push(a); (w[0], a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_vec_last_mut() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = v.to_vec(); if let Some(x) = w.last_mut() { *x += 1.0; } (w[4], e + 1.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_vec_concat() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w = [&v[..2], &v[2..]].concat(); (w[4], e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_vec_iter_mut() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = v; for x in w.iter_mut() { *x *= 2.0; } (w[3], 2.0*d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_vec_iter_mut2() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = v; w.iter_mut().zip([1.0, 2.0]).for_each(|(x, k)| *x += k); (w[1], b + 2.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_iter_mut_enum() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = v; for (i, x) in w.iter_mut().enumerate().skip(1) { *x *= i as f64; } (w[3], 3.0*d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_vec_into_iter() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w = v.to_vec(); let s: f64 = w.into_iter().sum(); (s, a+b+c+d+e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_swap() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = v; w.swap(0, 4); (w[0], e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_mem_swap() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let (mut x, mut y) = (a, b); std::mem::swap(&mut x, &mut y); (x, b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_rotate() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = v; w.rotate_left(1); (w[0] + w[4], b + a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_sort() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = v[..3].to_vec(); w.sort_by(|x, y| x.partial_cmp(y).unwrap()); (w[2], a.max(b).max(c))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_contains() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w = [1, 2, 3]; (if w.contains(&2) { a } else { b }, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_position() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (v.iter().position(|x| *x > 1e6).map_or(a, |_| b), a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_option_chain() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let o = if a > 0.0 { Some(a) } else { None }; let r = o.filter(|x| *x > 0.5).map(|x| x + 1.0).or(Some(b)).unwrap_or_default(); (r, if a > 0.5 { a + 1.0 } else { b })
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_option_zip() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let o = Some(a).zip(Some(b)); (o.map_or(0.0, |(x, y)| x + y), a + b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_option_is_some_and() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let o = Some(a); (if o.is_some_and(|x| x > 0.0) { a } else { -a }, a.abs())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_option_take() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut o = Some(a); let x = o.take().unwrap(); (x + if o.is_none() { 1.0 } else { 0.0 }, a + 1.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_option_get_or() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut o = None; let x = *o.get_or_insert(a); (x, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_option_ok_or() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let o: Result<f64, ()> = Some(a).ok_or(()); (o.unwrap(), a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_option_let_else() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let Some(x) = v.get(7).or(v.get(1)) else { return }; (*x, b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_result_q() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            fn f(x: f64) -> Result<f64, String> { if x > 0.0 { Ok(x) } else { Err("neg".into()) } } fn g(x: f64) -> Result<f64, String> { let y = f(x)?; Ok(y + 1.0) } (g(a).unwrap_or(0.0), if a > 0.0 { a + 1.0 } else { 0.0 })
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_bool_then() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            ((a > 0.0).then(|| a).unwrap_or(-a), a.abs())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_bool_then_some() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            ((a > 0.0).then_some(a).unwrap_or(-a), a.abs())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_matches() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (if matches!(a.partial_cmp(&b), Some(std::cmp::Ordering::Less)) { a } else { b }, a.min(b))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_cmp_match() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let r = match a.partial_cmp(&b).unwrap() { std::cmp::Ordering::Less => a, _ => b }; (r, a.min(b))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_total_cmp() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let r = match a.total_cmp(&b) { std::cmp::Ordering::Less => a, _ => b }; (r, a.min(b))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_clamp() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (a.clamp(-1.0, 1.0), if a < -1.0 { -1.0 } else if a > 1.0 { 1.0 } else { a })
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_range_contains() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (if (-1.0..=1.0).contains(&a) { a } else { 0.0 }, if a >= -1.0 && a <= 1.0 { a } else { 0.0 })
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_range_contains2() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (if (-1.0..1.0).contains(&a) { a } else { 0.0 }, if a >= -1.0 && a < 1.0 { a } else { 0.0 })
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_mul_add() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (a.mul_add(b, c), a * b + c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_hypot() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (a.hypot(b), (a*a + b*b).sqrt())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_recip() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            ((a*a + 1.0).recip(), 1.0 / (a*a + 1.0))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_powi() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (a.powi(3) + a.powi(2), a*a*a + a*a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_powf() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            ((a*a+1.0).powf(2.0), (a*a + 1.0)*(a*a+1.0))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_powf_half() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            ((a*a+1.0).powf(0.5), (a*a + 1.0).sqrt())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_cbrt() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let x = a*a + 1.0; (x.cbrt().powi(3), x)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_signum() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (a.signum() * a.abs(), a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_copysign() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (a.abs().copysign(a), a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_is_sign_neg() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (if a.is_sign_negative() { -a } else { a }, a.abs())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_rem_euclid() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let x = a.rem_euclid(3.0); (x, a - 3.0 * (a / 3.0).floor())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_div_euclid() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let x = a.div_euclid(3.0); (x, (a / 3.0).floor())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_rem() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let x = a % 3.0; (x, a - 3.0 * (a / 3.0).trunc())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_fract() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (a.fract() + a.trunc(), a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_round() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            ((a.round() - (a + 0.5).floor()) * 0.0, 0.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_sin_cos() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let (s, k) = a.sin_cos(); (s*s + k*k, 1.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_to_rad() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (a.to_radians(), a * std::f64::consts::PI / 180.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_to_deg() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (a.to_degrees(), a * 180.0 / std::f64::consts::PI)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_tanh() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (a.sinh() / a.cosh(), a.tanh())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_ln_1p() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            ((a*a).ln_1p(), (1.0 + a*a).ln())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_exp_m1() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (a.exp_m1(), a.exp() - 1.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_exp_ln() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (a.exp().ln(), a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_atanh() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let x = a / 20.0; (x.atanh(), 0.5 * ((1.0 + x) / (1.0 - x)).ln())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_asinh() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (a.asinh().sinh(), a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_abs_sub() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            ((a - b).abs(), a.max(b) - a.min(b))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_is_finite() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (if a.is_finite() && !a.is_nan() { a } else { 0.0 }, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_f64_sum_ref() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: f64 = [&a, &b].into_iter().sum(); (s, a + b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_product() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (v[..3].iter().product::<f64>(), a*b*c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_closure_ref() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let f = |x: f64| x * b; (f(a), a*b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_closure_dyn() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let f: &dyn Fn(f64) -> f64 = &|x| x * b; (f(a), a*b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_closure_box() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let f: Box<dyn Fn(f64) -> f64> = Box::new(move |x| x * b); (f(a), a*b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_closure_mut() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut n = 0.0; let mut f = |x: f64| { n += x; }; f(a); f(b); (n, a+b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_fn_ptr() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            fn g(x: f64) -> f64 { x * 2.0 } let f: fn(f64) -> f64 = g; (f(a), 2.0*a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_impl_fn() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            fn ap(f: impl Fn(f64) -> f64, x: f64) -> f64 { f(x) } (ap(f64::sin, a), a.sin())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_array_map() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w = v.map(|x| x * 2.0); (w[3], 2.0*d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_array_from_fn() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w: [f64; 3] = std::array::from_fn(|i| v[i + 1]); (w[2], d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_array_try_into() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w: [f64; 2] = v[1..3].try_into().unwrap(); (w[1], c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_array_try_from() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w = <[f64; 2]>::try_from(&v[1..3]).unwrap(); (w[1], c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_array_eq() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (if [1.0, a] == [1.0, a] { a } else { 0.0 }, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_destruct() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let [p, q, .., r] = v; (p + q + r, a + b + e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_destruct_assign() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let (mut p, mut q) = (a, b); (p, q) = (q, p); p += 1.0; (p - q, b + 1.0 - a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_labeled() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut s = 0.0; 'o: for i in 0..5 { for j in 0..5 { if i + j == 6 { break 'o; } s += v[j]; } } (s - s, 0.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_loop_val() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut i = 0; let r = loop { i += 1; if i == 3 { break v[i]; } }; (r, d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_while_let() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut it = v.iter(); let mut s = 0.0; while let Some(x) = it.next() { s += x; } (s, a+b+c+d+e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_while_let_pop() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = v.to_vec(); let mut s = 0.0; while let Some(x) = w.pop() { s = s * 2.0 + x; } (s, a+2.0*(b+2.0*(c+2.0*(d+2.0*e))))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_peekable() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut it = v.iter().peekable(); let mut s = 0.0; while let Some(x) = it.next() { if let Some(y) = it.peek() { s += **y - x; } } (s, e - a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_const_arr() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            const K: [f64; 3] = [1.0, 2.0, 3.0]; (K.iter().zip(v).map(|(k, x)| k * x).sum::<f64>(), a + 2.0*b + 3.0*c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_static_arr() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            static K: [f64; 3] = [1.0, 2.0, 3.0]; (K[1] * a, 2.0 * a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_tuple_iter() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let (s, m) = v.iter().fold((0.0, 0.0), |(s, m), x| (s + x, m + 1.0)); (s / m, (a+b+c+d+e) / 5.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_u8_ops() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let n = (v.len() as u8).pow(2).min(20).wrapping_sub(1); (n as f64, 19.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_usize_ops() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let n = v.len().checked_sub(6).unwrap_or(3).saturating_sub(1); (n as f64, 2.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_usize_div() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let n = (v.len() + 1).div_ceil(2).abs_diff(7); (n as f64, 4.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_i32_ops() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let n = (v.len() as i32 - 7).abs().rem_euclid(2).signum(); (n as f64, 0.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_f64_from() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let n = f64::from(3u8) + f64::from(2i32); (n, 5.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_cow() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w: std::borrow::Cow<[f64]> = std::borrow::Cow::Borrowed(&v); (w[1], b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_rc() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w = std::rc::Rc::new(a); (*w + 1.0, a + 1.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_box_dyn() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            trait T { fn f(&self) -> f64; } impl T for f64 { fn f(&self) -> f64 { *self * 2.0 } } let t: Box<dyn T> = Box::new(a); (t.f(), 2.0 * a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_default() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let x: f64 = Default::default(); let (p, q): (f64, usize) = Default::default(); (x + p + q as f64, 0.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_unzip() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let (x, y): (Vec<f64>, Vec<f64>) = v.iter().map(|x| (*x, x * 2.0)).unzip(); (y[1] - x[1], b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_partition() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let (x, y): (Vec<f64>, Vec<f64>) = v.iter().partition(|x| **x > 1e7); (x.len() as f64 + y[4], e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_last() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (*v.iter().last().unwrap(), e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_nth() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (*v.iter().nth(2).unwrap(), c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_nth_back() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (*v.iter().nth_back(1).unwrap(), d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_cycle() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (v.iter().cycle().skip(4).take(2).sum::<f64>(), e + a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_sum_map_opt() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: Option<f64> = v.iter().map(|x| Some(*x)).sum(); (s.unwrap(), a+b+c+d+e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_collect_opt() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: Option<Vec<f64>> = v.iter().map(|x| Some(*x)).collect(); (s.unwrap()[1], b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_collect_res() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: Result<Vec<f64>, ()> = v.iter().map(|x| Ok(*x)).collect(); (s.unwrap()[1], b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_all_any() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (if v.iter().all(|x| x.is_finite()) && !v.iter().any(|x| x.is_nan()) { a } else { 0.0 }, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_cmp_iter() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (if v.iter().eq(v.iter()) { a } else { 0.0 }, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_min_f() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (f64::min(a, b) + f64::max(a, b), a + b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_std_cmp_max() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (std::cmp::max(1usize, v.len()) as f64, 5.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_vec_macro() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w = vec![0.0; 3]; (w[2] + a, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_str_eq() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (if "abc" == String::from("abc") { a } else { 0.0 }, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_iter_sum_usize() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let n: usize = [1usize, 2].iter().sum(); (n as f64, 3.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_slice_iter_ranges() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (v[1..].iter().sum::<f64>() + v[..=1].iter().sum::<f64>(), a+2.0*b+c+d+e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_split_at() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let (l, r) = v.split_at(2); (l[1] + r[0], b + c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_split_at_mut() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = v; let (l, r) = w.split_at_mut(2); l[0] = r[0]; (w[0], c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_chunk_mut() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = v; for p in w.chunks_exact_mut(2) { p[0] = p[1]; } (w[0] + w[2], b + d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_get_range() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (v.get(1..3).map_or(0.0, |s| s[1]), c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_binary_search() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w = [1.0, 2.0, 3.0]; (w.partition_point(|x: &f64| *x < 2.5) as f64, 2.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_array_iter_rev_enum() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut s = 0.0; for (i, x) in v.into_iter().rev().enumerate() { s += i as f64 * x; } (s, 4.0*a+3.0*b+2.0*c+d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_nested_closure() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let f = |x: f64| { let g = |y: f64| y * x; g(b) + g(c) }; (f(a), a*b+a*c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_rec_fn() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            fn r(n: usize, x: f64) -> f64 { if n == 0 { 1.0 } else { x * r(n - 1, x) } } (r(3, a), a*a*a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_generic_const() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            fn s<const N: usize>(x: [f64; N]) -> f64 { let mut t = 0.0; for i in 0..N { t += x[i]; } t } (s(v), a+b+c+d+e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_assert() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            assert!(v.len() == 5, "len"); debug_assert!(a == a); (a, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_assert_eq() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            assert_eq!(v.len(), 5); (a, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_mem_take() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = vec![a]; let x = std::mem::take(&mut w); (x[0] + w.len() as f64, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_copy_within() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = v; w.copy_within(0..2, 3); (w[4], b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_bitflags() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s = ((a > 0.0) as u8) | (((b > 0.0) as u8) << 1); (match s { 3 => a + b, 1 => a, 2 => b, _ => 0.0 }, if a > 0.0 { a } else { 0.0 } + if b > 0.0 { b } else { 0.0 })
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_bool_xor() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (if (a > 0.0) ^ (b > 0.0) { 1.0 } else { 0.0 }, if a > 0.0 && !(b > 0.0) || !(a > 0.0) && b > 0.0 { 1.0 } else { 0.0 })
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_bool_as_f64() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (f64::from(u8::from(a > 0.0)), if a > 0.0 { 1.0 } else { 0.0 })
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_as_i64() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            ((a.floor() as i64) as f64, a.floor())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_ops_trait() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            use std::ops::{Add, Mul, Sub, Neg, Div}; (a.add(b).mul(c).sub(d).neg().div(2.0), -((a + b) * c - d) / 2.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_ops_assign() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut x = a; x += b; x *= c; x -= d; x /= 2.0; (x, ((a + b) * c - d) / 2.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_opt_copied() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (v.first().copied().unwrap_or(0.0), a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_opt_as_ref() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let o = Some(a); (o.as_ref().map(|x| x * 2.0).unwrap(), 2.0*a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_opt_and_then() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (Some(a).and_then(|x| Some(x + 1.0)).map_or_else(|| 0.0, |x| x), a + 1.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_opt_xor() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (Some(a).xor(None).unwrap_or_else(|| b), a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_res_map_err() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let r: Result<f64, String> = Err::<f64, &str>("x").map_err(|s| s.to_string()); (r.unwrap_or_else(|_| a), a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_res_and_then() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let r: Result<f64, ()> = Ok(a).and_then(|x| Ok(x + 1.0)); (r.ok().unwrap(), a + 1.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_infinite_sum() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut t = 1.0; let mut s = 0.0; for k in 1..6u32 { t *= a / k as f64; s += t; } (s, a + a*a/2.0 + a*a*a/6.0 + a*a*a*a/24.0 + a*a*a*a*a/120.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_u32_powi() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut s = 0.0; for k in 0..3i32 { s += a.powi(k); } (s, 1.0 + a + a*a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_smallvec_like() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w: Vec<[f64; 2]> = vec![[a, b], [c, d]]; (w.iter().map(|p| p[0] * p[1]).sum::<f64>(), a*b + c*d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_iter_by_ref() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut it = v.iter(); let s: f64 = it.by_ref().take(2).sum(); let r: f64 = it.sum(); (s - r, a + b - c - d - e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_sum_of_opt_filter() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (v.iter().filter(|x| **x > 1e9).count() as f64, 0.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_min_by_key() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (*v.iter().zip([3, 1, 2]).min_by_key(|(_, k)| *k).unwrap().0, b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_row_slice() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let m = nalgebra::Matrix3::from_row_slice(&[a, b, c, d, e, a, b, c, d]); (m[(0, 1)] + m[(1, 0)], b + d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_from_rows_macro() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let m = nalgebra::matrix![a, b; c, d]; (m[(0, 1)], b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_vec_macro() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let m = nalgebra::vector![a, b, c]; (m[1] + m.z, b + c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_scalar_mul() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let m = nalgebra::Vector3::new(a, b, c); let w = m * d; let u = d * m; (w.y + u.x, b * d + a * d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_scalar_div() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let m = nalgebra::Vector3::new(a, b, c) / 2.0; (m.y, b / 2.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_mat_scalar() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let m = nalgebra::Matrix3::new(a, b, c, d, e, a, b, c, d) * 2.0; (m.m12, 2.0 * b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_neg() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let m = -nalgebra::Vector3::new(a, b, c); (m.y, -b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_sub() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let m = nalgebra::Vector3::new(a, b, c) - nalgebra::Vector3::new(d, e, a); (m.y, b - e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_dot() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (nalgebra::Vector3::new(a, b, c).dot(&nalgebra::Vector3::new(c, d, e)), a*c + b*d + c*e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_cross() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let m = nalgebra::Vector3::new(a, b, c).cross(&nalgebra::Vector3::new(c, d, e)); (m.x, b*e - c*d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_norm() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (nalgebra::Vector3::new(a, b, c).norm(), (a*a+b*b+c*c).sqrt())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_norm2() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (nalgebra::Vector3::new(a, b, c).norm_squared(), (a*a+b*b+c*c))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_zeros() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (nalgebra::Vector3::<f64>::zeros().x + nalgebra::Matrix3::<f64>::zeros()[(1, 1)], 0.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_transpose() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (nalgebra::Matrix3::new(a, b, c, d, e, a, b, c, d).transpose()[(0, 1)], d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_ref_mul() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let m = nalgebra::Matrix3::new(a, b, c, d, e, a, b, c, d); let x = nalgebra::Vector3::new(a, b, c); let y = &m * &x; let z = m * &x; (y[0] + z.y, a*a + b*b + c*c + d*a + e*b + a*c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_add_assign() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut x = nalgebra::Vector3::new(a, b, c); x += nalgebra::Vector3::new(d, e, a); x *= 2.0; (x.x, 2.0*(a + d))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_index_mut() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut x = nalgebra::Vector3::new(a, b, c); x[1] = d; x.x = e; (x.y + x[0], d + e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_mat_index_mut() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut x = nalgebra::Matrix3::<f64>::identity(); x[(0, 1)] = d; (x[(0, 1)] + x.m22, d + 1.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_from_arr() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let x = nalgebra::Vector3::from([a, b, c]); let y: [f64; 3] = x.into(); (y[1], b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_slice() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let x = nalgebra::Vector3::new(a, b, c); (x.as_slice()[2], c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_iter() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let x = nalgebra::Vector3::new(a, b, c); (x.iter().sum::<f64>(), a + b + c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_map() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let x = nalgebra::Vector3::new(a, b, c).map(|t| t * 2.0); (x.y, 2.0*b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_scale() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let x = nalgebra::Vector3::new(a, b, c).scale(d); (x.y, d*b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_det() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (nalgebra::Matrix3::new(a, b, c, d, e, a, b, c, d).determinant(), a*(e*d - a*c) - b*(d*d - a*b) + c*(d*c - e*b))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_mat_mat() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let m = nalgebra::Matrix3::new(a, b, c, d, e, a, b, c, d); ((m * m)[(0, 0)], a*a + b*d + c*b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_from_columns() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let m = nalgebra::Matrix3::from_columns(&[nalgebra::Vector3::new(a, b, c), nalgebra::Vector3::new(d, e, a), nalgebra::Vector3::new(b, c, d)]); (m[(0, 1)], d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_cross_matrix() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let m = nalgebra::Vector3::new(a, b, c).cross_matrix(); (m[(0, 1)], -c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_row() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let m = nalgebra::Matrix3::new(a, b, c, d, e, a, b, c, d); (m.row(1)[0] + m.column(1)[0], d + b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_component() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let x = nalgebra::Vector3::new(a, b, c).component_mul(&nalgebra::Vector3::new(c, d, e)); (x.y, b*d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_na_sum() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (nalgebra::Vector3::new(a, b, c).sum(), a+b+c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_sv_macro() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w: smallvec::SmallVec<[f64; 3]> = smallvec::smallvec![a, b]; (w[1] + w.len() as f64, b + 2.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_sv_n() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w: smallvec::SmallVec<[f64; 3]> = smallvec::smallvec![a; 3]; (w.iter().sum::<f64>(), 3.0*a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_sv_slice() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w: smallvec::SmallVec<[f64; 3]> = smallvec::SmallVec::from_slice(&[a, b]); (w[1], b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_sv_iter() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w: smallvec::SmallVec<[f64; 3]> = [a, b].into_iter().collect(); let mut s = 0.0; for x in &w { s += x; } for x in w { s += x; } (s, 2.0*(a + b))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_sv_push() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = smallvec::SmallVec::<[f64; 3]>::new(); w.push(a); w.extend([b, c]); (w[2], c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_sv_vec() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w = smallvec::SmallVec::<[f64; 3]>::from_vec(vec![a, b]); (w.to_vec()[1], b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_sv_frombuf() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w = smallvec::SmallVec::<[f64; 3]>::from([a, b, c]); (w[1], b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_user_iter2() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            struct C(f64, usize); impl Iterator for C { type Item = f64; fn next(&mut self) -> Option<f64> { if self.1 == 0 { None } else { self.1 -= 1; self.0 *= 2.0; Some(self.0) } } } let mut s = 0.0; for x in C(a, 3) { s += x; } for x in C(b, 3).zip(v) { s += x.0 * x.1; } (s, 14.0 * a + 2.0*b*a + 4.0*b*b + 8.0*b*c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_ret_impl_iter() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            fn it<'a>(v: &'a [f64]) -> impl Iterator<Item = f64> + 'a { v.iter().map(|x| x * 2.0) } (it(&v).sum::<f64>(), 2.0*(a+b+c+d+e))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_box_iter() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let it: Box<dyn Iterator<Item = &f64>> = Box::new(v.iter().rev()); (it.fold(0.0, |s, x| 2.0*s + x), a+2.0*(b+2.0*(c+2.0*(d+2.0*e))))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_vec_box_dyn() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            trait T { fn f(&self) -> f64; } impl T for f64 { fn f(&self) -> f64 { *self * 2.0 } } impl T for (f64, f64) { fn f(&self) -> f64 { self.0 + self.1 } } let t: Vec<Box<dyn T>> = vec![Box::new(a), Box::new((b, c))]; let s: f64 = t.iter().map(|x| x.f()).sum(); let l = t.last().map_or(0.0, |x| x.f()); (s + l, 2.0*a + 2.0*(b + c))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_vec_box_dyn_into() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            trait T { fn f(&self) -> f64; } impl T for f64 { fn f(&self) -> f64 { *self * 2.0 } } let t: Vec<Box<dyn T>> = vec![Box::new(a), Box::new(b)]; let mut s = 0.0; for x in t.into_iter().rev() { s = 2.0*s + x.f(); } (s, 2.0*a + 4.0*b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_rc_dyn() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            trait T { fn f(&self) -> f64; } impl T for f64 { fn f(&self) -> f64 { *self * 2.0 } } let t: std::rc::Rc<dyn T> = std::rc::Rc::new(a); let u = t.clone(); (t.f() + u.f(), 4.0 * a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_default_method() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            trait T { fn g(&self) -> f64; fn f(&self) -> f64 { self.g() + 1.0 } } struct S(f64); impl T for S { fn g(&self) -> f64 { self.0 } } let s: &dyn T = &S(a); (s.f(), a + 1.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_assoc_const() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            trait T { const K: f64; } struct S; impl T for S { const K: f64 = 2.0; } (S::K * a, 2.0 * a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_struct_update() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            #[derive(Clone, Copy, PartialEq, Debug)] struct S { x: f64, y: f64 } let s = S { x: a, y: b }; let u = S { x: c, ..s }; (u.x + u.y, c + b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_derive_eq() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            #[derive(Clone, Copy, PartialEq, PartialOrd, Debug)] struct S { x: f64, y: usize } let s = S { x: a, y: 1 }; (if s == s.clone() { a } else { 0.0 }, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_derive_default() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            #[derive(Default)] struct S { x: f64, y: usize, z: Option<f64>, w: Vec<f64> } let s = S::default(); (s.x + s.y as f64 + s.z.unwrap_or(a) + s.w.len() as f64, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_enum_data() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            enum S { A(f64), B { x: f64, y: f64 }, C } fn f(s: &S) -> f64 { match s { S::A(x) if *x > 0.0 => *x, S::A(x) => -x, S::B { x, y } => x * y, S::C => 1.0 } } (f(&S::A(a)) + f(&S::B { x: b, y: c }) + f(&S::C), a.abs() + b * c + 1.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_enum_discr() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            #[derive(Clone, Copy)] enum S { A = 1, B = 5 } ((S::A as i32 + S::B as i32) as f64, 6.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_match_tuple() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let r = match (a > 0.0, b > 0.0) { (true, true) => a + b, (true, false) => a, (false, true) => b, _ => 0.0 }; (r, if a > 0.0 { a } else { 0.0 } + if b > 0.0 { b } else { 0.0 })
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_match_range() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let n = v.len(); let r = match n { 0..=2 => a, 3 | 4 => b, 5.. => c }; (r, c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_match_float_guard() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let r = match a { x if x < -1.0 => -1.0, x if x > 1.0 => 1.0, x => x }; (r, a.clamp(-1.0, 1.0))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_match_float_range() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let r = match a { ..-1.0 => -1.0, -1.0..=1.0 => a, _ => 1.0 }; (r, a.clamp(-1.0, 1.0))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_let_chain() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let o = Some(a); let r = if let Some(x) = o && x > 0.0 { x } else { -a }; (r, a.abs())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_at_pattern() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let o = Some(3usize); let r = match o { Some(n @ 1..=4) => n as f64, _ => 0.0 }; (r, 3.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_ref_mut_fn() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            fn inc(x: &mut f64) { *x += 1.0; } let mut t = [a, b]; inc(&mut t[1]); for x in &mut t { inc(x); } (t[1], b + 2.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_ret_tuple() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            fn f(x: f64, y: f64) -> (f64, (f64, f64)) { (x, (y, x * y)) } let (p, (q, r)) = f(a, b); (p + q + r, a + b + a*b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_ret_array() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            fn f(x: f64) -> [f64; 3] { [x, x * x, x * x * x] } let [_, q, r] = f(a); (q + r, a*a + a*a*a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_early_return() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            fn f(x: f64) -> f64 { if x < 0.0 { return -x; } x } (f(a), a.abs())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_shadow() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let x = a; let x = x + 1.0; let x = { let x = x * 2.0; x - 1.0 }; (x, 2.0*a + 1.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_const_fn() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            const fn sq(n: usize) -> usize { n * n } const N: usize = sq(2); let w = [a; N]; (w.len() as f64 + w[3], 4.0 + a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_const_float() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            const K: f64 = 2.0 * std::f64::consts::PI / 360.0; (a * K, a.to_radians())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_static_slice() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            static T: &[(f64, &str)] = &[(1.0, "a"), (2.0, "b")]; let k = T.iter().find(|(_, n)| *n == "b").unwrap().0; (k * a, 2.0*a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_generic_trait() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            trait T { fn f(&self) -> f64; } impl T for f64 { fn f(&self) -> f64 { *self } } impl<A: T, B: T> T for (A, B) { fn f(&self) -> f64 { self.0.f() * self.1.f() } } ((a, (b, c)).f(), a*b*c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_impl_ops() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            #[derive(Clone, Copy)] struct V(f64, f64); impl std::ops::Add for V { type Output = V; fn add(self, o: V) -> V { V(self.0 + o.0, self.1 + o.1) } } impl std::ops::AddAssign for V { fn add_assign(&mut self, o: V) { *self = *self + o; } } impl std::ops::Neg for V { type Output = V; fn neg(self) -> V { V(-self.0, -self.1) } } impl std::iter::Sum for V { fn sum<I: Iterator<Item = V>>(i: I) -> V { i.fold(V(0.0, 0.0), |x, y| x + y) } } let mut s: V = [V(a, b), V(c, d)].into_iter().sum(); s += -V(e, e); (s.0 + s.1, a + b + c + d - 2.0*e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_impl_index() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            struct P([f64; 3]); impl std::ops::Index<usize> for P { type Output = f64; fn index(&self, i: usize) -> &f64 { &self.0[i] } } impl std::ops::Deref for P { type Target = [f64]; fn deref(&self) -> &[f64] { &self.0 } } let p = P([a, b, c]); (p[1] + p.iter().sum::<f64>() + p.len() as f64, b + a + b + c + 3.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_from_into() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            struct D(f64); impl From<D> for f64 { fn from(d: D) -> f64 { d.0 * 2.0 } } let x: f64 = D(a).into(); (x + f64::from(D(b)), 2.0*a + 2.0*b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_closure_ret() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            fn mkf(k: f64) -> impl Fn(f64) -> f64 { move |x| k * x } let f = mkf(a); (f(b) + f(c), a*b + a*c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_closure_compose() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            fn comp<A, B, C>(f: impl Fn(A) -> B, g: impl Fn(B) -> C) -> impl Fn(A) -> C { move |x| g(f(x)) } (comp(|x: f64| x + 1.0, |y: f64| y * 2.0)(a), 2.0*(a + 1.0))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_closure_boxret() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            fn mkf(k: f64) -> Box<dyn Fn(f64) -> f64> { Box::new(move |x| k * x) } let fs = vec![mkf(a), mkf(b)]; (fs.iter().fold(c, |x, f| f(x)), a*b*c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_closure_ref_arg() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            fn ap(f: &impl Fn(f64) -> f64, x: f64) -> f64 { f(x) + f(2.0) } (ap(&|x| x * a, b), a*b + 2.0*a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_method_ref() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: f64 = v.iter().copied().map(f64::abs).sum(); (s, v.iter().map(|x| x.abs()).sum())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_ctor_map() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            struct W(f64); let w: Vec<W> = v.iter().copied().map(W).collect(); (w[1].0, b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_some_map() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w: Vec<Option<f64>> = v.iter().copied().map(Some).collect(); (w.iter().flatten().sum::<f64>(), a+b+c+d+e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_opt_iter() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut s = 0.0; for x in Some(a) { s += x; } for x in &Some(b) { s += x; } (s + Some(c).iter().sum::<f64>() + Some(d).into_iter().chain(None).sum::<f64>(), a+b+c+d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_opt_match_ref() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let o: Option<(f64, f64)> = Some((a, b)); let r = match &o { Some((x, y)) => x * y, None => 0.0 }; (r, a*b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_opt_replace() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut o = Some(a); let p = o.replace(b); (p.unwrap() + o.unwrap(), a + b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_opt_insert() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut o = None; *o.insert(a) += 1.0; (o.unwrap(), a + 1.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_opt_as_mut() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut o = Some(a); if let Some(x) = o.as_mut() { *x += 1.0; } if let Some(ref mut x) = o { *x *= 2.0; } (o.unwrap(), 2.0*(a + 1.0))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_opt_map_or() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let o: Option<f64> = None; (o.map_or(a, |x| x) + o.map_or_else(|| b, |x| x), a + b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_opt_is_none_or() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (if Some(a).is_none_or(|x| x > 0.0) { a } else { -a }, a.abs())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_opt_ok_or_else() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let r: Result<f64, usize> = None.ok_or_else(|| 3); (match r { Ok(x) => x, Err(n) => n as f64 }, 3.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_opt_transpose() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let r: Option<Result<f64, ()>> = Some(Ok(a)); (r.transpose().unwrap().unwrap(), a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_opt_q() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            fn f(v: &[f64]) -> Option<f64> { let x = v.first()?; let y = v.get(1)?; Some(x + y) } (f(&v).unwrap() + f(&v[..1]).unwrap_or(0.0), a + b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_res_iter_q() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            fn f(v: &[f64]) -> Result<f64, usize> { let mut s = 0.0; for (i, x) in v.iter().enumerate() { if *x > 1e9 { return Err(i); } s += x; } Ok(s) } (f(&v).unwrap(), a+b+c+d+e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_res_unwrap_or_else() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let r: Result<f64, usize> = Err(2); (r.unwrap_or_else(|n| n as f64) + r.unwrap_or_default() + r.map_or(1.0, |x| x), 3.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_res_is_ok() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let r: Result<f64, usize> = Ok(a); (if r.is_ok() && !r.is_err() && r.is_ok_and(|x| x == a) { 1.0 } else { 0.0 }, 1.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_res_err() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let r: Result<f64, usize> = Err(2); (r.err().unwrap() as f64 + r.or_else(|n| Ok::<f64, ()>(n as f64)).unwrap(), 4.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_cell() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let x = std::cell::Cell::new(a); x.set(x.get() + 1.0); (x.get(), a + 1.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_cmp_reverse() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w = [3, 1, 2]; let m = w.iter().max().unwrap() + w.iter().min().unwrap(); (m as f64, 4.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_ord_then() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let o = 1.cmp(&2).then(3.cmp(&2)).reverse(); (if o.is_gt() { a } else { 0.0 }, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_partial_cmp_then() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let lt = a.partial_cmp(&b).is_some_and(|o| o.is_lt()); (if lt { a } else { b }, a.min(b))
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_abs_diff_eq() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            use approx::AbsDiffEq; (if a.abs_diff_eq(&b, 1.0) { 1.0 } else { 0.0 }, if (a - b).abs() <= 1.0 { 1.0 } else { 0.0 })
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_assert_msg() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            assert!(v.len() > 1, "need {} but {}", 2, v.len()); assert_ne!(v.len(), 0, "x"); (a, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_unreachable() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let r = match v.len() { 5 => a, _ => unreachable!("no") }; (r, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_expect() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (Some(a).expect("yes") + Ok::<f64, ()>(b).expect("ok"), a + b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_slice_to_owned() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w = v[1..3].to_owned(); (w[1], c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_slice_iter_as() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut it = v.iter(); it.next(); (it.as_slice()[0] + it.len() as f64, b + 4.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_slice_eq() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (if v[..2] == v[..2] { a } else { 0.0 }, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_slice_starts() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w = [1, 2, 3]; (if w.starts_with(&[1, 2]) && w.ends_with(&[3]) { a } else { 0.0 }, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_chunks_arr() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: f64 = v.chunks(2).map(|p| match p { [x, y] => x * y, [x] => *x, _ => 0.0 }).sum(); (s, a*b + c*d + e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_rchunks() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s = v.rchunks(2).next().unwrap()[0]; (s, d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_array_as_ref() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            fn f(x: impl AsRef<[f64]>) -> f64 { x.as_ref().iter().sum() } (f(v) + f(&v[..2]) + f(vec![a]), 2.0*(a + b) + c + d + e + a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_into_vec() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            fn f(x: impl Into<Vec<f64>>) -> f64 { x.into().len() as f64 } (f(v) + f(&v[..2]) + f(vec![a]), 8.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_array_concat() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w = [[a, b], [c, d]].concat(); (w[2], c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_as_flattened() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w = [[a, b], [c, d]]; (w.as_flattened()[2], c)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_each_ref() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w = v.each_ref(); (*w[1], b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_zip3() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: f64 = v.iter().zip(&v[1..]).zip(&v[2..]).map(|((x, y), z)| x * y * z).sum(); (s, a*b*c + b*c*d + c*d*e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_std_zip() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: f64 = std::iter::zip(&v, &v[1..]).map(|(x, y)| x * y).sum(); (s, a*b + b*c + c*d + d*e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_powi_var() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: f64 = (0..3).map(|i| v[i as usize] * a.powi(i)).sum(); (s, a + b*a + c*a*a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_f64_consts() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let x = a * std::f64::consts::TAU / std::f64::consts::PI + std::f64::consts::FRAC_PI_2 * 0.0 + f64::EPSILON * 0.0; (x, 2.0*a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_sqrt_sum() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            ((a*a).sqrt(), a.abs())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_mut_loop_idx() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut w = v; let n = w.len(); for i in 0..n / 2 { let t = w[i]; w[i] = w[n - 1 - i]; w[n - 1 - i] = t; } (w[0], e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_while_idx() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let (mut i, mut s) = (0, 0.0); while i < v.len() { s += v[i]; i += 1; if i == 3 { continue; } } (s, a+b+c+d+e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_dbl_loop() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut s = 0.0; for i in 0..2 { for j in i..2 { s += v[i] * v[j]; } } (s, a*a + a*b + b*b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_iter_skip_step() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s: f64 = v.iter().skip(1).step_by(2).copied().sum(); (s, b + d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_iter_max_len() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (v.iter().size_hint().0 as f64 + v.iter().len() as f64, 10.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_iter_last_back() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let mut it = v.iter(); let x = it.next_back().unwrap(); let y = it.next_back().unwrap(); (x - y, e - d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_iter_is_partitioned() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (v.iter().fold(true, |t, x| t && x.is_finite()) as u8 as f64, 1.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_try_for_each() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let r: Result<(), usize> = (0..5).try_for_each(|i| if i < 9 { Ok(()) } else { Err(i) }); (if r.is_ok() { a } else { 0.0 }, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_iter_fuse() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (v.iter().fuse().sum::<f64>(), a+b+c+d+e)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_from_iter() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w = Vec::from_iter(v); let u = Vec::from(v); let x: Vec<f64> = v.into(); (w[1] + u[2] + x[3], b + c + d)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_box_slice() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let w: Box<[f64]> = v.to_vec().into_boxed_slice(); let u: Box<[f64]> = v.iter().copied().collect(); (w[1] + u[2] + w.len() as f64, b + c + 5.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_ints_mix() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let n: usize = 7; let k = (n % 4, n / 2, n << 1, n >> 1, n & 3, n | 8, n ^ 1, !0u8); ((k.0 + k.1 + k.2 + k.3 + k.4 + k.5 + k.6 + k.7 as usize) as f64, (3 + 3 + 14 + 3 + 3 + 15 + 6 + 255) as f64)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_i32_neg() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let n = -(v.len() as i32); let m = n as i64 as f64; (m, -5.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_usize_range_sym() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let n = if a > 0.0 { 2 } else { 3 }; let mut s = 0.0; for i in 0..n { s += v[i]; } (s, if a > 0.0 { a + b } else { a + b + c })
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_swap_tuple() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let (lo, hi) = if a < b { (a, b) } else { (b, a) }; (hi - lo, (a - b).abs())
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_neg_zero() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (if a == 0.0 { 0.0 } else { a }, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_macro_local() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            macro_rules! sq { ($x:expr) => { $x * $x }; } (sq!(a + 1.0), a*a + 2.0*a + 1.0)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_unsafe_get() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            (unsafe { *v.get_unchecked(1) }, b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_phantom() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            struct S<T>(f64, std::marker::PhantomData<T>); let s = S::<u8>(a, std::marker::PhantomData); (s.0, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_nested_opt() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let o: Option<Option<f64>> = Some(Some(a)); (o.flatten().unwrap(), a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_str_match() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let n = "lon"; let r = match n { "lat" => a, "lon" => b, _ => c }; (r, b)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_to_string() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            let s = 1.to_string(); let t = String::new(); drop(s); drop(t); (a, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
    fn h_dbg_assert_eq() {
        let (a, b, c) = (vk::real("a", -10.0, 10.0), vk::real("b", -10.0, 10.0), vk::real("c", -10.0, 10.0));
        let (d, e) = (vk::real("d", -10.0, 10.0), vk::real("e", -10.0, 10.0));
        let v = [a, b, c, d, e];
        let (got, want): (f64, f64) = {
            debug_assert_eq!(1, 1); debug_assert!(a <= 10.0, "{a}"); (a, a)
        };
        vk::eq("same", got, want, 1e-9);
    }
}
