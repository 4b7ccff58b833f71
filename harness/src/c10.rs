//! C10: einsum and einsum_view.
//! Bounds: one operand of rank 0..=3, two operands of rank 0..=2 (thorough: 3), three operands of rank 0..=1 (thorough: 2), four of
//! rank 1, listed subscripts of five to seven operands, two views of the same memory, over the labels a, b, c (thorough: also d, and other letters), every output that is an ordered selection of the labels; label lengths
//! 1..=3 in several combinations; listed subscripts with up to six labels and lengths up to 17; listed subscripts with lengths up to 300 (thorough: 1025) and five symbolic elements per operand; all twelve layouts for the listed
//! subscripts; i32, f32, f64 throughout and the 14 numeric types for listed subscripts; element values bounded so that no intermediate
//! result overflows or rounds.  Rejections: all strings up to length 2 (thorough: 3; without the last three letters one more) over i, j, '.', ' ', '1' (and a non-ASCII letter).
//! Sums over an axis of length zero: one to three operands.
use crate::common::*;
use crate::rt::*;
use redstone_ml::*;

const L: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
fn text(s: &[u8]) -> &'static str { unsafe { std::mem::transmute(std::str::from_utf8_unchecked(s)) } }
fn find(s: &[u8], c: u8) -> Option<usize> {
    let mut i = 0;
    while i < s.len() { if s[i] == c { return Some(i); } i += 1; }
    None
}
/// all labels: output labels first, then the others; their lengths
fn labels<T: El>(ops: &[A<T>], subs: &[Vec<u8>], out: &[u8]) -> (Vec<u8>, Vec<usize>) {
    let mut ls = out.to_vec();
    let mut i = 0;
    while i < subs.len() {
        let mut j = 0;
        while j < subs[i].len() { if find(&ls, subs[i][j]).is_none() { ls.push(subs[i][j]); } j += 1; }
        i += 1;
    }
    let mut ds = vec![0; ls.len()];
    let mut i = 0;
    while i < subs.len() {
        let mut j = 0;
        while j < subs[i].len() { ds[find(&ls, subs[i][j]).unwrap()] = ops[i].shape()[j]; j += 1; }
        i += 1;
    }
    (ls, ds)
}
fn result<T: Num>(ops: &[A<T>], subs: &[Vec<u8>], out: &[u8], r: &NdArray<T>) {
    let (ls, ds) = labels(ops, subs, out);
    let oshape = ds[..out.len()].to_vec();
    let inner = ds[out.len()..].to_vec();
    let pos: Vec<Vec<usize>> = subs.iter().map(|s| s.iter().map(|&c| find(&ls, c).unwrap()).collect()).collect();
    let n = prod(&inner);
    check_array(r, &oshape, &|k| {
        let mut idx = unravel(k, &oshape);
        let mut acc = T::of(0);
        let mut t = 0;
        while t < n {
            idx.truncate(oshape.len());
            idx.extend(unravel(t, &inner));
            let mut term = T::of(1);
            let mut o = 0;
            while o < ops.len() {
                let mut e = 0;
                let mut j = 0;
                while j < pos[o].len() { e = e * ops[o].shape()[j] + idx[pos[o][j]]; j += 1; }
                term = term * ops[o].e(e);
                o += 1;
            }
            acc = acc + term;
            t += 1;
        }
        acc
    });
}
fn verify<T: Num>(ops: &[A<T>], subs: &[Vec<u8>], out: &[u8], r: &NdArray<T>) {
    result(ops, subs, out, r);
    let mut o = 0;
    while o < ops.len() { check_written(&ops[o], &|k| ops[o].e(k)); o += 1; }
}
type Call<T> = fn(&[&'static NdArray<'static, T>], &[&'static str], &'static str) -> NdArray<'static, T>;
macro_rules! call { ($t:ty) => { (|o, s, out| einsum(o, (s, out))) as Call<$t> } }
fn run<T: Num>(ops: &[A<T>], subs: &[Vec<u8>], out: &[u8], f: Call<T>) -> NdArray<'static, T> {
    let o: Vec<&'static NdArray<'static, T>> = ops.iter().map(|a| a.a()).collect();
    let s: Vec<&'static str> = subs.iter().map(|s| text(s)).collect();
    f(&o, &s, text(out))
}
fn build<T: Num>(subs: &[Vec<u8>], dims: &dyn Fn(u8) -> usize, lays: &[usize], hi: i64) -> Vec<A<T>> {
    let shapes: Vec<Vec<usize>> = subs.iter().map(|s| s.iter().map(|&c| dims(c)).collect()).collect();
    let ks: Vec<usize> = shapes.iter().map(|s| pick_layout_of(s, lays)).collect();
    shard();
    let mut v = vec![];
    let mut i = 0;
    while i < subs.len() { v.push(make_sym(&shapes[i], ks[i], -hi, hi)); i += 1; }
    v
}
/// subscripts of `n` operands with ranks up to `rmax` over `nl` labels (new labels appear in order unless `any`)
fn pick_subs(n: usize, rmin: usize, rmax: usize, nl: usize, any: bool) -> Vec<Vec<u8>> {
    let mut subs = vec![];
    let mut seen = 0;
    let mut i = 0;
    while i < n {
        let r = choice(rmin, rmax);
        let mut s = vec![];
        let mut j = 0;
        while j < r {
            let top = if any || seen >= nl { nl - 1 } else { seen };
            let c = choice(0, top);
            if c + 1 > seen { seen = c + 1; }
            s.push(L[c]);
            j += 1;
        }
        subs.push(s);
        i += 1;
    }
    subs
}
fn pick_out(subs: &[Vec<u8>]) -> Vec<u8> {
    let mut ls: Vec<u8> = vec![];
    let mut i = 0;
    while i < subs.len() {
        let mut j = 0;
        while j < subs[i].len() { if find(&ls, subs[i][j]).is_none() { ls.push(subs[i][j]); } j += 1; }
        i += 1;
    }
    let n = choice(0, ls.len());
    let mut out = vec![];
    let mut i = 0;
    while i < n { let c = choice(0, ls.len() - 1); out.push(ls.remove(c)); i += 1; }
    out
}
const DIMS: &[[usize; 4]] = &[[2, 3, 2, 2], [3, 2, 1, 2], [1, 2, 3, 2], [2, 2, 2, 1]];
fn general<T: Num>(n: usize, rmin: usize, rmax: usize, nl: usize, any: bool, pats: usize, lays: &[usize], f: Call<T>) {
    let subs = pick_subs(n, rmin, rmax, nl, any);
    let mut total = 0;
    let mut i = 0;
    while i < n { total += subs[i].len(); i += 1; }
    assume(total > 0); // all operands scalar: not supported by the library
    let out = pick_out(&subs);
    let d = DIMS[choice(0, pats - 1)];
    let ops: Vec<A<T>> = build(&subs, &|c| d[(c - b'a') as usize], lays, if n > 3 { 9 } else { 30 });
    let r = run(&ops, &subs, &out, f);
    verify(&ops, &subs, &out, &r);
}
fn split(s: &str) -> (Vec<Vec<u8>>, Vec<u8>) {
    let b = s.as_bytes();
    let mut subs = vec![vec![]];
    let mut i = 0;
    while b[i] != b'>' {
        if b[i] == b',' { subs.push(vec![]) } else { let n = subs.len(); subs[n - 1].push(b[i]) }
        i += 1;
    }
    (subs, b[i + 1..].to_vec())
}
/// listed subscripts; the lengths of the labels are given by position in `labels`
fn listed<T: Num>(list: &[&str], dims: &[usize], lays: &[usize], hi: i64, f: Call<T>) {
    let (subs, out) = split(pick(list));
    let rot = if dims.len() > 1 { choice(0, dims.len() - 1) } else { 0 };
    let ops: Vec<A<T>> = build(&subs, &|c| dims[(c as usize + rot) % dims.len()], lays, hi);
    let r = run(&ops, &subs, &out, f);
    verify(&ops, &subs, &out, &r);
}
/// the operands are views of the same memory
fn aliased<T: Num>(f: Call<T>) {
    let a: A<T> = make_sym(&[2, 2], pick(&[CONTIG, INNER]), -9, 9);
    let b: A<T> = make_sym(&[2, 2], CONTIG, -9, 9);
    let (subs, out) = split(pick(&["ij,jk>ik", "ij,ij>", "ij,ij>ji", "ij,kj>ik", "ij,ik>kj", "ij,jk,kl>il", "ij,j>i", "i,i>", "i,j>ij", "i,ij>j", "i,i,i>i"]));
    let mut ops: Vec<A<T>> = vec![];
    let mut i = 0;
    while i < subs.len() {
        // the second of three operands has memory of its own
        let own = i == 1 && subs.len() == 3;
        let (v, m) = part(if own { &b } else { &a });
        assume(m.shape.len() == subs[i].len());
        ops.push(A { hold: vec![v], base: if own { b.base.clone() } else { a.base.clone() }, m });
        i += 1;
    }
    let (ls, ds) = labels(&ops, &subs, &out);
    let mut i = 0;
    while i < subs.len() { let mut j = 0; while j < subs[i].len() { assume(ds[find(&ls, subs[i][j]).unwrap()] == ops[i].shape()[j]); j += 1; } i += 1; }
    shard();
    let r = run(&ops, &subs, &out, f);
    result(&ops, &subs, &out, &r);
    drop(ops);
    check_written(&a, &|k| a.e(k));
    check_written(&b, &|k| b.e(k));
}
fn views<T: Num>(rmax: usize, nl: usize, lays: &[usize], f: fn(&'static NdArray<'static, T>, (&str, &str)) -> Option<NdArray<'static, T>>) {
    let subs = pick_subs(1, 0, rmax, nl, true);
    let out = pick_out(&subs);
    let d = DIMS[choice(0, 2)];
    let ops: Vec<A<T>> = build(&subs, &|c| d[(c - b'a') as usize], lays, 100);
    let (a, s) = (&ops[0], &subs[0]);
    let r = f(a.a(), (text(s), text(&out)));
    let mut complete = true;
    let mut i = 0;
    while i < s.len() { if find(&out, s[i]).is_none() { complete = false; } i += 1; }
    check(r.is_some() == complete, OTHER);
    let v = match r { Some(v) => v, None => return };
    let oshape: Vec<usize> = out.iter().map(|&c| d[(c - b'a') as usize]).collect();
    let n = prod(&oshape);
    let mut offs = vec![];
    let mut k = 0;
    while k < n {
        let idx = unravel(k, &oshape);
        let src: Vec<usize> = s.iter().map(|&c| idx[find(&out, c).unwrap()]).collect();
        offs.push(a.m.at(&src));
        k += 1;
    }
    let m = M { shape: oshape, offs };
    check_slice(a, &v, &m);
}
const CH: &[&str] = &["i", "j", ".", " ", "1", "\u{e9}"];
fn pick_str(max: usize, nch: usize) -> String {
    let n = choice(0, max);
    let mut s = String::new();
    let mut i = 0;
    while i < n { s.push_str(CH[choice(0, nch - 1)]); i += 1; }
    s
}
/// (labels, has an ellipsis, is exactly its labels) or None if malformed
fn parse(s: &str) -> Option<(Vec<u8>, bool, bool)> {
    let b = s.as_bytes();
    let (mut ls, mut ell, mut plain) = (vec![], false, true);
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'i' || b[i] == b'j' { ls.push(b[i]); }
        else if b[i] == b' ' { plain = false; }
        else if b[i] == b'.' {
            if ell || i + 1 >= b.len() || b[i + 1] != b'.' { return None; }
            ell = true;
            plain = false;
            i += 1;
        } else { return None; }
        i += 1;
    }
    Some((ls, ell, plain))
}
fn reject(nops: usize, imax: usize, omax: usize, nch: usize, counts: bool) {
    let shapes: Vec<Vec<usize>> = (0..nops).map(|i| if nops == 1 { pick_shape(0, 2, 2) } else if i == 0 { vec![2] } else { pick_shape(1, 2, 2) }).collect();
    let nsub = if counts { choice(0, nops + 1) } else { nops };
    let strs: Vec<String> = (0..nsub).map(|_| pick_str(imax, nch)).collect();
    let ostr = pick_str(omax, nch);
    shard();
    let ops: Vec<A<f32>> = shapes.iter().map(|s| A::new(s, (0..prod(s)).map(|i| 1.0 + i as f32).collect())).collect();
    // is this a request we can give a meaning to?
    let (mut bad, mut plain) = (nsub != nops, true);
    let mut subs: Vec<Vec<u8>> = vec![];
    let mut i = 0;
    while i < nsub {
        match parse(&strs[i]) {
            None => { bad = true; subs.push(vec![]); }
            Some((ls, _, p)) => {
                if i < nops && ls.len() != shapes[i].len() { bad = true; } // too few or many labels, or a non-empty ellipsis (unsupported)
                plain &= p;
                subs.push(ls);
            }
        }
        i += 1;
    }
    let mut out = vec![];
    match parse(&ostr) { None => bad = true, Some((ls, _, p)) => { plain &= p; out = ls; } }
    let mut dim = [0usize; 128];
    let mut total = 0;
    let mut i = 0;
    while i < nops && !bad {
        let mut j = 0;
        while j < subs[i].len() {
            let c = subs[i][j] as usize;
            if dim[c] != 0 && dim[c] != shapes[i][j] { bad = true; }
            dim[c] = shapes[i][j];
            total += 1;
            j += 1;
        }
        i += 1;
    }
    let mut j = 0;
    while j < out.len() {
        if dim[out[j] as usize] == 0 { bad = true; }
        let mut l = 0;
        while l < j { if out[l] == out[j] { bad = true; } l += 1; }
        j += 1;
    }
    if !bad && (!plain || total == 0) { panic_ok() } else { panic_if(bad) }
    let o: Vec<&'static NdArray<'static, f32>> = ops.iter().map(|a| a.a()).collect();
    let s: Vec<&str> = strs.iter().map(|s| s.as_str()).collect();
    let r = einsum(&o, (&s, ostr.as_str()));
    panic_end();
    if !bad { verify(&ops, &subs, &out, &r); }
}
/// the view form rejects malformed requests as well
fn view_reject(imax: usize, omax: usize) {
    let shape = pick_shape(0, 2, 2);
    let (istr, ostr) = (pick_str(imax, 6), pick_str(omax, 6));
    shard();
    let a = A::<f32>::new(&shape, (0..prod(&shape)).map(|i| 1.0 + i as f32).collect());
    let (i, o) = (parse(&istr), parse(&ostr));
    let mut bad = i.is_none() || o.is_none();
    let mut plain = true;
    if !bad {
        let ((i, _, p), (o, _, q)) = (i.unwrap(), o.unwrap());
        plain = p && q;
        if i.len() != shape.len() { bad = true; }
        let mut j = 0;
        while j < o.len() {
            if find(&i, o[j]).is_none() || find(&o[j + 1..], o[j]).is_some() { bad = true; }
            j += 1;
        }
        if !bad && i.len() == 2 && i[0] == i[1] && shape[0] != shape[1] { bad = true; }
    }
    if !bad && !plain { panic_ok() } else { panic_if(bad) }
    let r = einsum_view(a.a(), (istr.as_str(), ostr.as_str()));
    panic_end();
    observe(r.is_some() as u64);
}
const L1: &[&str] = &["ii>i", "ij>ji", "ij>", "ij>i", "ij>j", "iij>j", "iji>ij", "ijk>kji", "ijk>ik", "ijk>j", "ijkl>ilkj", "ijij>ij", "ijkl>", "ijk>"];
const L2: &[&str] = &["ij,jk>ik", "ij,jk>ki", "ij,kj>ik", "ji,jk>ik", "ij,j>i", "i,ij>j", "i,j>ij", "i,j>ji", "i,i>", "i,i>i", "ij,ij>ij", "ij,ij>", "ij,ji>",
    "ij,j>ij", "bij,bjk>bik", "ijk,jil>kl", "ii,ij>j", "ij,>ij", "i,j>", "ij,jk>", "ijk,k>ij", "ij,kl>ijkl", "ij,kl>lkji", "ij,jk>j", "ij,kj>j"];
const L3: &[&str] = &["i,i,i>", "i,i,i>i", "i,j,k>ijk", "ij,jk,kl>il", "i,ij,j>", "ij,j,j>i", "i,i,i,i>", "i,j,k,l>", "a,b,c,d>dbca", "ij,ij,ij,ij>j"];
macro_rules! dtype {
    ($t:ty) => { listed::<$t>(&["ij,jk>ik", "i,i>", "ij>ji", "i,j>ij", "i,i,i>", "ij,j>i", "ij>", "ij,ij>ij"], &[2, 3, 2], &[CONTIG, STEP], if <$t as El>::W == 8 { 2 } else { 5 }, call!($t)) };
}
/// large operands, a few elements of each symbolic
fn big<T: Num>(list: &[&str], n: &[usize], f: Call<T>) {
    let (subs, out) = split(pick(list));
    let d = pick(n);
    let lays: &[usize] = if thorough() { FEW } else { &[CONTIG, SWAP] };
    let shapes: Vec<Vec<usize>> = subs.iter().map(|s| s.iter().map(|&c| match c { b'i' => d, b'j' => 3, b'k' => 20, _ => 2 }).collect()).collect();
    let ks: Vec<usize> = shapes.iter().map(|s| pick_layout_of(s, lays)).collect();
    shard();
    let mut ops = vec![];
    let mut i = 0;
    while i < subs.len() { ops.push(make_mixed(&shapes[i], ks[i], -9, 9)); i += 1; }
    let r = run(&ops, &subs, &out, f);
    verify(&ops, &subs, &out, &r);
}
const LB: &[&str] = &["i,i>", "i,i>i", "ij,i>j", "ij,jl>il", "ij,ij>i", "ij>j", "ij>i", "ij>", "ij,lj>il", "kj,jk>k", "kl,jk>jl", "i,>i", "i,i,i>i", "i,i,i>", "jk,k>j", "k,j>kj", "kl,kl,k>l", "ijl>lji"];
macro_rules! empties { ($t:ty) => {{
    let (m, n) = (choice(1, 3), choice(1, 3));
    let f = choice(0, 4);
    shard();
    let (a, b, c) = (empty::<$t>(&[m, 0]), empty::<$t>(&[0, n]), empty::<$t>(&[0]));
    let (r, s): (NdArray<$t>, Vec<usize>) = match f {
        0 => (einsum([&a, &b], (["ij", "jk"], "ik")), vec![m, n]),
        1 => (einsum([&a], (["ij"], "i")), vec![m]),
        2 => (einsum([&c, &c], (["i", "i"], "")), vec![]),
        3 => (einsum([&a, &c, &b], (["ij", "j", "jk"], "ki")), vec![n, m]),
        _ => (einsum([&b, &c], (["jk", "j"], "")), vec![]),
    };
    check_array(&r, &s, &|_| <$t>::of(0));
    observe(0);
}} }
harness! {
    h_c10_empty => if flip() { empties!(i32) } else { empties!(f32) };
    h_c10_big_f64 => big::<f64>(LB, &[257], call!(f64));
    h_c10_big_i32 => big::<i32>(LB, &[300], call!(i32));
    ht_c10_big_f32 => big::<f32>(LB, &[1025], call!(f32));
    h_c10_alias_i64 => aliased::<i64>(call!(i64));
    h_c10_alias_f64 => aliased::<f64>(call!(f64));
    h_c10_one_i32 => general::<i32>(1, 0, 3, 3, true, 3, if thorough() { ALL } else { &[CONTIG, SWAP] }, call!(i32));
    h_c10_one4 => general::<i64>(1, 4, 4, if thorough() { 4 } else { 2 }, true, 1, &[CONTIG], call!(i64));
    h_c10_two_i32 => general::<i32>(2, 0, 2, 3, true, 2, &[CONTIG], call!(i32));
    h_c10_two_f32 => general::<f32>(2, 0, 2, if thorough() { 4 } else { 3 }, false, if thorough() { 4 } else { 1 }, &[CONTIG, SWAP], call!(f32));
    ht_c10_two3 => general::<f64>(2, 1, 3, 3, false, 1, &[CONTIG], call!(f64));
    h_c10_three_f64 => general::<f64>(3, 0, if thorough() { 2 } else { 1 }, 3, false, if thorough() { 1 } else { 3 }, &[CONTIG], call!(f64));
    h_c10_four_i64 => general::<i64>(4, 1, 1, 4, false, 1, if thorough() { &[CONTIG, STEP] } else { &[STEP] }, call!(i64));
    h_c10_list1_f32 => listed::<f32>(L1, &[2], if thorough() { ALL } else { &[CONTIG, STEP, SWAP, INNER, BCAST0, DIAG, GAPS, REV] }, 100, call!(f32));
    h_c10_list2_f32 => listed::<f32>(L2, &[2, 3], if thorough() { MOST } else { &[CONTIG, SWAP, BCASTL] }, 100, call!(f32));
    h_c10_list2_i32 => listed::<i32>(L2, &[2], if thorough() { ALL } else { &[CONTIG, STEP, BCAST0, GAPS] }, 100, call!(i32));
    h_c10_list2_f64 => listed::<f64>(L2, &[3, 1, 2], if thorough() { MOST } else { &[CONTIG, INNER] }, 100, call!(f64));
    h_c10_list3_f32 => listed::<f32>(L3, &[2], &[CONTIG, STEP], 12, call!(f32));
    h_c10_list3_i64 => listed::<i64>(L3, &[3, 2], &[CONTIG], 12, call!(i64));
    h_c10_case => listed::<i32>(&["aB,Bc>ca", "Zz,zZ>", "Ai,iB>BA", "xX>Xx", "iI>", "Yy>y", "yY>y", "AbC,CbA>bA", "za,aZ>Zz"], &[2, 3], &[CONTIG], 100, call!(i32));
    h_c10_many => listed::<i32>(&["abc,cde>abde", "abcd,dcef>feba", "abcde>edcba", "abcdef>fa", "abc,bcd,ade>e", "abcabc>cab", "abcd,abcd>", "abcd,ae,bf>fecd"], &[2], &[CONTIG, STEP], 30, call!(i32));
    h_c10_five => listed::<i64>(&["i,i,i,i,i>i", "i,i,i,i,i>", "i,j,i,j,i>ij", "ij,j,jk,k,i>ik", "i,j,k,l,i>lj", "i,i,i,i,i,i>i", "i,i,i,i,i,i>", "ij,ij,i,j,i,j,ij>ji"], if thorough() { &[2, 3] } else { &[2] }, &[CONTIG], 3, call!(i64));
    h_c10_wide_f32 => listed::<f32>(&["i,i>", "i,i>i", "ij,jk>ik", "ij,j>i", "i,ij>j", "ij,ij>", "ij>j", "i,j>ij", "ij,kj>ik", "i,i,i>", "i,>i", "i,j>i", ",i>", "ij,i>j"], if thorough() { &[17, 2, 33] } else { &[9, 2, 17] }, &[CONTIG, STEP], 30, call!(f32));
    h_c10_wide_i32 => listed::<i32>(&["i,i>", "i,i>i", "ij,jk>ik", "ij,j>i", "i,ij>j", "ij,ij>", "ij>j", "i,j>ij", "i,i,i>", "i,>i", "i,j>i"], &[8, 2, 9], &[CONTIG, SWAP], 30, call!(i32));
    h_c10_i8 => dtype!(i8);
    h_c10_i16 => dtype!(i16);
    h_c10_i128 => dtype!(i128);
    h_c10_isize => dtype!(isize);
    h_c10_u8 => dtype!(u8);
    h_c10_u16 => dtype!(u16);
    h_c10_u32 => dtype!(u32);
    h_c10_u64 => dtype!(u64);
    h_c10_u128 => dtype!(u128);
    h_c10_usize => dtype!(usize);
    h_c10_f64 => dtype!(f64);
    h_c10_view_i32 => views::<i32>(if thorough() { 4 } else { 3 }, 3, &[CONTIG, SWAP, INNER, GAPS], |a, s| einsum_view(a, s));
    h_c10_view_f32 => views::<f32>(2, 2, ALL, |a, s| einsum_view(a, s));
    h_c10_reject_one => reject(1, if thorough() { 3 } else { 2 }, 2, 6, false);
    h_c10_view_reject => view_reject(if thorough() { 3 } else { 2 }, 2);
    h_c10_reject_two => reject(2, 2, 2, 3, false);
    h_c10_reject_ell => reject(1, if thorough() { 4 } else { 3 }, 3, 3, false);
    h_c10_reject_count => reject(2, 1, 1, 2, true);
}
