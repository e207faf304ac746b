//! Index <-> case helpers for complete enumeration.

/// Mixed-radix digits of `idx` (least significant first).
pub fn digits(mut idx: u64, radix: u64, n: usize) -> Vec<usize> {
    (0..n)
        .map(|_| {
            let d = (idx % radix) as usize;
            idx /= radix;
            d
        })
        .collect()
}
pub fn take(idx: &mut u64, radix: u64) -> usize {
    let d = *idx % radix;
    *idx /= radix;
    d as usize
}
pub fn pow(b: u64, e: u32) -> u64 {
    b.pow(e)
}
pub fn binom(n: u64, k: u64) -> u64 {
    if k > n {
        return 0;
    }
    let mut r = 1u64;
    for i in 0..k {
        r = r * (n - i) / (i + 1);
    }
    r
}
/// idx-th k-subset of 0..n in lexicographic order.
pub fn combo(mut idx: u64, n: u64, k: u64) -> Vec<usize> {
    let mut v = Vec::with_capacity(k as usize);
    let mut x = 0u64;
    for i in 0..k {
        loop {
            let c = binom(n - x - 1, k - i - 1);
            if idx < c {
                v.push(x as usize);
                x += 1;
                break;
            }
            idx -= c;
            x += 1;
        }
    }
    v
}
pub fn fact(n: u64) -> u64 {
    (1..=n).product()
}
/// idx-th permutation of 0..n.
pub fn perm(mut idx: u64, n: usize) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut v = Vec::with_capacity(n);
    for i in (1..=n).rev() {
        let f = fact(i as u64 - 1);
        let k = (idx / f) as usize;
        idx %= f;
        v.push(pool.remove(k));
    }
    v
}
pub fn all_perms(n: usize) -> Vec<Vec<usize>> {
    (0..fact(n as u64)).map(|i| perm(i, n)).collect()
}
pub fn perm_parity(p: &[usize]) -> i32 {
    let mut s = 1;
    for i in 0..p.len() {
        for j in i + 1..p.len() {
            if p[i] > p[j] {
                s = -s;
            }
        }
    }
    s
}
