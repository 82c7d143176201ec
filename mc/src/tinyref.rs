//! boring arithmetic of F_{p^2} = F_p[i] and affine points of y^2 = x^3 + A x^2 + x
pub type E = (u64, u64);
pub type Pt = Option<(E, E)>;
pub struct T {
    pub p: u64,
    pub all: Vec<E>,
    inv: Vec<E>,
    pub root: Vec<Option<E>>,
}
impl T {
    pub fn new(p: u64) -> T {
        let all: Vec<E> = (0..p * p).map(|k| (k % p, k / p)).collect();
        let mut t = T { p, all: all.clone(), inv: vec![(0, 0); (p * p) as usize], root: vec![None; (p * p) as usize] };
        for x in all.iter() {
            let s = t.mul(*x, *x);
            let k = t.ix(s);
            if t.root[k].is_none() {
                t.root[k] = Some(*x);
            }
            if *x != (0, 0) {
                let n = (x.0 * x.0 + x.1 * x.1) % p;
                let mut ni = 1;
                for _ in 0..p - 2 {
                    ni = ni * n % p;
                }
                let k = t.ix(*x);
                t.inv[k] = (x.0 * ni % p, (p - x.1) % p * ni % p);
            }
        }
        t
    }
    pub fn ix(&self, x: E) -> usize {
        (x.0 + self.p * x.1) as usize
    }
    pub fn add(&self, a: E, b: E) -> E {
        ((a.0 + b.0) % self.p, (a.1 + b.1) % self.p)
    }
    pub fn sub(&self, a: E, b: E) -> E {
        ((a.0 + self.p - b.0) % self.p, (a.1 + self.p - b.1) % self.p)
    }
    pub fn mul(&self, a: E, b: E) -> E {
        let p = self.p;
        ((a.0 * b.0 + (p - a.1) * b.1) % p, (a.0 * b.1 + a.1 * b.0) % p)
    }
    pub fn inv(&self, a: E) -> E {
        self.inv[self.ix(a)]
    }
    pub fn rhs(&self, a: E, x: E) -> E {
        let x2 = self.mul(x, x);
        self.add(self.add(self.mul(x2, x), self.mul(a, x2)), x)
    }
    pub fn j(&self, a: E) -> E {
        let a2 = self.mul(a, a);
        let t = self.sub(a2, (3 % self.p, 0));
        let n = self.mul((256 % self.p, 0), self.mul(t, self.mul(t, t)));
        self.mul(n, self.inv(self.sub(a2, (4 % self.p, 0))))
    }
    pub fn padd(&self, a: E, x: Pt, y: Pt) -> Pt {
        let ((x1, y1), (x2, y2)) = match (x, y) {
            (None, q) => return q,
            (q, None) => return q,
            (Some(q), Some(r)) => (q, r),
        };
        let l = if x1 == x2 {
            if self.add(y1, y2) == (0, 0) {
                return None;
            }
            let x11 = self.mul(x1, x1);
            let n = self.add(self.add(self.mul((3 % self.p, 0), x11), self.mul((2, 0), self.mul(a, x1))), (1, 0));
            self.mul(n, self.inv(self.add(y1, y1)))
        } else {
            self.mul(self.sub(y2, y1), self.inv(self.sub(x2, x1)))
        };
        let x3 = self.sub(self.sub(self.mul(l, l), a), self.add(x1, x2));
        let y3 = self.sub(self.mul(l, self.sub(x1, x3)), y1);
        Some((x3, y3))
    }
    pub fn neg(&self, x: Pt) -> Pt {
        x.map(|(x, y)| (x, self.sub((0, 0), y)))
    }
    /// all points, the neutral element first
    pub fn points(&self, a: E) -> Vec<Pt> {
        let mut v = vec![None];
        for x in self.all.iter() {
            if let Some(y) = self.root[self.ix(self.rhs(a, *x))] {
                v.push(Some((*x, y)));
                if y != (0, 0) {
                    v.push(Some((*x, self.sub((0, 0), y))));
                }
            }
        }
        v
    }
    pub fn curves(&self) -> Vec<E> {
        let p = self.p;
        self.all.iter().copied().filter(|a| *a != (2 % p, 0) && *a != (p - 2, 0)).collect()
    }
}
