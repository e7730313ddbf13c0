//! What a pinhole camera sees of triangles, from first principles; and a decoder of baseline JPEG
type P = [f64; 3];
fn sub(a: P, b: P) -> P { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn dot(a: P, b: P) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: P, b: P) -> P { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn unit(a: P) -> P { let l = dot(a, a).sqrt(); [a[0] / l, a[1] / l, a[2] / l] }
#[derive(Clone, Copy, Debug)]
pub struct Tri { pub v: [P; 3], pub rgb: P }
#[derive(Clone, Copy, Debug)]
pub struct Look { pub p: P, pub d: P, pub up: P, pub fov: f64, pub w: usize, pub h: usize }
impl Look {
    /// the direction of what is at column x and row y, from the left and the top
    pub fn ray(&self, x: usize, y: usize) -> P {
        let f = unit(self.d);
        let r = unit(cross(f, self.up));
        let u = cross(r, f);
        let t = (self.fov.to_radians() / 2.).tan();
        let a = ((x as f64 + 0.5) / self.w as f64 * 2. - 1.) * t;
        let b = (1. - (y as f64 + 0.5) / self.h as f64 * 2.) * t * self.h as f64 / self.w as f64;
        unit([f[0] + r[0] * a + u[0] * b, f[1] + r[1] * a + u[1] * b, f[2] + r[2] * a + u[2] * b])
    }
}
/// the colour of the nearest triangle along a ray (black if there is none); None too close to an edge or to a tie to tell
pub fn seen(tris: &[Tri], o: P, d: P) -> Option<P> {
    let mut best: Option<(f64, P)> = None;
    let mut tie = f64::MAX;
    for t in tris {
        let (e1, e2) = (sub(t.v[1], t.v[0]), sub(t.v[2], t.v[0]));
        let n = cross(e1, e2);
        let c = dot(n, d) / dot(n, n).sqrt();
        let k = sub(t.v[0], o);
        if c.abs() < 1e-3 {
            // seen edge-on: whether anything of it is seen is not told here, if the ray passes near
            let reach = t.v.iter().map(|v| dot(sub(*v, o), sub(*v, o)).sqrt()).fold(0., f64::max);
            if (dot(n, k) / dot(n, n).sqrt()).abs() < 2e-3 * reach { return None }
            continue;
        }
        let s = dot(n, k) / dot(n, d);
        let p = [o[0] + d[0] * s, o[1] + d[1] * s, o[2] + d[2] * s];
        let b: Vec<f64> = (0..3).map(|i| dot(cross(sub(t.v[(i + 1) % 3], t.v[i]), sub(p, t.v[i])), n) / dot(n, n)).collect();
        let m = b.iter().cloned().fold(f64::MAX, f64::min);
        if m > -1e-6 && s > -1e-6 && (m < 1e-6 || s < 1e-3) { return None }
        if m < 0. || s < 0. { continue }
        match best {
            Some((q, _)) if q <= s => tie = tie.min(s - q),
            Some((q, _)) => { tie = tie.min(q - s); best = Some((s, t.rgb)) }
            None => best = Some((s, t.rgb)),
        }
    }
    if tie < 1e-4 { return None }
    Some(best.map_or([0.; 3], |b| b.1))
}

struct Huff { codes: Vec<(u8, u16, u8)> }
struct Bits<'a> { d: &'a [u8], p: usize, n: u32, b: u32 }
impl Bits<'_> {
    fn bit(&mut self) -> Result<u32, String> {
        if self.n == 0 {
            let x = *self.d.get(self.p).ok_or("ends early")?;
            self.p += 1;
            if x == 0xff { if self.d.get(self.p) != Some(&0) { return Err("a marker inside the picture".into()) } self.p += 1; }
            self.b = x as u32;
            self.n = 8;
        }
        self.n -= 1;
        Ok(self.b >> self.n & 1)
    }
    fn sym(&mut self, h: &Huff) -> Result<u8, String> {
        let (mut c, mut l) = (0u16, 0u8);
        while l < 16 {
            c = c << 1 | self.bit()? as u16;
            l += 1;
            if let Some(x) = h.codes.iter().find(|x| x.0 == l && x.1 == c) { return Ok(x.2) }
        }
        Err("an unknown code".into())
    }
    fn num(&mut self, n: u8) -> Result<i32, String> {
        if n == 0 { return Ok(0) }
        let mut v = 0i32;
        for _ in 0..n { v = v << 1 | self.bit()? as i32; }
        Ok(if v < 1 << (n - 1) { v - (1 << n) + 1 } else { v })
    }
}
const ZZ: [usize; 64] = [0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63];
/// width, height and the RGB pixels of a baseline JPEG that does not subsample its colours
pub fn jpeg(d: &[u8]) -> Result<(usize, usize, Vec<P>), String> {
    if d.get(..2) != Some(&[0xff, 0xd8]) { return Err("not a JPEG".into()) }
    let (mut q, mut hs, mut p) = (vec![vec![0f64; 64]; 4], Vec::<(u8, Huff)>::new(), 2);
    let (mut w, mut h, mut comps) = (0, 0, Vec::<(u8, u8)>::new());
    loop {
        if d.get(p) != Some(&0xff) { return Err(format!("no marker at {p}")) }
        let m = *d.get(p + 1).ok_or("ends early")?;
        let n = u16::from_be_bytes([*d.get(p + 2).ok_or("ends early")?, *d.get(p + 3).ok_or("ends early")?]) as usize;
        let s = d.get(p + 4..p + 2 + n).ok_or("ends early")?;
        p += 2 + n;
        match m {
            0xdb => { let mut k = 0; while k < s.len() { if s[k] >> 4 != 0 { return Err("wide quantisation".into()) } for i in 0..64 { q[(s[k] & 3) as usize][ZZ[i]] = *s.get(k + 1 + i).ok_or("short table")? as f64; } k += 65; } }
            0xc4 => { let mut k = 0; while k < s.len() {
                let (id, l) = (s[k], s.get(k + 1..k + 17).ok_or("short table")?);
                let (mut c, mut codes, mut j) = (0u16, vec![], k + 17);
                for (b, x) in l.iter().enumerate() { for _ in 0..*x { codes.push((b as u8 + 1, c, *s.get(j).ok_or("short table")?)); c = c.wrapping_add(1); j += 1; } c <<= 1; }
                hs.retain(|x| x.0 != id);
                hs.push((id, Huff { codes }));
                k = j;
            } }
            0xc0 => { h = u16::from_be_bytes([s[1], s[2]]) as usize; w = u16::from_be_bytes([s[3], s[4]]) as usize; for c in s[6..].chunks(3) { if c[1] != 0x11 { return Err("subsampled".into()) } comps.push((c[0], c[2])); } if comps.len() != 3 { return Err("not three components".into()) } }
            0xc1..=0xc3 | 0xc5..=0xcf => return Err("not baseline".into()),
            0xda => {
                let ns = s[0] as usize;
                if ns != 3 { return Err("not interleaved".into()) }
                let tab: Vec<u8> = (0..3).map(|i| s[2 + 2 * i]).collect();
                let (bw, bh) = ((w + 7) / 8, (h + 7) / 8);
                let mut planes = vec![vec![0f64; bw * bh * 64]; 3];
                let mut bits = Bits { d, p, n: 0, b: 0 };
                let mut pred = [0i32; 3];
                let cs: Vec<f64> = (0..64).map(|k| ((2 * (k / 8) + 1) as f64 * (k % 8) as f64 * std::f64::consts::PI / 16.).cos() * if k % 8 == 0 { 0.5f64.sqrt() } else { 1. } / 2.).collect();
                for b in 0..bw * bh {
                    for c in 0..3 {
                        let find = |id: u8| hs.iter().find(|x| x.0 == id).map(|x| &x.1).ok_or("no table");
                        let (dc, ac) = (find(tab[c] >> 4)?, find(0x10 | tab[c] & 15)?);
                        let mut f = [0f64; 64];
                        let t = bits.sym(dc)?;
                        pred[c] += bits.num(t)?;
                        let qt = &q[comps[c].1 as usize & 3];
                        f[0] = pred[c] as f64 * qt[0];
                        let mut k = 1;
                        while k < 64 {
                            let r = bits.sym(ac)?;
                            if r == 0 { break }
                            k += (r >> 4) as usize;
                            if r & 15 == 0 { k += 1; continue }
                            if k > 63 { return Err("too many coefficients".into()) }
                            f[ZZ[k]] = bits.num(r & 15)? as f64 * qt[ZZ[k]];
                            k += 1;
                        }
                        for y in 0..8 { for x in 0..8 {
                            let v: f64 = (0..64).filter(|k| f[*k] != 0.).map(|k| f[k] * cs[y * 8 + k / 8] * cs[x * 8 + k % 8]).sum();
                            planes[c][(b / bw * 8 + y) * bw * 8 + b % bw * 8 + x] = v + 128.;
                        } }
                    }
                }
                let px = (0..w * h).map(|i| {
                    let k = i / w * bw * 8 + i % w;
                    let (y, cb, cr) = (planes[0][k], planes[1][k] - 128., planes[2][k] - 128.);
                    [y + 1.402 * cr, y - 0.344136 * cb - 0.714136 * cr, y + 1.772 * cb].map(|v| v.clamp(0., 255.))
                }).collect();
                return Ok((w, h, px));
            }
            _ => {}
        }
    }
}
