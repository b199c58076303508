use ark_ff::{Fp, Fp64, MontBackend, MontConfig, PrimeField};
use std::collections::HashMap;

// Small fields: every value, and every coincidence of values, comes up.
#[derive(MontConfig)]
#[modulus = "17"]
#[generator = "3"]
pub struct C17;
pub type F17 = Fp64<MontBackend<C17, 1>>;
#[derive(MontConfig)]
#[modulus = "101"]
#[generator = "2"]
pub struct C101;
pub type F101 = Fp64<MontBackend<C101, 1>>;
// A field wider than every shipped one: 2^521 - 1.
#[derive(MontConfig)]
#[modulus = "6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"]
#[generator = "3"]
pub struct C521;
pub type F521 = Fp<MontBackend<C521, 9>, 9>;

/// Numbers that occur in the sources (HARNESS_DICT, comma-separated); usually none.
pub fn dict() -> &'static [u128] {
    static D: std::sync::OnceLock<Vec<u128>> = std::sync::OnceLock::new();
    D.get_or_init(|| std::env::var("HARNESS_DICT").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect())
}
/// String and character literals of the sources (HARNESS_WORDS, hex, comma-separated); usually none.
pub fn words() -> &'static [String] {
    static D: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let b = |x: &str| (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).ok()).collect::<Option<Vec<u8>>>();
        std::env::var("HARNESS_WORDS").unwrap_or_default().split(',').filter_map(|x| String::from_utf8(b(x)?).ok()).filter(|x| !x.is_empty()).collect()
    })
}
/// A number of the dictionary or a neighbour, if it is at most max.
pub fn pick(r: &mut Rng, max: usize) -> Option<usize> {
    if dict().is_empty() {
        return None;
    }
    let n = dict()[r.below(dict().len())];
    let n = match r.below(6) { 0 => n + 1, 1 => n.saturating_sub(1), 2 => n / 2, 3 => 2 * (n & (u128::MAX >> 1)), _ => n };
    if n <= max as u128 { Some(n as usize) } else { None }
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// Below b, now and then (once in k) below a.
    pub fn upto(&mut self, k: usize, a: usize, b: usize) -> usize {
        let n = if self.below(k) == 0 { a } else { b };
        self.below(n)
    }
    pub fn field<F: PrimeField>(&mut self) -> F {
        let mut b = vec![];
        for _ in 0..8 {
            b.extend_from_slice(&self.next().to_le_bytes());
        }
        F::from_le_bytes_mod_order(&b)
    }
    /// Values at which carries, reductions and special cases sit.
    pub fn edge<F: PrimeField>(&mut self) -> F {
        let bits = F::MODULUS_BIT_SIZE as usize;
        let two = F::from(2u64);
        let v = match self.below(7) {
            0 => two.pow([self.below(bits) as u64]),
            1 => two.pow([self.below(bits) as u64]) - F::one(),
            2 => F::from(self.next()),
            3 => F::from(self.next()) * two.pow([64 * self.below(bits / 64 + 1) as u64]),
            4 => two.inverse().unwrap_or(F::one()),
            5 => F::from(self.below(300) as u64),
            _ => F::from(self.next() >> 32),
        };
        if self.below(3) == 0 { -v } else { v }
    }
    pub fn word<F: PrimeField>(&mut self) -> F {
        let d = dict();
        let v = F::from(d[self.below(d.len())]);
        match self.below(8) { 0 => -v, 1 => v + F::one(), 2 => F::zero(), 3 => F::one(), 4 => self.field(), _ => v }
    }
    /// A vector of inputs; edge values and repetitions are frequent.
    pub fn vec<F: PrimeField>(&mut self, n: usize) -> Vec<F> {
        let style = self.below(if dict().is_empty() { 9 } else { 13 });
        let base: F = self.field();
        (0..n)
            .map(|i| match style {
                0 => F::zero(),
                1 => F::one(),
                2 => F::from(i as u64),
                3 => -F::one(),
                4 => match self.below(6) {
                    0 => F::zero(),
                    1 => F::one(),
                    2 => -F::one(),
                    3 => base,
                    4 => F::from(self.below(300) as u64),
                    _ => self.field(),
                },
                8 => self.edge(),
                9..=12 => self.word(),
                _ => self.field(),
            })
            .collect()
    }
    pub fn mat<F: PrimeField>(&mut self, r: usize, c: usize) -> Vec<Vec<F>> {
        let style = self.below(if dict().is_empty() { 4 } else { 6 });
        (0..r)
            .map(|_| {
                (0..c)
                    .map(|_| match style {
                        0 => F::from(self.below(4) as u64),
                        4 => self.word(),
                        _ => self.field(),
                    })
                    .collect()
            })
            .collect()
    }
}

pub struct Case {
    pub text: String,
    pub kind: String,
    pub kv: HashMap<String, String>,
}
impl Case {
    pub fn parse(s: &str) -> Case {
        let mut it = s.split_whitespace();
        let kind = it.next().unwrap_or("").to_string();
        let mut kv = HashMap::new();
        for w in it {
            if let Some((k, v)) = w.split_once('=') {
                kv.insert(k.to_string(), v.to_string());
            }
        }
        Case { text: s.to_string(), kind, kv }
    }
    pub fn s(&self, k: &str) -> &str {
        self.kv.get(k).map(|x| x.as_str()).unwrap_or("")
    }
    pub fn n(&self, k: &str) -> usize {
        self.kv.get(k).and_then(|x| x.parse().ok()).unwrap_or(0)
    }
    pub fn rng(&self) -> Rng {
        Rng(self.n("seed") as u64 ^ 0x1234567)
    }
    /// Explicit field values: comma-separated decimals.
    pub fn vals<F: PrimeField>(&self, k: &str) -> Option<Vec<F>> {
        let v = self.kv.get(k)?;
        Some(v.split(',').filter(|x| !x.is_empty()).map(|x| dec::<F>(x)).collect())
    }
}

pub fn dec<F: PrimeField>(s: &str) -> F {
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let ten = F::from(10u64);
    let mut r = F::zero();
    for c in s.bytes() {
        r = r * ten + F::from((c - b'0') as u64);
    }
    if neg {
        -r
    } else {
        r
    }
}

pub fn show<F: PrimeField>(v: &[F]) -> String {
    v.iter().map(|x| x.into_bigint().to_string()).collect::<Vec<_>>().join(",")
}

/// Run f, turning a panic into None.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

// ------------------------------------------------------------------ reading derived Debug output
#[derive(Debug, Clone)]
pub enum D {
    Num(String),
    List(Vec<D>),
    Struct(Vec<(String, D)>),
}

/// Values of a `{:?}` text: structs, lists, numbers; `BigInt([..])` / `BigInteger256([..])` become numbers.
pub struct DP<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> DP<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() {
            self.i += 1;
        }
    }
    fn val(&mut self) -> Option<D> {
        self.ws();
        let c = *self.s.get(self.i)? as char;
        if c == '[' {
            self.i += 1;
            let mut v = vec![];
            loop {
                self.ws();
                if *self.s.get(self.i)? == b']' {
                    self.i += 1;
                    return Some(D::List(v));
                }
                v.push(self.val()?);
                self.ws();
                if *self.s.get(self.i)? == b',' {
                    self.i += 1;
                }
            }
        }
        if c.is_ascii_digit() {
            let a = self.i;
            while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                self.i += 1;
            }
            return Some(D::Num(String::from_utf8_lossy(&self.s[a..self.i]).into()));
        }
        if c.is_ascii_alphabetic() || c == '_' {
            let a = self.i;
            while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
                self.i += 1;
            }
            let name = String::from_utf8_lossy(&self.s[a..self.i]).to_string();
            self.ws();
            match self.s.get(self.i).map(|x| *x) {
                Some(b'(') => {
                    self.i += 1;
                    let v = self.val()?;
                    self.ws();
                    if *self.s.get(self.i)? != b')' {
                        return None;
                    }
                    self.i += 1;
                    if name.starts_with("BigInt") {
                        if let D::List(l) = &v {
                            return Some(D::Num(limbs(l)));
                        }
                    }
                    return Some(v);
                }
                Some(b'{') => {
                    self.i += 1;
                    let mut f = vec![];
                    loop {
                        self.ws();
                        if *self.s.get(self.i)? == b'}' {
                            self.i += 1;
                            return Some(D::Struct(f));
                        }
                        let a = self.i;
                        while self.i < self.s.len() && self.s[self.i] != b':' {
                            self.i += 1;
                        }
                        let k = String::from_utf8_lossy(&self.s[a..self.i]).trim().to_string();
                        self.i += 1;
                        f.push((k, self.val()?));
                        self.ws();
                        if *self.s.get(self.i)? == b',' {
                            self.i += 1;
                        }
                    }
                }
                _ => return Some(D::Num(name)),
            }
        }
        None
    }
}

fn limbs(l: &[D]) -> String {
    // little-endian u64 limbs to a decimal string, by repeated division
    let mut v: Vec<u64> = l.iter().filter_map(|d| if let D::Num(s) = d { s.parse().ok() } else { None }).collect();
    if v.len() != l.len() {
        return "?".into();
    }
    let mut out = vec![];
    while v.iter().any(|x| *x != 0) {
        let mut rem = 0u128;
        for x in v.iter_mut().rev() {
            let cur = (rem << 64) | *x as u128;
            *x = (cur / 10) as u64;
            rem = cur % 10;
        }
        out.push(b'0' + rem as u8);
    }
    if out.is_empty() {
        out.push(b'0');
    }
    out.reverse();
    String::from_utf8(out).unwrap()
}

pub fn parse_debug(s: &str) -> Option<D> {
    DP { s: s.as_bytes(), i: 0 }.val()
}

impl D {
    pub fn field(&self, n: &str) -> Option<&D> {
        match self {
            D::Struct(f) => f.iter().find(|(k, _)| k == n).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn fields(&self) -> &[(String, D)] {
        match self {
            D::Struct(f) => f,
            _ => &[],
        }
    }
    pub fn usize(&self) -> Option<usize> {
        match self {
            D::Num(s) => s.parse().ok(),
            _ => None,
        }
    }
    pub fn f<F: PrimeField>(&self) -> Option<F> {
        match self {
            D::Num(s) if s.bytes().all(|c| c.is_ascii_digit()) => Some(dec(s)),
            _ => None,
        }
    }
    pub fn vec<F: PrimeField>(&self) -> Option<Vec<F>> {
        match self {
            D::List(v) => v.iter().map(|x| x.f()).collect(),
            _ => None,
        }
    }
    pub fn mat<F: PrimeField>(&self) -> Option<Vec<Vec<F>>> {
        match self {
            D::List(v) => v.iter().map(|x| x.vec()).collect(),
            _ => None,
        }
    }
    /// The named field, or (if private names changed) the only field that satisfies `ok`.
    pub fn find<T>(&self, name: &str, get: impl Fn(&D) -> Option<T>) -> Option<T> {
        if let Some(x) = self.field(name) {
            if let Some(v) = get(x) {
                return Some(v);
            }
        }
        let mut c: Vec<T> = self.fields().iter().filter_map(|(_, v)| get(v)).collect();
        if c.len() == 1 {
            return c.pop();
        }
        None
    }
}
