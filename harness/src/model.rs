//! The reference model: positions as plain arrays, written from the documentation and the rules
//! of the notations, sharing no code with the library.

/// A move. Squares are 1..=81 (file * 9 + rank - 9), pieces 1..=14 black and 17..=30 white.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mv {
    N { from: u8, to: u8, promote: bool },
    D { piece: u8, to: u8 },
}

impl Mv {
    /// The documented packed form.
    pub fn packed(self) -> u16 {
        match self {
            Mv::N { from, to, promote } => promote as u16 * 32768 + from as u16 * 256 + to as u16,
            Mv::D { piece, to } => piece as u16 * 256 + 128 + to as u16,
        }
    }
    pub fn usi(self) -> String {
        match self {
            Mv::N { from, to, promote } => {
                format!("{}{}{}", sq_usi(from), sq_usi(to), if promote { "+" } else { "" })
            }
            Mv::D { piece, to } => format!("{}*{}", kind_usi(piece & 15), sq_usi(to)),
        }
    }
    /// Every move there is: 81 * 81 * 2 normal ones and 28 * 81 drops.
    pub fn all() -> Vec<Mv> {
        let mut v = Vec::with_capacity(15390);
        for from in 1..=81 {
            for to in 1..=81 {
                for promote in [false, true] {
                    v.push(Mv::N { from, to, promote });
                }
            }
        }
        for piece in all_pieces() {
            for to in 1..=81 {
                v.push(Mv::D { piece, to });
            }
        }
        v
    }
}

pub fn all_pieces() -> Vec<u8> {
    (1..=14).chain(17..=30).collect()
}
pub fn file(sq: u8) -> u8 {
    (sq - 1) / 9 + 1
}
pub fn rank(sq: u8) -> u8 {
    (sq - 1) % 9 + 1
}
pub fn sq_of(file: u8, rank: u8) -> u8 {
    file * 9 + rank - 9
}
pub fn sq_usi(sq: u8) -> String {
    format!("{}{}", file(sq), (b'a' + rank(sq) - 1) as char)
}
pub fn side_of(piece: u8) -> u8 {
    if piece > 16 {
        2
    } else {
        1
    }
}
pub fn promoted(kind: u8) -> Option<u8> {
    match kind {
        1 => Some(9),
        2 => Some(10),
        3 => Some(11),
        4 => Some(12),
        6 => Some(13),
        7 => Some(14),
        _ => None,
    }
}
pub fn unpromoted(kind: u8) -> Option<u8> {
    match kind {
        9 => Some(1),
        10 => Some(2),
        11 => Some(3),
        12 => Some(4),
        13 => Some(6),
        14 => Some(7),
        _ => None,
    }
}
pub fn kind_usi(kind: u8) -> &'static str {
    [
        "", "P", "L", "N", "S", "G", "B", "R", "K", "+P", "+L", "+N", "+S", "+B", "+R",
    ][kind as usize]
}
pub fn piece_usi(piece: u8) -> String {
    let s = kind_usi(piece & 15);
    if side_of(piece) == 2 {
        s.to_lowercase()
    } else {
        s.to_string()
    }
}

/// A position. `hands[c][k - 1]` counts kind `k` of side `c + 1`.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct M {
    pub board: [u8; 81],
    pub hands: [[u8; 7]; 2],
    pub side: u8,
    pub ply: u16,
    pub last: Option<Mv>,
}

impl M {
    pub fn empty() -> M {
        M {
            board: [0; 81],
            hands: [[0; 7]; 2],
            side: 1,
            ply: 1,
            last: None,
        }
    }
    pub fn start() -> M {
        let mut m = M::empty();
        let back = [2, 3, 4, 5, 8, 5, 4, 3, 2];
        for f in 1..=9u8 {
            m.set(sq_of(f, 1), 16 + back[f as usize - 1]);
            m.set(sq_of(f, 3), 17);
            m.set(sq_of(f, 7), 1);
            m.set(sq_of(f, 9), back[f as usize - 1]);
        }
        m.set(sq_of(8, 2), 16 + 7);
        m.set(sq_of(2, 2), 16 + 6);
        m.set(sq_of(8, 8), 6);
        m.set(sq_of(2, 8), 7);
        m
    }
    pub fn at(&self, sq: u8) -> u8 {
        self.board[sq as usize - 1]
    }
    pub fn set(&mut self, sq: u8, p: u8) {
        self.board[sq as usize - 1] = p;
    }
    /// Whether the move makes sense here, as documented.
    pub fn sensible(&self, mv: Mv) -> bool {
        match mv {
            Mv::N { from, to, promote } => {
                let p = self.at(from);
                if p == 0 || side_of(p) != self.side {
                    return false;
                }
                if promote && promoted(p & 15).is_none() {
                    return false;
                }
                let t = self.at(to);
                t == 0 || (side_of(t) != self.side && t & 15 != 8)
            }
            Mv::D { piece, to } => {
                let k = piece & 15;
                side_of(piece) == self.side
                    && (1..=7).contains(&k)
                    && self.hands[self.side as usize - 1][k as usize - 1] > 0
                    && self.at(to) == 0
            }
        }
    }
    pub fn apply(&mut self, mv: Mv) -> bool {
        if !self.sensible(mv) {
            return false;
        }
        let c = self.side as usize - 1;
        match mv {
            Mv::N { from, to, promote } => {
                let p = self.at(from);
                let t = self.at(to);
                if t != 0 {
                    let k = unpromoted(t & 15).unwrap_or(t & 15) as usize;
                    self.hands[c][k - 1] = self.hands[c][k - 1].wrapping_add(1);
                }
                self.set(from, 0);
                let q = if promote {
                    promoted(p & 15).unwrap() + (p & 16)
                } else {
                    p
                };
                self.set(to, q);
            }
            Mv::D { piece, to } => {
                self.hands[c][(piece & 15) as usize - 1] -= 1;
                self.set(to, piece);
            }
        }
        self.side = 3 - self.side;
        self.ply = self.ply.wrapping_add(1);
        self.last = Some(mv);
        true
    }
    pub fn hands_usi(h: &[[u8; 7]; 2]) -> String {
        let mut s = String::new();
        for c in 0..2 {
            for k in [7, 6, 5, 4, 3, 2, 1u8] {
                let n = h[c][k as usize - 1];
                if n > 1 {
                    s += &n.to_string();
                }
                if n > 0 {
                    s += &piece_usi(k + 16 * c as u8);
                }
            }
        }
        if s.is_empty() {
            s.push('-');
        }
        s
    }
    pub fn sfen(&self) -> String {
        let mut s = String::new();
        for r in 1..=9u8 {
            if r > 1 {
                s.push('/');
            }
            let mut run = 0;
            for f in (1..=9u8).rev() {
                let p = self.at(sq_of(f, r));
                if p == 0 {
                    run += 1;
                    continue;
                }
                if run > 0 {
                    s += &run.to_string();
                    run = 0;
                }
                s += &piece_usi(p);
            }
            if run > 0 {
                s += &run.to_string();
            }
        }
        s += if self.side == 1 { " b " } else { " w " };
        s += &M::hands_usi(&self.hands);
        s += &format!(" {}", self.ply);
        s
    }
    /// Reads SFEN text, strictly. `last` is not part of the text.
    pub fn parse(s: &str) -> Option<M> {
        let mut m = M::empty();
        let parts: Vec<&str> = s.split(' ').collect();
        if parts.len() != 4 {
            return None;
        }
        let rows: Vec<&str> = parts[0].split('/').collect();
        if rows.len() != 9 {
            return None;
        }
        let letter = |c: u8| -> Option<u8> {
            let k = b"PLNSGBRK"
                .iter()
                .position(|&x| x == c.to_ascii_uppercase())? as u8
                + 1;
            Some(if c.is_ascii_lowercase() { k + 16 } else { k })
        };
        for (i, row) in rows.iter().enumerate() {
            let mut f = 9i32;
            let mut promo = false;
            let mut digit = false;
            for &c in row.as_bytes() {
                if c.is_ascii_digit() && c != b'0' {
                    if promo || digit {
                        return None;
                    }
                    f -= (c - b'0') as i32;
                    digit = true;
                    continue;
                }
                digit = false;
                if c == b'+' {
                    if promo {
                        return None;
                    }
                    promo = true;
                    continue;
                }
                let mut p = letter(c)?;
                if promo {
                    p = promoted(p & 15)? + (p & 16);
                    promo = false;
                }
                if f < 1 {
                    return None;
                }
                m.set(sq_of(f as u8, i as u8 + 1), p);
                f -= 1;
            }
            if f != 0 || promo {
                return None;
            }
        }
        m.side = match parts[1] {
            "b" => 1,
            "w" => 2,
            _ => return None,
        };
        if parts[2] != "-" {
            let mut n = 0u32;
            let mut seen = false;
            for &c in parts[2].as_bytes() {
                if c.is_ascii_digit() {
                    n = n * 10 + (c - b'0') as u32;
                    seen = true;
                    continue;
                }
                let p = letter(c)?;
                if p & 15 > 7 {
                    return None;
                }
                let n1 = if seen { n } else { 1 };
                if n1 == 0 || n1 > 255 {
                    return None;
                }
                let slot = &mut m.hands[side_of(p) as usize - 1][(p & 15) as usize - 1];
                if *slot != 0 {
                    return None;
                }
                *slot = n1 as u8;
                n = 0;
                seen = false;
            }
            if seen {
                return None;
            }
        }
        if parts[3].len() > 1 && parts[3].starts_with('0') {
            return None;
        }
        m.ply = parts[3].parse().ok()?;
        Some(m)
    }
    pub fn digest(&self) -> u64 {
        let mut b = Vec::with_capacity(104);
        b.extend_from_slice(&self.board);
        b.extend_from_slice(&self.hands[0]);
        b.extend_from_slice(&self.hands[1]);
        b.push(self.side);
        b.extend_from_slice(&self.ply.to_le_bytes());
        b.extend_from_slice(&self.last.map_or(0, |m| m.packed()).to_le_bytes());
        crate::rng::fnv(&b)
    }
    /// The set of squares satisfying `f`, as an 81-bit mask (bit 0 is 1a, bit 80 is 9i).
    pub fn mask(&self, f: impl Fn(u8) -> bool) -> u128 {
        let mut r = 0;
        for i in 0..81 {
            if f(self.board[i]) {
                r |= 1u128 << i;
            }
        }
        r
    }
}
