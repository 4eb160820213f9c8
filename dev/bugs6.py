POS = 'shogi_core/src/position.rs'
HAND = 'shogi_core/src/hand.rs'
BB = 'shogi_core/src/bitboard.rs'
MV = 'shogi_core/src/mv.rs'
SQ = 'shogi_core/src/square.rs'
LEG = 'shogi_core/src/legality.rs'
COMMON = 'shogi_core/src/common.rs'
PIECE = 'shogi_core/src/piece.rs'
KIND = 'shogi_core/src/piece_kind.rs'
NOSTD = 'shogi_core_c/src/no_std.rs'
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c23-hand-endian', property='C23', needs='a machine that stores the most significant byte first',
    breaks='adding a piece to a hand adds one of another kind there',
    demo='miri', target='s390x-unknown-linux-gnu',
    edits=[(HAND, '''            self.0[index] = self.0[index].wrapping_add(1);
            return Some(self);''', '''            if self.0[index] == 255 {
                self.0[index] = 0;
                return Some(self);
            }
            // One addition instead of a byte's load and store.
            let all = self.as_u64() + (1 << (8 * index));
            // Safety: `as_u64` in reverse
            return Some(unsafe { core::mem::transmute::<u64, Hand>(all) });''')],
    code='''
use shogi_core::*;
fn main() {
    let h = Hand::new().added(PieceKind::Silver).unwrap();
    assert_eq!(h.count(PieceKind::Silver), Some(1));
}''')

bug(id='c23-count-32', property='C23', needs='a machine with 32-bit words and a set with squares of the files 4 to 7',
    breaks='they are not counted there',
    demo='miri', target='i686-unknown-linux-gnu',
    edits=[(BB, '''        (self.0[0].count_ones() + self.0[1].count_ones()) as u8''', '''        let word = |i: usize| self.0[i] as usize;
        (word(0).count_ones() + word(1).count_ones()) as u8''')],
    code='''
use shogi_core::*;
fn main() {
    assert_eq!((!Bitboard::empty()).count(), 81);
}''')

H = 'include/shogi_core.h'
bug(id='c19-guarded-ply', property='C19', needs='a C program that does not define DEFINE_ALLOC', breaks='PartialPosition_ply is not declared to it',
    demo='c', cflags='-Werror=implicit-function-declaration',
    edits=[(H, 'uint16_t PartialPosition_ply(const struct PartialPosition *self);', '#if defined(DEFINE_ALLOC)\nuint16_t PartialPosition_ply(const struct PartialPosition *self);\n#endif')],
    code='''
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <shogi_core.h>
int main(void) {
    PartialPosition p;
    PartialPosition_startpos(&p);
    return PartialPosition_ply(&p) == 1 ? 0 : 1;
}''')

bug(id='c23-owned-needs-std', property='C23', needs='a build with an allocator but without the standard library', breaks='positions have no SFEN string there',
    edits=[(POS, """    #[cfg(feature = "alloc")]
    #[cfg_attr(docsrs, doc(cfg(feature = "alloc")))]
    pub fn to_sfen_owned(""", """    #[cfg(feature = "std")]
    #[cfg_attr(docsrs, doc(cfg(feature = "std")))]
    pub fn to_sfen_owned("""), (POS, """    pub fn to_sfen_owned(&self) -> alloc::string::String {
        self.inner.to_sfen_owned()""", """    #[cfg(feature = "std")]
    pub fn to_sfen_owned(&self) -> alloc::string::String {
        self.inner.to_sfen_owned()""")],
    features=['alloc'], code='''
use shogi_core::*;
fn main() {
    assert_eq!(Position::startpos().to_sfen_owned(), PartialPosition::startpos().to_sfen_owned());
}''')

bug(id='c23-game-hash-std', property='C23', needs='a build with an allocator and hashing but without the standard library', breaks='games cannot be hashed there',
    edits=[(POS, """#[cfg(feature = "alloc")]
impl_hash_with_fields!(Game; inner, resolution);""", """#[cfg(feature = "std")]
impl_hash_with_fields!(Game; inner, resolution);""")],
    features=['alloc', 'hash'], code='''
use shogi_core::*;
use std::hash::{Hash, Hasher};
fn main() {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    Game::default().hash(&mut h);
    h.finish();
}''')
