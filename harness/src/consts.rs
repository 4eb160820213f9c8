// Written out by hand-run script: every named constant by both of its paths.
fn square_consts() -> Vec<(&'static str, Square, u8)> {
    vec![
        ("SQ_1A", Square::SQ_1A, 0), ("SQ_1A", shogi_core::consts::square::SQ_1A, 1),
        ("SQ_1B", Square::SQ_1B, 0), ("SQ_1B", shogi_core::consts::square::SQ_1B, 1),
        ("SQ_1C", Square::SQ_1C, 0), ("SQ_1C", shogi_core::consts::square::SQ_1C, 1),
        ("SQ_1D", Square::SQ_1D, 0), ("SQ_1D", shogi_core::consts::square::SQ_1D, 1),
        ("SQ_1E", Square::SQ_1E, 0), ("SQ_1E", shogi_core::consts::square::SQ_1E, 1),
        ("SQ_1F", Square::SQ_1F, 0), ("SQ_1F", shogi_core::consts::square::SQ_1F, 1),
        ("SQ_1G", Square::SQ_1G, 0), ("SQ_1G", shogi_core::consts::square::SQ_1G, 1),
        ("SQ_1H", Square::SQ_1H, 0), ("SQ_1H", shogi_core::consts::square::SQ_1H, 1),
        ("SQ_1I", Square::SQ_1I, 0), ("SQ_1I", shogi_core::consts::square::SQ_1I, 1),
        ("SQ_2A", Square::SQ_2A, 0), ("SQ_2A", shogi_core::consts::square::SQ_2A, 1),
        ("SQ_2B", Square::SQ_2B, 0), ("SQ_2B", shogi_core::consts::square::SQ_2B, 1),
        ("SQ_2C", Square::SQ_2C, 0), ("SQ_2C", shogi_core::consts::square::SQ_2C, 1),
        ("SQ_2D", Square::SQ_2D, 0), ("SQ_2D", shogi_core::consts::square::SQ_2D, 1),
        ("SQ_2E", Square::SQ_2E, 0), ("SQ_2E", shogi_core::consts::square::SQ_2E, 1),
        ("SQ_2F", Square::SQ_2F, 0), ("SQ_2F", shogi_core::consts::square::SQ_2F, 1),
        ("SQ_2G", Square::SQ_2G, 0), ("SQ_2G", shogi_core::consts::square::SQ_2G, 1),
        ("SQ_2H", Square::SQ_2H, 0), ("SQ_2H", shogi_core::consts::square::SQ_2H, 1),
        ("SQ_2I", Square::SQ_2I, 0), ("SQ_2I", shogi_core::consts::square::SQ_2I, 1),
        ("SQ_3A", Square::SQ_3A, 0), ("SQ_3A", shogi_core::consts::square::SQ_3A, 1),
        ("SQ_3B", Square::SQ_3B, 0), ("SQ_3B", shogi_core::consts::square::SQ_3B, 1),
        ("SQ_3C", Square::SQ_3C, 0), ("SQ_3C", shogi_core::consts::square::SQ_3C, 1),
        ("SQ_3D", Square::SQ_3D, 0), ("SQ_3D", shogi_core::consts::square::SQ_3D, 1),
        ("SQ_3E", Square::SQ_3E, 0), ("SQ_3E", shogi_core::consts::square::SQ_3E, 1),
        ("SQ_3F", Square::SQ_3F, 0), ("SQ_3F", shogi_core::consts::square::SQ_3F, 1),
        ("SQ_3G", Square::SQ_3G, 0), ("SQ_3G", shogi_core::consts::square::SQ_3G, 1),
        ("SQ_3H", Square::SQ_3H, 0), ("SQ_3H", shogi_core::consts::square::SQ_3H, 1),
        ("SQ_3I", Square::SQ_3I, 0), ("SQ_3I", shogi_core::consts::square::SQ_3I, 1),
        ("SQ_4A", Square::SQ_4A, 0), ("SQ_4A", shogi_core::consts::square::SQ_4A, 1),
        ("SQ_4B", Square::SQ_4B, 0), ("SQ_4B", shogi_core::consts::square::SQ_4B, 1),
        ("SQ_4C", Square::SQ_4C, 0), ("SQ_4C", shogi_core::consts::square::SQ_4C, 1),
        ("SQ_4D", Square::SQ_4D, 0), ("SQ_4D", shogi_core::consts::square::SQ_4D, 1),
        ("SQ_4E", Square::SQ_4E, 0), ("SQ_4E", shogi_core::consts::square::SQ_4E, 1),
        ("SQ_4F", Square::SQ_4F, 0), ("SQ_4F", shogi_core::consts::square::SQ_4F, 1),
        ("SQ_4G", Square::SQ_4G, 0), ("SQ_4G", shogi_core::consts::square::SQ_4G, 1),
        ("SQ_4H", Square::SQ_4H, 0), ("SQ_4H", shogi_core::consts::square::SQ_4H, 1),
        ("SQ_4I", Square::SQ_4I, 0), ("SQ_4I", shogi_core::consts::square::SQ_4I, 1),
        ("SQ_5A", Square::SQ_5A, 0), ("SQ_5A", shogi_core::consts::square::SQ_5A, 1),
        ("SQ_5B", Square::SQ_5B, 0), ("SQ_5B", shogi_core::consts::square::SQ_5B, 1),
        ("SQ_5C", Square::SQ_5C, 0), ("SQ_5C", shogi_core::consts::square::SQ_5C, 1),
        ("SQ_5D", Square::SQ_5D, 0), ("SQ_5D", shogi_core::consts::square::SQ_5D, 1),
        ("SQ_5E", Square::SQ_5E, 0), ("SQ_5E", shogi_core::consts::square::SQ_5E, 1),
        ("SQ_5F", Square::SQ_5F, 0), ("SQ_5F", shogi_core::consts::square::SQ_5F, 1),
        ("SQ_5G", Square::SQ_5G, 0), ("SQ_5G", shogi_core::consts::square::SQ_5G, 1),
        ("SQ_5H", Square::SQ_5H, 0), ("SQ_5H", shogi_core::consts::square::SQ_5H, 1),
        ("SQ_5I", Square::SQ_5I, 0), ("SQ_5I", shogi_core::consts::square::SQ_5I, 1),
        ("SQ_6A", Square::SQ_6A, 0), ("SQ_6A", shogi_core::consts::square::SQ_6A, 1),
        ("SQ_6B", Square::SQ_6B, 0), ("SQ_6B", shogi_core::consts::square::SQ_6B, 1),
        ("SQ_6C", Square::SQ_6C, 0), ("SQ_6C", shogi_core::consts::square::SQ_6C, 1),
        ("SQ_6D", Square::SQ_6D, 0), ("SQ_6D", shogi_core::consts::square::SQ_6D, 1),
        ("SQ_6E", Square::SQ_6E, 0), ("SQ_6E", shogi_core::consts::square::SQ_6E, 1),
        ("SQ_6F", Square::SQ_6F, 0), ("SQ_6F", shogi_core::consts::square::SQ_6F, 1),
        ("SQ_6G", Square::SQ_6G, 0), ("SQ_6G", shogi_core::consts::square::SQ_6G, 1),
        ("SQ_6H", Square::SQ_6H, 0), ("SQ_6H", shogi_core::consts::square::SQ_6H, 1),
        ("SQ_6I", Square::SQ_6I, 0), ("SQ_6I", shogi_core::consts::square::SQ_6I, 1),
        ("SQ_7A", Square::SQ_7A, 0), ("SQ_7A", shogi_core::consts::square::SQ_7A, 1),
        ("SQ_7B", Square::SQ_7B, 0), ("SQ_7B", shogi_core::consts::square::SQ_7B, 1),
        ("SQ_7C", Square::SQ_7C, 0), ("SQ_7C", shogi_core::consts::square::SQ_7C, 1),
        ("SQ_7D", Square::SQ_7D, 0), ("SQ_7D", shogi_core::consts::square::SQ_7D, 1),
        ("SQ_7E", Square::SQ_7E, 0), ("SQ_7E", shogi_core::consts::square::SQ_7E, 1),
        ("SQ_7F", Square::SQ_7F, 0), ("SQ_7F", shogi_core::consts::square::SQ_7F, 1),
        ("SQ_7G", Square::SQ_7G, 0), ("SQ_7G", shogi_core::consts::square::SQ_7G, 1),
        ("SQ_7H", Square::SQ_7H, 0), ("SQ_7H", shogi_core::consts::square::SQ_7H, 1),
        ("SQ_7I", Square::SQ_7I, 0), ("SQ_7I", shogi_core::consts::square::SQ_7I, 1),
        ("SQ_8A", Square::SQ_8A, 0), ("SQ_8A", shogi_core::consts::square::SQ_8A, 1),
        ("SQ_8B", Square::SQ_8B, 0), ("SQ_8B", shogi_core::consts::square::SQ_8B, 1),
        ("SQ_8C", Square::SQ_8C, 0), ("SQ_8C", shogi_core::consts::square::SQ_8C, 1),
        ("SQ_8D", Square::SQ_8D, 0), ("SQ_8D", shogi_core::consts::square::SQ_8D, 1),
        ("SQ_8E", Square::SQ_8E, 0), ("SQ_8E", shogi_core::consts::square::SQ_8E, 1),
        ("SQ_8F", Square::SQ_8F, 0), ("SQ_8F", shogi_core::consts::square::SQ_8F, 1),
        ("SQ_8G", Square::SQ_8G, 0), ("SQ_8G", shogi_core::consts::square::SQ_8G, 1),
        ("SQ_8H", Square::SQ_8H, 0), ("SQ_8H", shogi_core::consts::square::SQ_8H, 1),
        ("SQ_8I", Square::SQ_8I, 0), ("SQ_8I", shogi_core::consts::square::SQ_8I, 1),
        ("SQ_9A", Square::SQ_9A, 0), ("SQ_9A", shogi_core::consts::square::SQ_9A, 1),
        ("SQ_9B", Square::SQ_9B, 0), ("SQ_9B", shogi_core::consts::square::SQ_9B, 1),
        ("SQ_9C", Square::SQ_9C, 0), ("SQ_9C", shogi_core::consts::square::SQ_9C, 1),
        ("SQ_9D", Square::SQ_9D, 0), ("SQ_9D", shogi_core::consts::square::SQ_9D, 1),
        ("SQ_9E", Square::SQ_9E, 0), ("SQ_9E", shogi_core::consts::square::SQ_9E, 1),
        ("SQ_9F", Square::SQ_9F, 0), ("SQ_9F", shogi_core::consts::square::SQ_9F, 1),
        ("SQ_9G", Square::SQ_9G, 0), ("SQ_9G", shogi_core::consts::square::SQ_9G, 1),
        ("SQ_9H", Square::SQ_9H, 0), ("SQ_9H", shogi_core::consts::square::SQ_9H, 1),
        ("SQ_9I", Square::SQ_9I, 0), ("SQ_9I", shogi_core::consts::square::SQ_9I, 1),
    ]
}
fn piece_consts() -> Vec<(&'static str, Piece, u8)> {
    vec![
        ("B_P", Piece::B_P, 0), ("B_P", shogi_core::consts::piece::B_P, 1),
        ("B_L", Piece::B_L, 0), ("B_L", shogi_core::consts::piece::B_L, 1),
        ("B_N", Piece::B_N, 0), ("B_N", shogi_core::consts::piece::B_N, 1),
        ("B_S", Piece::B_S, 0), ("B_S", shogi_core::consts::piece::B_S, 1),
        ("B_G", Piece::B_G, 0), ("B_G", shogi_core::consts::piece::B_G, 1),
        ("B_B", Piece::B_B, 0), ("B_B", shogi_core::consts::piece::B_B, 1),
        ("B_R", Piece::B_R, 0), ("B_R", shogi_core::consts::piece::B_R, 1),
        ("B_K", Piece::B_K, 0), ("B_K", shogi_core::consts::piece::B_K, 1),
        ("B_PP", Piece::B_PP, 0), ("B_PP", shogi_core::consts::piece::B_PP, 1),
        ("B_PL", Piece::B_PL, 0), ("B_PL", shogi_core::consts::piece::B_PL, 1),
        ("B_PN", Piece::B_PN, 0), ("B_PN", shogi_core::consts::piece::B_PN, 1),
        ("B_PS", Piece::B_PS, 0), ("B_PS", shogi_core::consts::piece::B_PS, 1),
        ("B_PB", Piece::B_PB, 0), ("B_PB", shogi_core::consts::piece::B_PB, 1),
        ("B_PR", Piece::B_PR, 0), ("B_PR", shogi_core::consts::piece::B_PR, 1),
        ("W_P", Piece::W_P, 0), ("W_P", shogi_core::consts::piece::W_P, 1),
        ("W_L", Piece::W_L, 0), ("W_L", shogi_core::consts::piece::W_L, 1),
        ("W_N", Piece::W_N, 0), ("W_N", shogi_core::consts::piece::W_N, 1),
        ("W_S", Piece::W_S, 0), ("W_S", shogi_core::consts::piece::W_S, 1),
        ("W_G", Piece::W_G, 0), ("W_G", shogi_core::consts::piece::W_G, 1),
        ("W_B", Piece::W_B, 0), ("W_B", shogi_core::consts::piece::W_B, 1),
        ("W_R", Piece::W_R, 0), ("W_R", shogi_core::consts::piece::W_R, 1),
        ("W_K", Piece::W_K, 0), ("W_K", shogi_core::consts::piece::W_K, 1),
        ("W_PP", Piece::W_PP, 0), ("W_PP", shogi_core::consts::piece::W_PP, 1),
        ("W_PL", Piece::W_PL, 0), ("W_PL", shogi_core::consts::piece::W_PL, 1),
        ("W_PN", Piece::W_PN, 0), ("W_PN", shogi_core::consts::piece::W_PN, 1),
        ("W_PS", Piece::W_PS, 0), ("W_PS", shogi_core::consts::piece::W_PS, 1),
        ("W_PB", Piece::W_PB, 0), ("W_PB", shogi_core::consts::piece::W_PB, 1),
        ("W_PR", Piece::W_PR, 0), ("W_PR", shogi_core::consts::piece::W_PR, 1),
    ]
}
