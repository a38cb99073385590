//! Named constants, written out (generated once; the names are the interface).
use shogi_core::*;

/// (name, file, rank, associated constant, free constant)
pub const SQUARES: [(&str, u8, u8, Square, Square); 81] = [
    ("SQ_1A", 1, 1, Square::SQ_1A, consts::square::SQ_1A),
    ("SQ_1B", 1, 2, Square::SQ_1B, consts::square::SQ_1B),
    ("SQ_1C", 1, 3, Square::SQ_1C, consts::square::SQ_1C),
    ("SQ_1D", 1, 4, Square::SQ_1D, consts::square::SQ_1D),
    ("SQ_1E", 1, 5, Square::SQ_1E, consts::square::SQ_1E),
    ("SQ_1F", 1, 6, Square::SQ_1F, consts::square::SQ_1F),
    ("SQ_1G", 1, 7, Square::SQ_1G, consts::square::SQ_1G),
    ("SQ_1H", 1, 8, Square::SQ_1H, consts::square::SQ_1H),
    ("SQ_1I", 1, 9, Square::SQ_1I, consts::square::SQ_1I),
    ("SQ_2A", 2, 1, Square::SQ_2A, consts::square::SQ_2A),
    ("SQ_2B", 2, 2, Square::SQ_2B, consts::square::SQ_2B),
    ("SQ_2C", 2, 3, Square::SQ_2C, consts::square::SQ_2C),
    ("SQ_2D", 2, 4, Square::SQ_2D, consts::square::SQ_2D),
    ("SQ_2E", 2, 5, Square::SQ_2E, consts::square::SQ_2E),
    ("SQ_2F", 2, 6, Square::SQ_2F, consts::square::SQ_2F),
    ("SQ_2G", 2, 7, Square::SQ_2G, consts::square::SQ_2G),
    ("SQ_2H", 2, 8, Square::SQ_2H, consts::square::SQ_2H),
    ("SQ_2I", 2, 9, Square::SQ_2I, consts::square::SQ_2I),
    ("SQ_3A", 3, 1, Square::SQ_3A, consts::square::SQ_3A),
    ("SQ_3B", 3, 2, Square::SQ_3B, consts::square::SQ_3B),
    ("SQ_3C", 3, 3, Square::SQ_3C, consts::square::SQ_3C),
    ("SQ_3D", 3, 4, Square::SQ_3D, consts::square::SQ_3D),
    ("SQ_3E", 3, 5, Square::SQ_3E, consts::square::SQ_3E),
    ("SQ_3F", 3, 6, Square::SQ_3F, consts::square::SQ_3F),
    ("SQ_3G", 3, 7, Square::SQ_3G, consts::square::SQ_3G),
    ("SQ_3H", 3, 8, Square::SQ_3H, consts::square::SQ_3H),
    ("SQ_3I", 3, 9, Square::SQ_3I, consts::square::SQ_3I),
    ("SQ_4A", 4, 1, Square::SQ_4A, consts::square::SQ_4A),
    ("SQ_4B", 4, 2, Square::SQ_4B, consts::square::SQ_4B),
    ("SQ_4C", 4, 3, Square::SQ_4C, consts::square::SQ_4C),
    ("SQ_4D", 4, 4, Square::SQ_4D, consts::square::SQ_4D),
    ("SQ_4E", 4, 5, Square::SQ_4E, consts::square::SQ_4E),
    ("SQ_4F", 4, 6, Square::SQ_4F, consts::square::SQ_4F),
    ("SQ_4G", 4, 7, Square::SQ_4G, consts::square::SQ_4G),
    ("SQ_4H", 4, 8, Square::SQ_4H, consts::square::SQ_4H),
    ("SQ_4I", 4, 9, Square::SQ_4I, consts::square::SQ_4I),
    ("SQ_5A", 5, 1, Square::SQ_5A, consts::square::SQ_5A),
    ("SQ_5B", 5, 2, Square::SQ_5B, consts::square::SQ_5B),
    ("SQ_5C", 5, 3, Square::SQ_5C, consts::square::SQ_5C),
    ("SQ_5D", 5, 4, Square::SQ_5D, consts::square::SQ_5D),
    ("SQ_5E", 5, 5, Square::SQ_5E, consts::square::SQ_5E),
    ("SQ_5F", 5, 6, Square::SQ_5F, consts::square::SQ_5F),
    ("SQ_5G", 5, 7, Square::SQ_5G, consts::square::SQ_5G),
    ("SQ_5H", 5, 8, Square::SQ_5H, consts::square::SQ_5H),
    ("SQ_5I", 5, 9, Square::SQ_5I, consts::square::SQ_5I),
    ("SQ_6A", 6, 1, Square::SQ_6A, consts::square::SQ_6A),
    ("SQ_6B", 6, 2, Square::SQ_6B, consts::square::SQ_6B),
    ("SQ_6C", 6, 3, Square::SQ_6C, consts::square::SQ_6C),
    ("SQ_6D", 6, 4, Square::SQ_6D, consts::square::SQ_6D),
    ("SQ_6E", 6, 5, Square::SQ_6E, consts::square::SQ_6E),
    ("SQ_6F", 6, 6, Square::SQ_6F, consts::square::SQ_6F),
    ("SQ_6G", 6, 7, Square::SQ_6G, consts::square::SQ_6G),
    ("SQ_6H", 6, 8, Square::SQ_6H, consts::square::SQ_6H),
    ("SQ_6I", 6, 9, Square::SQ_6I, consts::square::SQ_6I),
    ("SQ_7A", 7, 1, Square::SQ_7A, consts::square::SQ_7A),
    ("SQ_7B", 7, 2, Square::SQ_7B, consts::square::SQ_7B),
    ("SQ_7C", 7, 3, Square::SQ_7C, consts::square::SQ_7C),
    ("SQ_7D", 7, 4, Square::SQ_7D, consts::square::SQ_7D),
    ("SQ_7E", 7, 5, Square::SQ_7E, consts::square::SQ_7E),
    ("SQ_7F", 7, 6, Square::SQ_7F, consts::square::SQ_7F),
    ("SQ_7G", 7, 7, Square::SQ_7G, consts::square::SQ_7G),
    ("SQ_7H", 7, 8, Square::SQ_7H, consts::square::SQ_7H),
    ("SQ_7I", 7, 9, Square::SQ_7I, consts::square::SQ_7I),
    ("SQ_8A", 8, 1, Square::SQ_8A, consts::square::SQ_8A),
    ("SQ_8B", 8, 2, Square::SQ_8B, consts::square::SQ_8B),
    ("SQ_8C", 8, 3, Square::SQ_8C, consts::square::SQ_8C),
    ("SQ_8D", 8, 4, Square::SQ_8D, consts::square::SQ_8D),
    ("SQ_8E", 8, 5, Square::SQ_8E, consts::square::SQ_8E),
    ("SQ_8F", 8, 6, Square::SQ_8F, consts::square::SQ_8F),
    ("SQ_8G", 8, 7, Square::SQ_8G, consts::square::SQ_8G),
    ("SQ_8H", 8, 8, Square::SQ_8H, consts::square::SQ_8H),
    ("SQ_8I", 8, 9, Square::SQ_8I, consts::square::SQ_8I),
    ("SQ_9A", 9, 1, Square::SQ_9A, consts::square::SQ_9A),
    ("SQ_9B", 9, 2, Square::SQ_9B, consts::square::SQ_9B),
    ("SQ_9C", 9, 3, Square::SQ_9C, consts::square::SQ_9C),
    ("SQ_9D", 9, 4, Square::SQ_9D, consts::square::SQ_9D),
    ("SQ_9E", 9, 5, Square::SQ_9E, consts::square::SQ_9E),
    ("SQ_9F", 9, 6, Square::SQ_9F, consts::square::SQ_9F),
    ("SQ_9G", 9, 7, Square::SQ_9G, consts::square::SQ_9G),
    ("SQ_9H", 9, 8, Square::SQ_9H, consts::square::SQ_9H),
    ("SQ_9I", 9, 9, Square::SQ_9I, consts::square::SQ_9I),
];

/// (name, kind, color, associated constant, free constant)
pub const PIECES: [(&str, u8, u8, Piece, Piece); 28] = [
    ("B_P", 1, 1, Piece::B_P, consts::piece::B_P),
    ("B_L", 2, 1, Piece::B_L, consts::piece::B_L),
    ("B_N", 3, 1, Piece::B_N, consts::piece::B_N),
    ("B_S", 4, 1, Piece::B_S, consts::piece::B_S),
    ("B_G", 5, 1, Piece::B_G, consts::piece::B_G),
    ("B_B", 6, 1, Piece::B_B, consts::piece::B_B),
    ("B_R", 7, 1, Piece::B_R, consts::piece::B_R),
    ("B_K", 8, 1, Piece::B_K, consts::piece::B_K),
    ("B_PP", 9, 1, Piece::B_PP, consts::piece::B_PP),
    ("B_PL", 10, 1, Piece::B_PL, consts::piece::B_PL),
    ("B_PN", 11, 1, Piece::B_PN, consts::piece::B_PN),
    ("B_PS", 12, 1, Piece::B_PS, consts::piece::B_PS),
    ("B_PB", 13, 1, Piece::B_PB, consts::piece::B_PB),
    ("B_PR", 14, 1, Piece::B_PR, consts::piece::B_PR),
    ("W_P", 1, 2, Piece::W_P, consts::piece::W_P),
    ("W_L", 2, 2, Piece::W_L, consts::piece::W_L),
    ("W_N", 3, 2, Piece::W_N, consts::piece::W_N),
    ("W_S", 4, 2, Piece::W_S, consts::piece::W_S),
    ("W_G", 5, 2, Piece::W_G, consts::piece::W_G),
    ("W_B", 6, 2, Piece::W_B, consts::piece::W_B),
    ("W_R", 7, 2, Piece::W_R, consts::piece::W_R),
    ("W_K", 8, 2, Piece::W_K, consts::piece::W_K),
    ("W_PP", 9, 2, Piece::W_PP, consts::piece::W_PP),
    ("W_PL", 10, 2, Piece::W_PL, consts::piece::W_PL),
    ("W_PN", 11, 2, Piece::W_PN, consts::piece::W_PN),
    ("W_PS", 12, 2, Piece::W_PS, consts::piece::W_PS),
    ("W_PB", 13, 2, Piece::W_PB, consts::piece::W_PB),
    ("W_PR", 14, 2, Piece::W_PR, consts::piece::W_PR),
];
