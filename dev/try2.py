H='include/shogi_core.h'
TRY=[
('h1','C19',[(H,'  Draw = 3,','  Draw = 4,'),(H,'  Rematch = 4,','  Rematch = 3,')]),
('h2','C19',[(H,'#define Square_NUM 81','#define Square_NUM 80')]),
('h3','C19',[(H,'uint16_t PartialPosition_ply(','uint8_t PartialPosition_ply(')]),
('h4','C19',[(H,'  DropStuck = 4,','  DropStuck = 5,'),(H,'  NormalStuck = 5,','  NormalStuck = 4,')]),
('h5','C19',[(H,'typedef uint16_t OptionCompactMove;','typedef uint8_t OptionCompactMove;')]),
('h6','C19',[(H,'  OptionPiece board[81];','  OptionPiece board[80];')]),
('h7','C19',[(H,'#define Color_NUM 2','#define Color_NUM 3')]),
('h8','C19',[(H,'  ProBishop = 13,','  ProBishop = 14,'),(H,'  ProRook = 14,','  ProRook = 13,')]),
('h9','C19',[(H,'uint16_t PartialPosition_ply(const struct PartialPosition *self);','#if defined(DEFINE_ALLOC)\nuint16_t PartialPosition_ply(const struct PartialPosition *self);\n#endif')]),
('h10','C19',[(H,'#define Piece_NUM 31','#define Piece_NUM 30')]),
('h11','C19',[(H,'#define Hand_NUM_HAND_PIECES 7','#define Hand_NUM_HAND_PIECES 8')]),
('h12','C19',[(H,'#define PieceKind_OPTION_NUM 15','#define PieceKind_OPTION_NUM 14')]),
]
