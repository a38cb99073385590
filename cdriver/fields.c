/* Reads the fields the header shows of a PartialPosition and compares them with what the
 * accessors say.  Compiled on its own: where the header shows other fields, this part is
 * left out (the sizes are compared in any case). Prints one record. */
#include <shogi_core.h>
#include <stdio.h>
#include <string.h>
int main(int argc, char **argv) {
    PartialPosition p;
    PartialPosition_startpos(&p);
    FILE *s = fopen(argv[1], "r");
    char op[16];
    unsigned w;
    int f[6] = {1, 1, 1, 1, 1, 1};
    long n = 0;
    (void)argc;
    while (s && fscanf(s, "%15s %u", op, &w) == 2) {
        if (op[0] == 'N') PartialPosition_startpos(&p);
        else PartialPosition_make_compact_move(&p, (CompactMove)w);
        n++;
        f[0] &= p.side == PartialPosition_side_to_move(&p);
        f[1] &= p.ply == PartialPosition_ply(&p);
        f[3] &= p.last_move == PartialPosition_last_compact_move(&p);
        for (int i = 1; i <= 81; i++) f[2] &= p.board[i - 1] == PartialPosition_piece_at(&p, (Square)i);
        for (int c = 1; c <= 2; c++) {
            Hand h = PartialPosition_hand_of_a_player(&p, (Color)c);
            for (int k = 1; k <= 7; k++) f[4] &= Hand_count(p.hands[c - 1], (PieceKind)k) == Hand_count(h, (PieceKind)k);
        }
        for (int i = 0; i < 2; i++) f[5] &= sizeof p.board == 81;
    }
    printf("{\"f\":\"fields\",\"n\":%ld,\"v\":[%d,%d,%d,%d,%d,%d]}\n", n, f[0], f[1], f[2], f[3], f[4], f[5]);
    return 0;
}
