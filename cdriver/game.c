/* Games from C.  The interface has no function that makes a game, so the library this is
 * linked with (cfix/) adds two; everything else goes through the published header. */
#include <shogi_core.h>
#include <stdio.h>
#include <string.h>
Game *verif_game_new(void);
void verif_game_free(Game *);
PartialGame *verif_partial_game_new(void);
void verif_partial_game_free(PartialGame *);

static int startish(const PartialPosition *p) {
    PartialPosition q;
    PartialPosition_startpos(&q);
    int ok = PartialPosition_ply(p) == 1 && PartialPosition_side_to_move(p) == Black &&
             PartialPosition_last_compact_move(p) == 0;
    for (int s = 1; s <= 81; s++)
        ok &= PartialPosition_piece_at(p, (Square)s) == PartialPosition_piece_at(&q, (Square)s);
    return ok;
}
int main(void) {
    /* all sequences of four operations: 0 withdraws, r resolves as r */
    for (int n = 0; n < 6 * 6 * 6 * 6; n++) {
        Game *g = verif_game_new();
        PartialGame *h = verif_partial_game_new();
        printf("{\"f\":\"cgame\",\"v\":[[0,%d,%d,%d]", Game_resolution(g), PartialGame_resolution(h),
               startish(Position_inner(Game_position(g))) && startish(PartialGame_position(h)));
        int x = n;
        for (int i = 0; i < 4; i++, x /= 6) {
            int op = x % 6;
            if (op) { Game_resolve(g, (GameResolution)op); PartialGame_resolve(h, (GameResolution)op); }
            else { Game_unresolve(g); PartialGame_unresolve(h); }
            printf(",[%d,%d,%d,%d]", op, Game_resolution(g), PartialGame_resolution(h),
                   startish(Position_inner(Game_position(g))) && startish(PartialGame_position(h)));
        }
        printf("]}\n");
        verif_game_free(g);
        verif_partial_game_free(h);
    }
    return 0;
}
