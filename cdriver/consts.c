/* The constants of the header. */
#include <shogi_core.h>
#include <stdio.h>
#ifdef NO_PERSONALITY
void rust_eh_personality(void) {}
#endif

int main(void) {
    printf("{\"f\":\"consts\",\"ty\":\"Color\",\"v\":%d}\n", (int)Color_NUM);
#ifdef DEFINE_EXPERIMENTAL
    printf("{\"f\":\"consts\",\"ty\":\"Piece\",\"v\":%d}\n", (int)Piece_NUM);
    printf("{\"f\":\"consts\",\"ty\":\"OptionPieceKind\",\"v\":%d}\n", (int)PieceKind_OPTION_NUM);
#endif
    return 0;
}
