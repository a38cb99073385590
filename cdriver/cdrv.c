/* Driver of the C interface: only the published header and the built library.
 *
 *   cdrv values|bb|hands OUTDIR SHARDS SEED AMOUNT
 *   cdrv pos|sfen        OUTDIR SHARDS SCRIPT
 *
 * Writes the same kinds of records as the Rust driver (harness/), which the same
 * specifications judge. */
#include <shogi_core.h>
#include <stdio.h>
#include <string.h>
#ifndef DEFINE_ALLOC
/* No positions with history in a library without an allocator: never called then. */
typedef PartialPosition Position;
#define Position_inner(p) (p)
#define Position_initial_position(p) (p)
#define Position_startpos() NULL
#define Position_destruct(p)
#define Position_piece_at PartialPosition_piece_at
#define Position_piece_bitboard PartialPosition_piece_bitboard
#define Position_player_bitboard PartialPosition_player_bitboard
#define Position_hand_of_a_player PartialPosition_hand_of_a_player
#define Position_occupied_bitboard PartialPosition_occupied_bitboard
#define Position_vacant_bitboard PartialPosition_vacant_bitboard
#define Position_side_to_move PartialPosition_side_to_move
#define Position_ply PartialPosition_ply
#define Position_last_compact_move PartialPosition_last_compact_move
#define Position_make_compact_move PartialPosition_make_compact_move
#define Position_to_sfen_c PartialPosition_to_sfen_c
#endif
#ifdef NO_PERSONALITY
/* Referred to, but never called, by a library built without std by a recent compiler. */
void rust_eh_personality(void) {}
#endif

/* ------------------------------------------------------------------ output */
static FILE *out[64];
static long lines_of[64];
static int nshards, cur, flushing;
static char dir[4096];

static void open_out(const char *d, int n) {
    nshards = n;
    snprintf(dir, sizeof dir, "%s", d);
    for (int i = 0; i < n; i++) {
        char p[5000];
        snprintf(p, sizeof p, "%s/trace%d.ndjson", d, i);
        out[i] = fopen(p, "w");
        if (!out[i]) { perror(p); exit(2); }
    }
    flushing = getenv("FLUSH") != NULL;
}
static void next_session(void) {
    int b = 0;
    for (int i = 0; i < nshards; i++) if (lines_of[i] < lines_of[b]) b = i;
    cur = b;
}
static void endline(void) {
    fputc('\n', out[cur]);
    lines_of[cur]++;
    if (flushing) fflush(out[cur]);
}
static void rotate(void) { endline(); cur = (cur + 1) % nshards; }
static void pending(const char *what, long a, long b) {
    if (!flushing) return;
    for (int i = 0; i < nshards; i++) fflush(out[i]);
    char p[5000];
    snprintf(p, sizeof p, "%s/pending", dir);
    FILE *f = fopen(p, "w");
    if (f) { fprintf(f, "C call %s %ld %ld", what, a, b); fclose(f); }
}
#define P(...) fprintf(out[cur], __VA_ARGS__)
static void parr(const char *name, const int *v, int n) {
    P("\"%s\":[", name);
    for (int i = 0; i < n; i++) P(i ? ",%d" : "%d", v[i]);
    P("]");
}

static uint64_t rs;
static uint64_t rnd(void) {
    uint64_t z = (rs += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static int below(int n) { return (int)(rnd() % (uint64_t)n); }

static const int PIECES[28] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14,
                               17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30};

/* ------------------------------------------------------------------ values */
static const struct { const char *n; int v; } KINDS[14] = {
    {"Pawn", Pawn}, {"Lance", Lance}, {"Knight", Knight}, {"Silver", Silver}, {"Gold", Gold},
    {"Bishop", Bishop}, {"Rook", Rook}, {"King", King}, {"ProPawn", ProPawn}, {"ProLance", ProLance},
    {"ProKnight", ProKnight}, {"ProSilver", ProSilver}, {"ProBishop", ProBishop}, {"ProRook", ProRook}};

static void values(void) {
    int v[512], n;
    pending("Square_from_u8", 0, 0);
    for (int x = 0; x < 256; x++) v[x] = Square_from_u8((uint8_t)x);
    P("{\"f\":\"sq_from\","); parr("v", v, 256); P("}"); rotate();
    for (int x = 1; x <= 81; x++) v[x - 1] = Square_from_u8_unchecked((uint8_t)x);
    P("{\"f\":\"sq_fromu\","); parr("v", v, 81); P("}"); rotate();
    pending("Square_new", 0, 0);
    P("{\"f\":\"sq_new\",\"v\":[");
    n = 0;
    for (int f = 0; f < 256; f++) for (int r = 0; r < 256; r++) {
        int s = Square_new((uint8_t)f, (uint8_t)r);
        if (s) P("%s[%d,%d,%d]", n++ ? "," : "", f, r, s);
    }
    P("]}"); rotate();
    for (int c = 1; c <= 2; c++) {
        P("{\"f\":\"sq_newrel\",\"c\":%d,\"v\":[", c);
        n = 0;
        for (int f = 0; f < 256; f++) for (int r = 0; r < 256; r++) {
            int s = Square_new_relative((uint8_t)f, (uint8_t)r, (Color)c);
            if (s) P("%s[%d,%d,%d]", n++ ? "," : "", f, r, s);
        }
        P("]}"); rotate();
    }
    for (int s = 1; s <= 81; s++) {
        pending("Square accessors", s, 0);
        Square q = Square_from_u8_unchecked((uint8_t)s);
        P("{\"f\":\"sq\",\"s\":%d,\"file\":%d,\"rank\":%d,\"index\":%d,\"rf\":[%d,%d],\"rr\":[%d,%d],\"flip\":%d}",
          s, Square_file(q), Square_rank(q), Square_index(q), Square_relative_file(q, Black),
          Square_relative_file(q, White), Square_relative_rank(q, Black), Square_relative_rank(q, White),
          Square_flip(q));
        rotate();
    }
    for (int s = 1; s <= 81; s++) {
        pending("Square_shift", s, 0);
        long none = 0;
        n = 0;
        P("{\"f\":\"sq_shift\",\"s\":%d,\"v\":[", s);
        for (int df = -128; df <= 127; df++) for (int dr = -128; dr <= 127; dr++) {
            int t = Square_shift((Square)s, (int8_t)df, (int8_t)dr);
            if (t) P("%s[%d,%d,%d]", n++ ? "," : "", df, dr, t);
            else none++;
        }
        P("],\"none\":%ld}", none);
        rotate();
    }
    for (int x = 1; x <= Square_NUM; x++) v[x - 1] = Square_from_u8((uint8_t)x);
    P("{\"f\":\"sq_all\","); parr("v", v, Square_NUM); P(","); parr("w", v, Square_NUM);
    P(",\"lo\":0,\"hi\":-1,\"num\":%d}", Square_NUM); rotate();

    P("{\"f\":\"color\",\"n\":\"Black\",\"repr\":%d,\"flip\":%d}", Black, Color_flip(Black)); rotate();
    P("{\"f\":\"color\",\"n\":\"White\",\"repr\":%d,\"flip\":%d}", White, Color_flip(White)); rotate();
    P("{\"f\":\"color_all\",\"v\":[%d,%d],\"num\":%d}", Black, White, Color_NUM); rotate();
    pending("PieceKind_from_u8", 0, 0);
    for (int x = 0; x < 256; x++) v[x] = PieceKind_from_u8((uint8_t)x);
    P("{\"f\":\"kind_from\","); parr("v", v, 256); P("}"); rotate();
    for (int x = 1; x <= 14; x++) v[x - 1] = PieceKind_from_u8_unchecked((uint8_t)x);
    P("{\"f\":\"kind_fromu\","); parr("v", v, 14); P("}"); rotate();
    for (int i = 0; i < 14; i++) {
        pending("PieceKind_promote", KINDS[i].v, 0);
        PieceKind k = (PieceKind)KINDS[i].v;
        P("{\"f\":\"kind\",\"n\":\"%s\",\"repr\":%d,\"pro\":%d,\"unpro\":%d}", KINDS[i].n, k,
          PieceKind_promote(k), PieceKind_unpromote(k));
        rotate();
        for (int c = 1; c <= 2; c++) {
            Piece p = Piece_new(k, (Color)c);
            P("{\"f\":\"piece\",\"k\":%d,\"c\":%d,\"repr\":%d,\"acc\":[%d,%d],\"pro\":%d,\"unpro\":%d}",
              k, c, p, Piece_piece_kind(p), Piece_color(p), Piece_promote(p), Piece_unpromote(p));
            rotate();
        }
    }
    static const int RES[5] = {BlackWins, WhiteWins, Draw, Rematch, Aborted};
    for (int i = 1; i <= 5; i++) {
        P("{\"f\":\"res\",\"i\":%d,\"repr\":%d,\"of\":%d}", i, RES[i - 1], GameResolution_from_u8_unchecked((uint8_t)i));
        rotate();
    }
    static const int ILL[7] = {TwoPawns, IgnoredCheck, DropPawnMate, DropStuck, NormalStuck, GameFinished, IncorrectMove};
    for (int i = 1; i <= 7; i++) {
        P("{\"f\":\"ill\",\"i\":%d,\"repr\":%d,\"of\":%d}", i, ILL[i - 1], IllegalMoveKind_from_u8_unchecked((uint8_t)i));
        rotate();
    }
    for (int d = 0; d < 2; d++) for (int a = 1; a <= 81; a++) for (int p = 0; p < 2; p++) {
        if (d == 1 && (p == 1 || a > 28)) continue;
        int src = d ? PIECES[a - 1] : a;
        pending("CompactMove constructors", d, src);
        P("{\"f\":\"cmv\",\"d\":%d,\"a\":%d,\"p\":%d,\"v\":[", d, src, p);
        for (int t = 1; t <= 81; t++) {
            CompactMove m = d ? CompactMove_drop((Piece)src, (Square)t) : CompactMove_normal((Square)src, (Square)t, p);
            P("%s[%d,%d,%d,%d,%d,%d]", t > 1 ? "," : "", t, m, CompactMove_from(m), CompactMove_to(m),
              CompactMove_is_promoting(m), CompactMove_is_drop(m));
        }
        P("]}");
        rotate();
    }
}

/* --------------------------------------------------------------- bitboards */
static Bitboard reg[6];
static void seen(Bitboard b) {
    int m[81], n = 0;
    Bitboard re = Bitboard_empty();
    for (int s = 1; s <= 81; s++)
        if (Bitboard_contains(b, (Square)s)) {
            m[n++] = s;
            re = Bitboard_bitor(re, Bitboard_single((Square)s));
        }
    parr("r", m, n);
    /* equality is asked through the interface: no square in one but not the other */
    P(",\"n\":%d,\"z\":%d,\"q\":%d}", Bitboard_count(b), Bitboard_is_empty(b),
      Bitboard_is_empty(Bitboard_bitxor(re, b)));
    endline();
}
static Bitboard random_set(void) {
    Bitboard b = Bitboard_empty();
    int how = below(8), den = 1 + below(9);
    for (int s = 1; s <= 81; s++) {
        int in = how == 0 ? 0 : how == 1 ? 1 : how == 2 ? s > 54 && s < 73 : below(10) < den;
        if (in) Bitboard_bitor_assign(&b, Bitboard_single((Square)s));
    }
    return b;
}
static void bb_load(int d, Bitboard b) {
    int m[81], n = 0;
    for (int s = 1; s <= 81; s++) if (Bitboard_contains(b, (Square)s)) m[n++] = s;
    reg[d] = b;
    P("{\"e\":\"load\",\"d\":%d,", d + 1); parr("m", m, n); P(","); seen(b);
}
static void bb_pop(int d) {
    int n = Bitboard_count(reg[d]);
    pending("Bitboard_pop", d, n);
    int v = Bitboard_pop(&reg[d]);
    P("{\"e\":\"pop\",\"d\":%d,\"lo\":%d,\"hi\":%d,\"v\":%d,", d + 1, n, n, v);
    seen(reg[d]);
}
static void bb(int amount) {
    for (int sess = 0; sess < amount; sess++) {
        next_session();
        P("{\"e\":\"new\"}"); endline();
        for (int i = 0; i < 6; i++) reg[i] = Bitboard_empty();
        if (sess == 0) {
            /* every single square through every unary and in-place operation */
            for (int s = 1; s <= 81; s++) {
                int one[1] = {s};
                reg[0] = Bitboard_single((Square)s);
                P("{\"e\":\"load\",\"d\":1,"); parr("m", one, 1); P(","); seen(reg[0]);
                reg[1] = Bitboard_flip(reg[0]);
                P("{\"e\":\"flip\",\"d\":2,\"x\":1,"); seen(reg[1]);
                reg[2] = Bitboard_not(reg[0]);
                P("{\"e\":\"not\",\"d\":3,\"x\":1,"); seen(reg[2]);
                bb_pop(0);
                bb_pop(0);
            }
            continue;
        }
        bb_load(0, random_set());
        bb_load(1, random_set());
        for (int k = 0; k < 60; k++) {
            int d = below(6), x = below(6), y = below(6), form = below(2);
            Bitboard a = reg[x], b = reg[y], t = a;
            switch (below(9)) {
            case 0:
                if (form) { t = a; Bitboard_bitand_assign(&t, b); } else t = Bitboard_bitand(a, b);
                reg[d] = t; P("{\"e\":\"and\",\"d\":%d,\"x\":%d,\"y\":%d,", d + 1, x + 1, y + 1); seen(t); break;
            case 1:
                if (form) { t = a; Bitboard_bitor_assign(&t, b); } else t = Bitboard_bitor(a, b);
                reg[d] = t; P("{\"e\":\"or\",\"d\":%d,\"x\":%d,\"y\":%d,", d + 1, x + 1, y + 1); seen(t); break;
            case 2:
                if (form) { t = a; Bitboard_bitxor_assign(&t, b); } else t = Bitboard_bitxor(a, b);
                reg[d] = t; P("{\"e\":\"xor\",\"d\":%d,\"x\":%d,\"y\":%d,", d + 1, x + 1, y + 1); seen(t); break;
            case 3:
                reg[d] = t = Bitboard_not(a); P("{\"e\":\"not\",\"d\":%d,\"x\":%d,", d + 1, x + 1); seen(t); break;
            case 4:
                reg[d] = t = Bitboard_flip(a); P("{\"e\":\"flip\",\"d\":%d,\"x\":%d,", d + 1, x + 1); seen(t); break;
            case 5: bb_load(d, random_set()); break;
            case 6: case 7: bb_pop(d); break;
            default: {
                int n = below(90);
                while (n--) bb_pop(d);
            }
            }
        }
    }
}

/* -------------------------------------------------------------------- hands */
static Hand hreg[3];
static void counts(Hand h, int *v) {
    for (int k = 1; k <= 14; k++) {
        int c = Hand_count(h, (PieceKind)k);
        /* 0 is what the C interface reports for kinds that cannot be in hand */
        v[k - 1] = Hand_is_hand_piece((PieceKind)k) ? c : (c == 0 ? -1 : -2);
    }
}
static void hand_step(int add, int d, int k) {
    int v[14];
    pending(add ? "Hand_add" : "Hand_remove", d, k);
    bool r = add ? Hand_add(&hreg[d], (PieceKind)k) : Hand_remove(&hreg[d], (PieceKind)k);
    counts(hreg[d], v);
    P("{\"e\":\"%s\",\"d\":%d,\"k\":%d,\"w\":2,\"r\":%d,", add ? "add" : "rem", d + 1, k, r);
    parr("h", v, 14); P(",\"o\":1,\"q\":1}"); endline();
}
static void hand_tab(int d) {
    int all[14], n = 0, is[14], bw[28], z[14];
    for (int k = 1; k <= 14; k++) {
        is[k - 1] = Hand_is_hand_piece((PieceKind)k);
        if (is[k - 1]) all[n++] = k;
    }
    counts(hreg[d], bw); counts(Hand_new(), bw + 14); counts(Hand_new(), z);
    P("{\"e\":\"tab\",\"d\":%d,", d + 1); parr("all", all, n); P(",\"num\":%d,", Hand_NUM_HAND_PIECES);
    parr("is", is, 14); P(","); parr("bw", bw, 28); P(","); parr("other", z, 14); P("}"); endline();
}
static void hands(int amount) {
    for (int sess = 0; sess < amount; sess++) {
        int v[14];
        next_session();
        for (int i = 0; i < 3; i++) hreg[i] = Hand_new();
        counts(hreg[0], v);
        P("{\"e\":\"new\",\"how\":0,"); parr("h", v, 14); P("}"); endline();
        if (sess < 7) {
            /* one kind up past the wrap and down to nothing, with others around */
            for (int j = 1; j <= 7; j++) for (int i = 0; i < j; i++) if (j != sess + 1) hand_step(1, 0, j);
            for (int i = 0; i < 258; i++) hand_step(1, 0, sess + 1);
            for (int i = 0; i < 4; i++) hand_step(0, 0, sess + 1);
            hand_step(0, 1, sess + 1);
            hand_tab(0);
            continue;
        }
        for (int i = 0; i < 150; i++) {
            int d = below(3);
            if (below(12) == 0) hand_tab(d);
            else hand_step(below(3) != 0, d, 1 + (below(4) ? below(7) : below(14)));
        }
    }
}

/* ---------------------------------------------------------------- positions */
typedef struct {
    int pa[81], bp[81], bk[81], bc[81], oc[81], va[81], hp[28], hd[14], sc[9], ct[5], in[100], im[12];
} Obs;
static Obs prev;
static PartialPosition *pp;   /* the session's object: one of the two */
static Position *fp;
static uint8_t *ppbuf;

static void scan(Bitboard b, int *m, int *strays) {
    int n = 0;
    for (int s = 1; s <= 81; s++) n += m[s - 1] = Bitboard_contains(b, (Square)s);
    if (Bitboard_count(b) != n) ++*strays;
}
static int king_of(Bitboard b) { return Bitboard_pop(&b); }
static void last_of(int w, int *sc) {
    if (!w) { for (int i = 0; i < 4; i++) sc[i] = -1; return; }
    CompactMove m = (CompactMove)w;
    sc[0] = CompactMove_is_drop(m);
    sc[1] = sc[0] ? w >> 8 : CompactMove_from(m);  /* the dropped piece: documented layout */
    sc[2] = CompactMove_to(m);
    sc[3] = CompactMove_is_promoting(m);
}
#define GET(f, ...) (fp ? Position_##f(fp, ##__VA_ARGS__) : PartialPosition_##f(pp, ##__VA_ARGS__))
static void summary(const PartialPosition *p, int *v) {
    for (int s = 1; s <= 81; s++) *v++ = PartialPosition_piece_at(p, (Square)s);
    for (int c = 1; c <= 2; c++) {
        Hand h = PartialPosition_hand_of_a_player(p, (Color)c);
        for (int k = 1; k <= 7; k++) *v++ = Hand_count(h, (PieceKind)k);
    }
    *v++ = PartialPosition_side_to_move(p);
    *v++ = PartialPosition_ply(p);
    *v++ = PartialPosition_last_compact_move(p);
    *v++ = king_of(PartialPosition_piece_bitboard(p, 8));
    *v++ = king_of(PartialPosition_piece_bitboard(p, 24));
}
static int same_bb(Bitboard a, Bitboard b) { return Bitboard_is_empty(Bitboard_bitxor(a, b)); }

static void observe(Obs *o) {
    int m[81], strays = 0;
    memset(o, 0, sizeof *o);
    const PartialPosition *in = fp ? Position_inner(fp) : pp;
    for (int s = 1; s <= 81; s++) o->pa[s - 1] = GET(piece_at, (Square)s);
    for (int i = 0; i < 28; i++) {
        scan(GET(piece_bitboard, (Piece)PIECES[i]), m, &strays);
        for (int s = 0; s < 81; s++) if (m[s]) o->bp[s] = o->bp[s] ? o->bp[s] + 1000 : PIECES[i];
    }
    for (int k = 1; k <= 14; k++) {
        scan(PartialPosition_piece_kind_bitboard(in, (PieceKind)k), m, &strays);
        for (int s = 0; s < 81; s++) if (m[s]) o->bk[s] = o->bk[s] ? o->bk[s] + 1000 : k;
    }
    for (int c = 1; c <= 2; c++) {
        Bitboard b = GET(player_bitboard, (Color)c);
        scan(b, m, &strays);
        o->ct[1 + c] = Bitboard_count(b);
        for (int s = 0; s < 81; s++) if (m[s]) o->bc[s] += c;
    }
    scan(GET(occupied_bitboard), o->oc, &strays);
    scan(GET(vacant_bitboard), o->va, &strays);
    o->ct[0] = Bitboard_count(GET(occupied_bitboard));
    o->ct[1] = Bitboard_count(GET(vacant_bitboard));
    o->ct[4] = strays;
    for (int c = 1; c <= 2; c++) {
        Hand h = GET(hand_of_a_player, (Color)c);
        for (int k = 1; k <= 7; k++) o->hd[(c - 1) * 7 + k - 1] = Hand_count(h, (PieceKind)k);
    }
    for (int i = 0; i < 28; i++) {
        Hand h = GET(hand_of_a_player, Piece_color((Piece)PIECES[i]));
        PieceKind k = Piece_piece_kind((Piece)PIECES[i]);
        o->hp[i] = Hand_is_hand_piece(k) ? Hand_count(h, k) : -1;
    }
    o->sc[0] = GET(side_to_move);
    o->sc[1] = GET(ply);
    o->sc[2] = GET(last_compact_move);
    last_of(o->sc[2], o->sc + 3);
    o->sc[7] = king_of(GET(piece_bitboard, 8));
    o->sc[8] = king_of(GET(piece_bitboard, 24));
    if (fp) {
        summary(Position_initial_position(fp), o->in);
        for (int s = 1; s <= 81; s++) o->im[0] |= Position_piece_at(fp, (Square)s) != PartialPosition_piece_at(in, (Square)s);
        for (int i = 0; i < 28; i++)
            o->im[1] |= !same_bb(Position_piece_bitboard(fp, (Piece)PIECES[i]), PartialPosition_piece_bitboard(in, (Piece)PIECES[i]));
        for (int c = 1; c <= 2; c++) {
            o->im[2] |= !same_bb(Position_player_bitboard(fp, (Color)c), PartialPosition_player_bitboard(in, (Color)c));
            Hand a = Position_hand_of_a_player(fp, (Color)c), b = PartialPosition_hand_of_a_player(in, (Color)c);
            for (int k = 1; k <= 14; k++) o->im[6] |= Hand_count(a, (PieceKind)k) != Hand_count(b, (PieceKind)k);
        }
        o->im[3] = !same_bb(Position_occupied_bitboard(fp), PartialPosition_occupied_bitboard(in));
        o->im[4] = !same_bb(Position_vacant_bitboard(fp), PartialPosition_vacant_bitboard(in));
        o->im[7] = Position_side_to_move(fp) != PartialPosition_side_to_move(in);
        o->im[8] = Position_ply(fp) != PartialPosition_ply(in);
        o->im[9] = Position_last_compact_move(fp) != PartialPosition_last_compact_move(in);
        char a[2048], b[2048];
        memset(a, 'x', sizeof a); memset(b, 'x', sizeof b);
        Position_to_sfen_c(fp, (uint8_t *)a); PartialPosition_to_sfen_c(in, (uint8_t *)b);
        a[2047] = b[2047] = 0;
        o->im[11] = strcmp(a, b) != 0;
    }
}
static void delta1(const char *name, const int *now, const int *old, int n) {
    int any = 0;
    for (int i = 0; i < n; i++)
        if (now[i] != old[i]) {
            if (!any) P(",\"%s\":[", name);
            P("%s[%d,%d]", any ? "," : "", i + 1, now[i]);
            any = 1;
        }
    if (any) P("]");
}
static void emit_obs(void) {
    static Obs now;
    observe(&now);
#define D(f) delta1(#f, now.f, prev.f, (int)(sizeof now.f / sizeof(int)))
    D(pa); D(bp); D(bk); D(bc); D(oc); D(va); D(hp); D(hd); D(sc); D(ct);
    if (fp) { D(in); D(im); }
    P("}");
    endline();
    prev = now;
}
static void drop_object(void) {
    if (fp) Position_destruct(fp);
    fp = NULL;
    if (ppbuf) {
        /* nothing may have been written outside the object as the header sizes it */
        for (int i = 0; i < 256; i++)
            if (ppbuf[i] != 0xA5 || ppbuf[256 + sizeof(PartialPosition) + i] != 0xA5) {
                fprintf(stderr, "the library wrote outside a PartialPosition of the header's size\n");
                abort();
            }
        free(ppbuf);
    }
    pp = NULL;
    ppbuf = NULL;
}
static void new_object(int full) {
    drop_object();
#ifndef DEFINE_ALLOC
    full = 0;
#endif
    pending("startpos", full, 0);
    if (full) fp = Position_startpos();
    else {
        ppbuf = aligned_alloc(64, 512 + (sizeof(PartialPosition) + 63) / 64 * 64);
        memset(ppbuf, 0xA5, 512 + sizeof(PartialPosition));
        pp = (PartialPosition *)(ppbuf + 256);
        PartialPosition_startpos(pp);
    }
}
static void pos(FILE *script) {
    char op[16];
    unsigned w;
    while (fscanf(script, "%15s %u", op, &w) == 2) {
        if (op[0] == 'N') {
            next_session();
#ifndef DEFINE_ALLOC
            w = 0;
#endif
            new_object((int)w);
            memset(&prev, 0, sizeof prev);
            for (int i = 0; i < 81; i++) prev.va[i] = 1;
            P("{\"e\":\"new\",\"full\":%u,\"how\":\"startpos\"", w ? 2 : 0);
            emit_obs();
        } else {
            pending("make_compact_move", (long)w, fp != NULL);
            bool r = fp ? Position_make_compact_move(fp, (CompactMove)w) : PartialPosition_make_compact_move(pp, (CompactMove)w);
            int a[4];
            last_of((int)w, a);
            P("{\"e\":\"mv\",\"via\":2,\"m\":[%d,%d,%d,%d],\"r\":%d,\"eq\":%d,\"hq\":1,\"cq\":1", a[0], a[1], a[2], a[3], r, !r);
            emit_obs();
        }
    }
    drop_object();
}

/* --------------------------------------------------------------------- SFEN */
static void sfen_record(void) {
    static uint8_t buf[2][4096];
    const size_t at = 1024;
    size_t len[2];
    int lo = 1, hi = 1, nul = 1;
    for (int k = 0; k < 2; k++) {
        uint8_t fill = k ? 0x3c : 0xc3;
        memset(buf[k], fill, sizeof buf[k]);
        pending("to_sfen_c", fp != NULL, k);
        if (fp) Position_to_sfen_c(fp, buf[k] + at);
        else PartialPosition_to_sfen_c(pp, buf[k] + at);
        size_t n = 0;
        while (n < 2048 && buf[k][at + n]) n++;
        if (n == 2048) nul = 0;
        len[k] = n;
        for (size_t i = 0; i < at; i++) lo &= buf[k][i] == fill;
        for (size_t i = at + n + 1; i < sizeof buf[k]; i++) hi &= buf[k][i] == fill;
    }
    nul &= len[0] == len[1] && memcmp(buf[0] + at, buf[1] + at, len[0]) == 0;
    static Obs o;
    observe(&o);
    P("{\"f\":\"csfen\",\"start\":1,\"full\":%d,", fp != NULL);
    parr("b", o.pa, 81);
    P(",\"h\":[[%d", o.hd[0]);
    for (int i = 1; i < 7; i++) P(",%d", o.hd[i]);
    P("],[%d", o.hd[7]);
    for (int i = 8; i < 14; i++) P(",%d", o.hd[i]);
    P("]],\"c\":%d,\"n\":%d,\"lo\":%d,\"hi\":%d,\"nul\":%d,\"t\":[\"", o.sc[0], o.sc[1], lo, hi, nul);
    for (size_t i = 0; i < len[0]; i++) {
        int c = buf[0][at + i];
        fputc(c < 32 || c > 126 || c == '"' || c == '\\' ? '?' : c, out[cur]);
    }
    P("\"]}");
    rotate();
}
static void sfen(FILE *script) {
    char op[16];
    unsigned w;
    while (fscanf(script, "%15s %u", op, &w) == 2) {
        if (op[0] == 'N') new_object((int)w);
        else if (op[0] == 'S') sfen_record();
        else if (fp) Position_make_compact_move(fp, (CompactMove)w);
        else PartialPosition_make_compact_move(pp, (CompactMove)w);
    }
    drop_object();
}

/* ------------------------------------------------------------------- layout */
static void layout(FILE *script) {
    char n[64];
    unsigned size, align;
    while (fscanf(script, "%63s %u %u", n, &size, &align) == 3) {
        unsigned s = 0, a = 0;
#define T(t) if (!strcmp(n, #t)) { s = sizeof(t); a = _Alignof(t); }
        T(Color) T(GameResolution) T(IllegalMoveKind) T(PieceKind) T(Bitboard) T(Square) T(OptionSquare)
        T(CompactMove) T(Piece) T(OptionGameResolution) T(Hand) T(OptionPiece) T(OptionCompactMove)
        T(PartialPosition) T(OptionPieceKind)
        P("{\"f\":\"layout\",\"ty\":\"%s\",\"lib\":[%u,%u],\"hdr\":[%u,%u]}", n, size, align, s, a);
        rotate();
    }
}

int main(int argc, char **argv) {
    if (argc < 5) return 2;
    open_out(argv[2], atoi(argv[3]));
    const char *what = argv[1];
    if (!strcmp(what, "pos") || !strcmp(what, "sfen") || !strcmp(what, "layout")) {
        FILE *s = fopen(argv[4], "r");
        if (!s) { perror(argv[4]); return 2; }
        if (what[0] == 'p') pos(s);
        else if (what[0] == 's') sfen(s);
        else layout(s);
        fclose(s);
    } else {
        int amount = argc > 5 ? atoi(argv[5]) : 1;
        rs = strtoull(argv[4], NULL, 10) * 7919 + what[0];
        if (!strcmp(what, "values")) values();
        else if (!strcmp(what, "bb")) bb(amount);
        else if (!strcmp(what, "hands")) hands(amount);
        else return 2;
    }
    for (int i = 0; i < nshards; i++) if (fclose(out[i])) return 2;
    return 0;
}
