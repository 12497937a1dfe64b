/* The interpreter of scripts of API calls. It is compiled as C with the C API
 * and as C++ with the classes behind it (see c25.cc). API(x) names a function,
 * the handles are H(type). Everything a call returns is logged. */
#ifndef MAXN
#define MAXN 8
#endif
static void c25_logv(double v) { c25_log(&v, sizeof v); }
#define LOGV(x) c25_logv((double)(x))
#define LOGB(p, n) c25_log((p), (n))

static exseis_Trace_value c25_tap(exseis_Trace_value w, exseis_Trace_value n) { return n == 0 ? w : w / (n + 1); }
static exseis_Trace_value c25_gain(const exseis_Trace_value* s, size_t n, exseis_Trace_value t, size_t c) { return t + s[c] * 0.5f + (exseis_Trace_value)n; }
static bool c25_less(const PIOL_File_Param* p, size_t i, size_t j) { return API(File_getPrm_Integer)(i, PIOL_META_xl, p) > API(File_getPrm_Integer)(j, PIOL_META_xl, p); }

/* ------------------------------------------------------- rules, parameters */
static H(PIOL_File_Rule) * c25_mkrule(int k)
{
    static const PIOL_Meta l1[] = {PIOL_META_il, PIOL_META_xSrc, PIOL_META_tn};
    static const PIOL_Meta l2[] = {PIOL_META_xl, PIOL_META_Offset, PIOL_META_Tic, PIOL_META_gtn};
    switch (k) {
    case 0: return API(File_Rule_new)(true);
    case 1: return API(File_Rule_new)(false);
    case 2: return API(File_Rule_new_from_list)(l1, 3);
    case 3: return API(File_Rule_new_from_list)(l2, 4);
    case 5: {
        H(PIOL_File_Rule)* r = API(File_Rule_new)(false);
        API(File_Rule_addSEGYFloat)(r, PIOL_META_Misc3, PIOL_TR_RcvElv, PIOL_TR_ScaleElev);
        API(File_Rule_addSEGYFloat)(r, PIOL_META_yCmp, PIOL_TR_yRcv, PIOL_TR_ScaleCoord);
        API(File_Rule_addLong)(r, PIOL_META_xl, PIOL_TR_il);
        API(File_Rule_addShort)(r, PIOL_META_Misc2, PIOL_TR_ValMeas);
        API(File_Rule_addIndex)(r, PIOL_META_gtn);
        return r;
    }
    default: return API(File_Rule_new_from_list)(l2, 0);
    }
}
static void c25_rule_op(H(PIOL_File_Rule) * r, H(PIOL_File_Rule) * o, int k)
{
    switch (k) {
    case 0: API(File_Rule_addLong)(r, PIOL_META_il, PIOL_TR_xl); break;
    case 1: API(File_Rule_addLong)(r, PIOL_META_Misc1, PIOL_TR_SeqNum); break;
    case 2: API(File_Rule_addShort)(r, PIOL_META_Tic, PIOL_TR_TIC); break;
    case 3: API(File_Rule_addShort)(r, PIOL_META_Misc2, PIOL_TR_ValMeas); break;
    case 4: API(File_Rule_addSEGYFloat)(r, PIOL_META_xSrc, PIOL_TR_xSrc, PIOL_TR_ScaleCoord); break;
    case 5: API(File_Rule_addSEGYFloat)(r, PIOL_META_Misc3, PIOL_TR_RcvElv, PIOL_TR_ScaleElev); break;
    case 6: API(File_Rule_addIndex)(r, PIOL_META_gtn); break;
    case 7: API(File_Rule_addCopy)(r); break;
    case 8: API(File_Rule_rmRule)(r, PIOL_META_il); break;
    case 9: API(File_Rule_rmRule)(r, PIOL_META_gtn); break;
    case 10: LOGV(API(File_Rule_addRule_Meta)(r, PIOL_META_xl)); break;
    case 11: LOGV(API(File_Rule_addRule_Rule)(r, o)); break;
    case 12: LOGV(API(File_Rule_addRule_Rule)(o, r)); break;
    default: break;
    }
    LOGV(API(File_Rule_memUsage)(r));
    LOGV(API(File_Rule_paramMem)(r));
    LOGV(API(File_Rule_extent)(r));
}
static void c25_all_prm(const PIOL_File_Param* p)
{
    size_t i;
    int m;
    LOGV(API(File_Param_size)(p));
    LOGV(API(File_Param_memUsage)(p));
    for (i = 0; i < API(File_Param_size)(p); i++)
        for (m = 1; m <= 34; m++) {
            LOGV(API(File_getPrm_short)(i, (PIOL_Meta)m, p));
            LOGV(API(File_getPrm_Integer)(i, (PIOL_Meta)m, p));
            LOGV(API(File_getPrm_double)(i, (PIOL_Meta)m, p));
        }
}
static void c25_fill(PIOL_File_Param* p, int id)
{
    size_t i;
    int m;
    for (i = 0; i < API(File_Param_size)(p); i++)
        for (m = 1; m <= 34; m++) {
            int v = id * 1000 + (int)i * 50 + m;
            if (m == PIOL_META_gtn || m == PIOL_META_ltn) continue;
            switch ((m + id) % 3) {
            case 0: API(File_setPrm_short)(i, (PIOL_Meta)m, (int16_t)(i % 2 ? -v : v), p); break;
            case 1: API(File_setPrm_Integer)(i, (PIOL_Meta)m, (i % 2 ? (exseis_Integer)v : (exseis_Integer)v * -40000003), p); break;
            default: API(File_setPrm_double)(i, (PIOL_Meta)m, (exseis_Floating_point)v + (i % 2 ? 0.25 : 100000.1), p); break;
            }
        }
}
static void NAME(rules)(const int* op, int n)
{
    H(PIOL_File_Rule)*r = c25_mkrule(op[0]), *o = c25_mkrule(op[1]), *e = c25_mkrule(4);
    PIOL_File_Param *p, *q, *d;
    int i;
    API(File_Rule_addShort)(e, PIOL_META_Tic, PIOL_TR_TIC);
    for (i = 2; i < n; i++) c25_rule_op(r, o, op[i]);
    LOGV(API(File_Rule_paramMem)(o));
    p = API(File_Param_new)(r, 3);
    q = API(File_Param_new)(o, 2);
    d = API(File_Param_new)(NULL, 2);
    c25_fill(p, 1);
    c25_fill(q, 2);
    c25_fill(d, 3);
    c25_all_prm(p);
    c25_all_prm(q);
    c25_all_prm(d);
    API(File_cpyPrm)(2, p, 0, q);
    API(File_cpyPrm)(1, p, 1, d);
    API(File_cpyPrm)(0, p, 2, p);
    /* the rules may go first */
    API(File_Rule_delete)(r);
    API(File_Rule_delete)(o);
    API(File_Rule_delete)(e);
    c25_all_prm(p);
    c25_all_prm(q);
    c25_all_prm(d);
    API(File_Param_delete)(p);
    API(File_Param_delete)(q);
    API(File_Param_delete)(d);
}
/* ----------------------------------------------------------------- writes */
static void NAME(writes)(const int* op, int n, int rank, int nr)
{
    H(PIOL_ExSeis)* piol      = API(ExSeis_new)(PIOL_VERBOSITY_NONE);
    PIOL_File_WriteDirect* f  = API(File_WriteDirect_new)(piol, "w.segy");
    H(PIOL_File_Rule)* rule   = c25_mkrule(op[0]);
    PIOL_File_Param* p        = API(File_Param_new)(rule, 3);
    PIOL_File_Param* d        = API(File_Param_new)(NULL, 3);
    size_t off[3];
    exseis_Trace_value t[3 * MAXN];
    int i, k, ns = 2;
    char text[64];
    if (op[1]) API(ExSeis_delete)(piol); /* the file keeps what it needs */
    c25_fill(p, 4 + rank);
    c25_fill(d, 7 + rank);
    for (i = 0; i < 3; i++) off[i] = (size_t)(rank + i * nr);
    for (i = 0; i < 3 * MAXN; i++) t[i] = (exseis_Trace_value)(rank * 100 + i) + 0.5f;
    API(File_WriteDirect_writeNs)(f, 2);
    API(File_WriteDirect_writeNt)(f, (size_t)(3 * nr));
    for (i = 2; i < n; i++) switch (op[i]) {
        case 0:
            for (k = 0; k < 40; k++) text[k] = (char)('A' + (k + i) % 26);
            text[40] = 0;
            API(File_WriteDirect_writeText)(f, text);
            break;
        case 1: API(File_WriteDirect_writeNs)(f, (size_t)(ns = 3)); break;
        case 2: API(File_WriteDirect_writeNt)(f, (size_t)(3 * nr + 2)); break;
        case 3: API(File_WriteDirect_writeInc)(f, 0.001 * (i + 1)); break;
        case 4: API(File_WriteDirect_writeTrace)(f, (size_t)(3 * rank), 3, t, p); break;
        case 5: API(File_WriteDirect_writeTrace)(f, (size_t)(2 * rank), 2, t + 1, NULL); break;
        case 6: API(File_WriteDirect_writeTrace)(f, (size_t)rank, 1, t + 2, d); break;
        case 7: API(File_WriteDirect_writeParam)(f, (size_t)(3 * rank), 3, d); break;
        case 8: API(File_WriteDirect_writeTraceNonContiguous)(f, 3, off, t + 3, p); break;
        case 9: API(File_WriteDirect_writeTraceNonContiguous)(f, 2, off + 1, t, NULL); break;
        case 10: API(File_WriteDirect_writeParamNonContiguous)(f, 2, off, p); break;
        case 11: API(File_WriteDirect_writeInc)(f, 0.0); break;
        case 12: API(File_WriteDirect_writeNs)(f, 65538); break;
        default: break;
        }
    API(File_WriteDirect_delete)(f);
    if (!op[1]) {
        API(ExSeis_isErr)(piol, op[0] ? "message" : NULL);
        API(ExSeis_delete)(piol);
    }
    API(File_Rule_delete)(rule);
    API(File_Param_delete)(p);
    API(File_Param_delete)(d);
    LOGV(ns);
}
/* ------------------------------------------------------------------ reads */
static void c25_clear(PIOL_File_Param* p, exseis_Trace_value* t)
{
    size_t i;
    int m;
    for (i = 0; i < API(File_Param_size)(p); i++)
        for (m = 1; m <= 34; m++) API(File_setPrm_Integer)(i, (PIOL_Meta)m, -1, p);
    for (i = 0; i < 3 * MAXN; i++) t[i] = -1.f;
}
static void NAME(reads)(const int* op, int n, int rank, int nr, const char* name, size_t nt)
{
    H(PIOL_ExSeis)* piol    = API(ExSeis_new)(PIOL_VERBOSITY_NONE);
    PIOL_File_ReadDirect* f = API(File_ReadDirect_new)(piol, name);
    H(PIOL_File_Rule)* rule = c25_mkrule(op[0]);
    PIOL_File_Param* p      = API(File_Param_new)(rule, 3);
    PIOL_File_Param* d      = API(File_Param_new)(NULL, 3);
    exseis_Trace_value t[3 * MAXN];
    size_t up[3], any[3];
    struct PIOL_CoordElem mm[4];
    int i;
    API(ExSeis_isErr)(piol, op[1] ? "opened" : NULL);
    for (i = 0; i < 3; i++) {
        up[i]  = (size_t)(rank + 2 * i) % (nt ? nt : 1);
        any[i] = (size_t)(2 * rank + 7 * i + 1) % (nt ? nt : 1);
    }
    if (up[1] <= up[0]) up[1] = up[0] + 1;
    if (up[2] <= up[1]) up[2] = up[1] + 1;
    c25_clear(p, t);
    c25_clear(d, t);
    if (op[1]) API(ExSeis_delete)(piol);
    for (i = 2; i < n; i++) {
        switch (op[i]) {
        case 0: LOGB(API(File_ReadDirect_readText)(f), strlen(API(File_ReadDirect_readText)(f)) + 1); break;
        case 1: LOGV(API(File_ReadDirect_readNs)(f)); break;
        case 2: LOGV(API(File_ReadDirect_readNt)(f)); break;
        case 3: LOGV(API(File_ReadDirect_readInc)(f)); break;
        case 4: API(File_ReadDirect_readTrace)(f, (size_t)rank, 3, t, p); break;
        case 5: API(File_ReadDirect_readTrace)(f, (size_t)rank + 1, 2, t, NULL); break;
        case 6: API(File_ReadDirect_readParam)(f, (size_t)rank, 3, d); break;
        case 7: API(File_ReadDirect_readTraceNonContiguous)(f, 3, up, t, d); break;
        case 8: API(File_ReadDirect_readTraceNonContiguous)(f, 2, up, t + 1, NULL); break;
        case 9: API(File_ReadDirect_readTraceNonMonotonic)(f, 3, any, t, p); break;
        case 10: API(File_ReadDirect_readTraceNonMonotonic)(f, 3, any, t, NULL); break;
        case 11: API(File_ReadDirect_readParamNonContiguous)(f, 3, up, p); break;
        case 12:
            if (!op[1]) {
                API(File_getMinMax)(piol, (size_t)(3 * rank), 3, PIOL_META_il, PIOL_META_xl, p, mm);
                LOGV(mm[0].val), LOGV(mm[0].num), LOGV(mm[1].val), LOGV(mm[1].num), LOGV(mm[2].val), LOGV(mm[2].num), LOGV(mm[3].val), LOGV(mm[3].num);
                API(File_getMinMax)(piol, (size_t)(3 * rank), 2, PIOL_META_xSrc, PIOL_META_Offset, d, mm);
                LOGV(mm[0].val), LOGV(mm[0].num), LOGV(mm[1].val), LOGV(mm[1].num), LOGV(mm[2].val), LOGV(mm[2].num), LOGV(mm[3].val), LOGV(mm[3].num);
            }
            break;
        default: break;
        }
        LOGB(t, sizeof t);
        c25_all_prm(p);
        c25_all_prm(d);
    }
    API(File_Rule_delete)(rule);
    API(File_ReadDirect_delete)(f);
    if (!op[1]) {
        API(ExSeis_isErr)(piol, NULL);
        API(ExSeis_delete)(piol);
    }
    API(File_Param_delete)(p);
    API(File_Param_delete)(d);
    LOGV(nr);
}
/* ------------------------------------------------------------------- sets */
static void NAME(sets)(const int* op, int n, int rank)
{
    H(PIOL_ExSeis)* piol = API(ExSeis_new)((PIOL_Verbosity)op[0]);
    PIOL_Set* s          = API(Set_new)(piol, op[1] ? "s0*" : "s*.segy");
    struct PIOL_CoordElem mm[4];
    char name[16];
    int i;
    for (i = 2; i < n; i++) {
        name[0] = 'o', name[1] = (char)('0' + i), name[2] = 0;
        switch (op[i]) {
        case 0:
            API(Set_getMinMax)(s, PIOL_META_xSrc, PIOL_META_il, mm);
            LOGV(mm[0].val), LOGV(mm[0].num), LOGV(mm[1].val), LOGV(mm[1].num), LOGV(mm[2].val), LOGV(mm[2].num), LOGV(mm[3].val), LOGV(mm[3].num);
            break;
        case 1: API(Set_sort_fn)(s, c25_less); break;
        case 2: API(Set_taper)(s, c25_tap, 1, 2); break;
        case 3: API(Set_taper)(s, API2(cosine_taper), 2, 0); break;
        case 4: API(Set_AGC)(s, c25_gain, 3, 1.5f); break;
        case 5: API(Set_AGC)(s, API2(mean_abs_gain), 1, 4.f); break;
        case 6: API(Set_output)(s, name); break;
        case 7: API(Set_text)(s, name); break;
        case 8: API(Set_summary)(s); break;
        case 9: API(Set_add)(s, "x.segy"); break;
        default:
            if (op[i] >= 35) API(Set_sort)(s, (PIOL_SortType)op[i]);
            break;
        }
    }
    API(Set_output)(s, "last");
    API(ExSeis_isErr)(piol, NULL);
    if (rank == 0 && 0) LOGV(rank);
    API(Set_delete)(s);
    API(ExSeis_delete)(piol);
}
/* ------------------------------------------------------ system, utilities */
static void NAME(misc)(const int* op, int n, int rank, int nr)
{
    H(PIOL_ExSeis)* piol = API(ExSeis_new)((PIOL_Verbosity)op[0]);
    size_t i, j, w;
    exseis_Trace_value s[12], u[12];
    LOGV(API(ExSeis_getRank)(piol));
    LOGV(API(ExSeis_getNumRank)(piol));
    API(ExSeis_barrier)(piol);
    for (i = 0; i < 5; i++) LOGV(API(ExSeis_max)(piol, (size_t)((rank * 7 + (int)i * 5) % 6)));
    LOGV(API(ExSeis_max)(piol, rank == op[1] ? (size_t)1 << 40 : 3));
    LOGV(API(SEGY_utils_getTextSz)());
    LOGV(API(SEGY_utils_getMDSz)());
    for (i = 0; i < 6; i++) {
        LOGV(API(SEGY_utils_getDFSz)(i * 997));
        for (j = 0; j < 6; j++) LOGV(API(SEGY_utils_getFileSz)(i * 1000003, j * 997));
    }
    for (i = 0; i < 12; i++)
        for (j = 1; j < 6; j++)
            for (w = 0; w < j; w++) {
                C25_DEC d = API2(block_decomposition)(i, j, w);
                LOGV(d.local_size);
                LOGV(d.global_offset);
            }
    for (i = 0; i < 12; i++) s[i] = (exseis_Trace_value)((int)((i * 7 + (size_t)op[1]) % 12) - 4) * 1.25f;
    for (w = 1; w < 8; w += 2)
        for (i = 0; i < w; i++) {
            LOGV(API2(rectangular_RMS_gain)(s, w, 2.f, i));
            LOGV(API2(triangular_RMS_gain)(s, w, 2.f, i));
            LOGV(API2(mean_abs_gain)(s, w, 2.f, i));
            LOGV(API2(median_gain)(s, w, 2.f, i));
        }
    for (i = 0; i < 5; i++)
        for (w = 1; w < 6; w++) {
            LOGV(API2(linear_taper)((exseis_Trace_value)i, (exseis_Trace_value)w));
            LOGV(API2(cosine_taper)((exseis_Trace_value)i, (exseis_Trace_value)w));
            LOGV(API2(cosine_square_taper)((exseis_Trace_value)i, (exseis_Trace_value)w));
        }
    for (i = 0; i < 4; i++)
        for (j = 0; j < 4; j++) {
            memcpy(u, s, sizeof u);
            API2(taper)(12, u, i % 2 ? API2(linear_taper) : c25_tap, i, j);
            LOGB(u, sizeof u);
            memcpy(u, s, sizeof u);
            API2(AGC)(12, u, j % 2 ? API2(rectangular_RMS_gain) : c25_gain, 2 * i + 1, 3.f);
            LOGB(u, sizeof u);
        }
    c25_probe(piol);
    API(ExSeis_isErr)(piol, NULL);
    API(ExSeis_isErr)(piol, "no error");
    API(ExSeis_delete)(piol);
    LOGV(n + nr);
}
/* every constant as a program sees it */
static void NAME(constants)(void)
{
    static const size_t c[] = {PIOL_META_COPY, PIOL_META_gtn, PIOL_META_Misc4, PIOL_TR_xSrc, PIOL_TR_ScaleCoord, PIOL_TR_SrcMeasExp, PIOL_SORTTYPE_SrcRcv, PIOL_SORTTYPE_ROffLine, PIOL_VERBOSITY_NONE, PIOL_VERBOSITY_MAX,
                               sizeof(PIOL_Meta), sizeof(PIOL_Tr), sizeof(struct PIOL_CoordElem), sizeof(C25_DEC), sizeof(exseis_Integer), sizeof(exseis_Floating_point), sizeof(exseis_Trace_value), sizeof(PIOL_SortType), sizeof(bool)};
    size_t i;
    for (i = 0; i < sizeof c / sizeof *c; i++) LOGV(c[i]);
}
void NAME(run)(int kind, const int* op, int n, int rank, int nr, const char* name, size_t nt)
{
    switch (kind) {
    case 0: NAME(rules)(op, n); break;
    case 1: NAME(writes)(op, n, rank, nr); break;
    case 2: NAME(reads)(op, n, rank, nr, name, nt); break;
    case 3: NAME(sets)(op, n, rank); break;
    case 4: NAME(misc)(op, n, rank, nr); break;
    default: NAME(constants)(); break;
    }
}
