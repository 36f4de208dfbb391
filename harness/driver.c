/*
 * Conformance driver: executes requests (one per line, TAB-separated,
 * percent-escaped fields) against the real code and answers with one JSON
 * object per line.  It judges nothing; the specification does.
 *
 *   driver IN OUT
 *
 * Requests are carried out by a child process.  When the child dies (crash,
 * exit, time limit) the parent answers {"crash":...} for the request that was
 * being carried out and continues with a new child.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>
#include <math.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>

#include "engine/tree/node.h"
#include "engine/tree/operator.h"
#include "engine/tree/tree_util.h"
#include "engine/tree/tree_to_string.h"
#include "engine/parsing/context.h"
#include "engine/parsing/tokenizer.h"
#include "engine/parsing/parser.h"
#include "engine/transformation/matching.h"
#include "engine/transformation/rewrite_rule.h"
#include "engine/transformation/rule_parsing.h"
#include "engine/transformation/transformation.h"
#include "client/core/arith_context.h"
#include "client/core/arith_evaluation.h"
#include "client/core/history.h"
#include "client/commands/commands.h"
#include "client/simplification/simplification.h"
#include "client/simplification/propositional_context.h"
#include "client/simplification/propositional_evaluation.h"
#include "util/console_util.h"
#include "util/string_util.h"
#include "util/string_builder.h"
#include "util/linked_list.h"
#include "util/vector.h"
#include "util/trie.h"
#include "table/table.h"

/* ------------------------------------------------------------ requests -- */
#define MAXF 4096
static char *F[MAXF];
static int NF;

static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void unescape(char *s)
{
    char *o = s;
    for (; *s; s++)
    {
        if (*s == '%') { *o++ = (char)(hexv(s[1]) * 16 + hexv(s[2])); s += 2; }
        else *o++ = *s;
    }
    *o = 0;
}
static void split(char *line)
{
    NF = 0;
    for (char *p = line; p && NF < MAXF;)
    {
        char *t = strchr(p, '\t');
        if (t) *t++ = 0;
        unescape(p);
        F[NF++] = p;
        p = t;
    }
}
/* next space-separated word of *p, percent-unescaped by caller through fields */
static char *word(char **p)
{
    char *s = *p;
    while (*s == ' ') s++;
    if (!*s) return NULL;
    char *e = strchr(s, ' ');
    if (e) { *e = 0; *p = e + 1; } else *p = s + strlen(s);
    return s;
}

/* ---------------------------------------------------------------- JSON -- */
static FILE *O;
static void jstr(const char *s)
{
    if (!s) { fputs("null", O); return; }
    fputc('"', O);
    for (; *s; s++)
    {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') fprintf(O, "\\%c", c);
        else if (c < 32 || c > 126) fprintf(O, "\\u%04x", c);
        else fputc(c, O);
    }
    fputc('"', O);
}
static int show_bits; /* untracked numbers by identity */
static void jnum(double v)
{
    if (isnan(v)) { fputs("[2,0]", O); return; }
    if (isinf(v)) { fputs(v > 0 ? "[1,0]" : "[-1,0]", O); return; }
    if (v == 0) { fputs(signbit(v) ? "[0,-1]" : "[0,1]", O); return; }
    for (int d = 1; d <= 1024; d *= 2)
    {
        double n = v * d;
        if (fabs(n) > 1073741823.0) break;
        if (n == floor(n)) { fprintf(O, "[%d,%d]", (int)n, d); return; }
    }
    if (show_bits) fprintf(O, "\"%a\"", v); else fputs("[0,0]", O);
}
static const char *PL[] = { "pre", "inf", "post", "fn" };
static void jtree(const Node *t)
{
    if (!t) { fputs("null", O); return; }
    switch (get_type(t))
    {
        case NTYPE_CONSTANT: fputs("{\"k\":\"num\",\"v\":", O); jnum(get_const_value(t)); fputc('}', O); return;
        case NTYPE_VARIABLE: fputs("{\"k\":\"var\",\"n\":", O); jstr(get_var_name(t)); fputc('}', O); return;
        case NTYPE_OPERATOR:
            fprintf(O, "{\"k\":\"op\",\"p\":\"%s\",\"n\":", PL[get_op(t)->placement]);
            jstr(get_op(t)->name);
            fputs(",\"c\":[", O);
            for (size_t i = 0; i < get_num_children(t); i++) { if (i) fputc(',', O); jtree(get_child(t, i)); }
            fputs("]}", O);
    }
}
static const char *PERR[] = { "NULL", "", "ARGS_MALFORMED", "EXPECTED_INFIX", "UNEXPECTED_INFIX", "EXCESS_OPENING_PAREN",
    "UNEXPECTED_CLOSING_PAREN", "UNEXPECTED_DELIMITER", "FUNCTION_WRONG_ARITY", "UNEXPECTED_END_OF_EXPR",
    "EXPECTED_PARAM_LIST", "UNEXPECTED_CHARACTER" };

/* ------------------------------------------- capturing stdout / stderr -- */
static int fd_out, fd_err;
static void cap_init(void)
{
    fd_out = memfd_create("o", 0);
    fd_err = memfd_create("e", 0);
    dup2(fd_out, 1);
    dup2(fd_err, 2);
    setvbuf(stderr, NULL, _IONBF, 0);
}
static char *cap_take(int fd, FILE *f)
{
    fflush(f);
    off_t n = lseek(fd, 0, SEEK_END);
    char *b = malloc((size_t)n + 1);
    lseek(fd, 0, SEEK_SET);
    ssize_t r = read(fd, b, (size_t)n);
    b[r < 0 ? 0 : r] = 0;
    if (ftruncate(fd, 0)) {}
    lseek(fd, 0, SEEK_SET);
    return b;
}
static void cap_drop(void) { free(cap_take(fd_out, stdout)); free(cap_take(fd_err, stderr)); }

/* ------------------------------------------------------------ contexts -- */
#define MAXC 64
static struct { char name[64]; ParsingContext c; const ParsingContext *p; } C[MAXC];
static int NC;
static const ParsingContext *ctx(const char *n)
{
    for (int i = 0; i < NC; i++) if (!strcmp(C[i].name, n)) return C[i].p;
    fprintf(O, "{\"badctx\":1}\n"); fflush(O); _exit(99);
}
static char *made[4096];     /* names given to operators */
static int NMADE;
static Operator op_of(char *spec, bool *glue)
{
    char *k = word(&spec), *n = strdup(word(&spec)), *a = word(&spec), *b = word(&spec);
    if (NMADE < 4096) made[NMADE++] = n;
    *glue = b && strchr(b, 'G');
    if (!strcmp(k, "pre")) return op_get_prefix(n, (Precedence)atoi(a));
    if (!strcmp(k, "post")) return op_get_postfix(n, (Precedence)atoi(a));
    if (!strcmp(k, "inf")) return op_get_infix(n, (Precedence)atoi(a), b[0] == 'L' ? OP_ASSOC_LEFT : OP_ASSOC_RIGHT);
    if (atoi(a) == 0) return op_get_constant(n);
    return op_get_function(n, atoi(a) < 0 ? OP_DYNAMIC_ARITY : (size_t)atoi(a));
}
static void do_ctx(void) /* ctx NAME op... */
{
    int i = NC++;
    snprintf(C[i].name, 64, "%s", F[1]);
    C[i].c = ctx_create();
    for (int j = 2; j < NF; j++)
    {
        bool glue;
        const Operator *o = ctx_add_op(&C[i].c, op_of(F[j], &glue));
        if (glue) ctx_set_glue_op(&C[i].c, o);
    }
    C[i].p = &C[i].c;
}

/* -------------------------------------------------- tokenizing, parsing -- */
static void jtoks(const Vector *v)
{
    fputc('[', O);
    for (size_t i = 0; i < vec_count(v); i++) { if (i) fputc(',', O); jstr(*(char**)vec_get(v, i)); }
    fputc(']', O);
}
static void do_tok(void) /* tok CTX TEXT */
{
    Vector v = tokenize(F[2], &ctx(F[1])->keywords_trie);
    fputs("\"toks\":", O);
    jtoks(&v);
    free_tokens(&v);
}
static void strip_ansi(char *s)
{
    char *o = s;
    while (*s)
    {
        if (*s == 27) { while (*s && *s != 'm') s++; if (*s) s++; }
        else *o++ = *s++;
    }
    *o = 0;
}
static void do_parse(void) /* parse CTX TEXT */
{
    const ParsingContext *c = ctx(F[1]);
    ParsingResult r;
    bool ok = parse_input(c, F[2], &r);
    fprintf(O, "\"ok\":%d,\"err\":\"%s\",\"at\":%d,\"toks\":", ok, PERR[r.error], ok ? 0 : (int)r.error_token);
    jtoks(&r.tokens);
    if (ok)
    {
        fputs(",\"tree\":", O);
        jtree(r.tree);
        char *s = tree_to_str(r.tree, false);
        char *col = tree_to_str(r.tree, true);
        fputs(",\"str\":", O);
        jstr(s);
        strip_ansi(col);
        fputs(",\"col\":", O);
        jstr(col);
        ParsingResult r2;
        if (parse_input(c, s, &r2))
        {
            fprintf(O, ",\"eq\":%d,\"re\":", tree_equals(r.tree, r2.tree));
            jtree(r2.tree);
            free_result(&r2, true);
        }
        else
        {
            fputs(",\"eq\":0,\"re\":null", O);
            free_result(&r2, false);
        }
        free(s);
        free(col);
        free_result(&r, true);
    }
    else free_result(&r, false);
}
static void do_ptoks(void) /* ptoks CTX TOKEN... : parse a given token sequence */
{
    Node *t = NULL;
    size_t at = 0;
    ParserError e = parse_tokens(ctx(F[1]), (size_t)(NF - 2), (const char**)F + 2, &t, &at);
    fprintf(O, "\"err\":\"%s\",\"at\":%d,\"tree\":", PERR[e], e == PERR_SUCCESS ? 0 : (int)at);
    jtree(e == PERR_SUCCESS ? t : NULL);
    if (e == PERR_SUCCESS) free_tree(t);
}
static Node *parse1(const ParsingContext *c, const char *s)
{
    ParsingResult r;
    Node *t = NULL;
    if (parse_input(c, s, &r)) { t = r.tree; free_result(&r, false); }
    else free_result(&r, false);
    return t;
}
/* eval TEXT hist... : evaluate in the arithmetic context, history oldest first */
static void do_eval(void)
{
    init_history();
    for (int i = 2; i < NF; i++) history_add(strtod(F[i], NULL));
    Node *t = parse1(ctx("arith"), F[1]);
    if (!t) { fputs("\"perr\":1", O); unload_history(); return; }
    double v = 0;
    ListenerError e = tree_reduce(t, arith_op_evaluate, &v, NULL);
    fprintf(O, "\"err\":%d", e);
    if (e == 0) { fprintf(O, ",\"s\":\"%.17g\",\"v\":", v); jnum(v); }
    free_tree(t);
    unload_history();
}

/* ------------------------------------------------------------- rewriting -- */
static void jlist(const NodeList *l)
{
    if (!l->nodes) { fputs("null", O); return; }
    fputc('[', O);
    for (size_t i = 0; i < l->size; i++) { if (i) fputc(',', O); jtree(l->nodes[i]); }
    fputc(']', O);
}
static void jmatching(const Matching *m, size_t n)
{
    fputc('[', O);
    for (size_t i = 0; i < n; i++) { if (i) fputc(',', O); jlist(&m->mapped_nodes[i]); }
    fputc(']', O);
}
static void do_match(void) /* match CTX PATTERN TREE */
{
    const ParsingContext *c = ctx(F[1]);
    Pattern p;
    if (!parse_pattern(F[2], c, &p)) { fputs("\"bad\":\"pattern\"", O); return; }
    Node *t = parse1(c, F[3]);
    if (!t) { fputs("\"bad\":\"tree\"", O); free_pattern(&p); return; }
    show_bits = 1;
    const char *vars[MAX_MAPPED_VARS];
    bool suff;
    size_t n = list_variables(p.pattern, MAX_MAPPED_VARS, vars, &suff);
    fputs("\"pat\":", O);
    jtree(p.pattern);
    fputs(",\"tree\":", O);
    jtree(t);
    fputs(",\"vars\":[", O);
    for (size_t i = 0; i < n; i++) { if (i) fputc(',', O); jstr(vars[i]); }
    Matching *ms = NULL;
    size_t k = get_all_matchings((const Node**)&t, &p, propositional_checker, &ms);
    fputs("],\"all\":[", O);
    for (size_t i = 0; i < k; i++) { if (i) fputc(',', O); jmatching(&ms[i], n); }
    free(ms);
    Matching m;
    bool got = get_matching((const Node**)&t, &p, propositional_checker, &m);
    fprintf(O, "],\"got\":%d,\"first\":", got);
    if (got) jmatching(&m, n); else fputs("[]", O);
    Node **w = find_matching((const Node**)&t, &p, propositional_checker, &m);
    fprintf(O, ",\"found\":%d,\"at\":", w != NULL);
    jtree(w ? *w : t);
    fputs(",\"fm\":", O);
    if (w) jmatching(&m, n); else fputs("[]", O);
    show_bits = 0;
    free_tree(t);
    free_pattern(&p);
}
static void do_rules(void) /* rules CTX CAP TREE RULE... */
{
    const ParsingContext *c = ctx(F[1]);
    Node *t = parse1(c, F[3]);
    if (!t) { fputs("\"bad\":\"tree\"", O); return; }
    Vector rs = get_empty_ruleset();
    for (int i = 4; i < NF; i++)
    {
        RewriteRule r;
        if (!parse_rule(F[i], c, &r)) { fprintf(O, "\"bad\":\"rule %d\"", i - 3); free_tree(t); free_ruleset(&rs); return; }
        add_to_ruleset(&rs, r);
    }
    size_t cap = (size_t)atoi(F[2]);
    fputs("\"in\":", O);
    jtree(t);
    size_t n = apply_ruleset(&t, &rs, propositional_checker, cap);
    fprintf(O, ",\"n\":%d,\"tree\":", (int)n);
    jtree(t);
    free_tree(t);
    free_ruleset(&rs);
}
static void jrule(const RewriteRule *r)
{
    fputs("{\"pat\":", O);
    jtree(r->pattern.pattern);
    fputs(",\"after\":", O);
    jtree(r->after);
    fputs(",\"cons\":[", O);
    bool first = true;
    for (size_t i = 0; i < MAX_MAPPED_VARS; i++)
        for (size_t j = 0; j < r->pattern.num_constraints[i]; j++)
        {
            if (!first) fputc(',', O);
            first = false;
            fprintf(O, "{\"on\":%d,\"t\":", (int)i);
            jtree(r->pattern.constraints[i][j]);
            fputc('}', O);
        }
    fputs("]}", O);
}
static void do_rulefile(void) /* rulefile CTX MAX TEXT */
{
    FILE *f = tmpfile();
    fputs(F[3], f);
    rewind(f);
    int max = atoi(F[2]);
    Vector rs[16];
    for (int i = 0; i < max; i++) rs[i] = get_empty_ruleset();
    ssize_t n = parse_rulesets_from_file(f, ctx(F[1]), (size_t)max, rs);
    fclose(f);
    fprintf(O, "\"n\":%d,\"sets\":[", (int)n);
    for (int i = 0; i < max && n >= 0; i++)
    {
        if (i) fputc(',', O);
        fputc('[', O);
        for (size_t j = 0; j < vec_count(&rs[i]); j++) { if (j) fputc(',', O); jrule((RewriteRule*)vec_get(&rs[i], j)); }
        fputc(']', O);
    }
    for (int i = 0; i < max; i++) free_ruleset(&rs[i]);
    fputs("],\"errs\":", O);
    char *e = cap_take(fd_err, stderr);
    jstr(e);
    free(e);
}

/* ---------------------------------------------------------------- memory -- */
/* blocks on the heap, counted by the address sanitizer's hooks               */
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static long live;
static void on_malloc(const volatile void *p, size_t n) { (void)p; (void)n; live++; }
static void on_free(const volatile void *p) { if (p) live--; }
static void mem_init(void)
{
    static bool done;
    if (!done && __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) == 0) _exit(99);
    done = true;
    printf("%g ", 0.5);      /* what the C library allocates once */
    cap_drop();
}

/* --------------------------------------------------------------- sessions -- */
/* sess FLAGS RULES LINE... ; FLAGS: i = interactive; RULES: path or "-"      */
static void do_sess(void)
{
    bool inter = strchr(F[1], 'i') != NULL;
    init_commands();
    if (strcmp(F[2], "-") != 0 && init_simplification(F[2]) < 0) { fputs("\"bad\":\"rules\"", O); return; }
    cap_drop();
    set_interactive(inter);
    long start = live;
    fputs("\"r\":[", O);
    for (int i = 3; i < NF; i++)
    {
        char *s = strdup(F[i]);
        bool ok = exec_command(s);
        free(s);
        long mem = live - start;
        char *o = cap_take(fd_out, stdout), *e = cap_take(fd_err, stderr);
        fprintf(O, "%s{\"ok\":%d,\"mem\":%ld,\"out\":", i > 3 ? "," : "", ok, mem);
        jstr(o);
        fputs(",\"err\":", O);
        jstr(e);
        fputc('}', O);
        free(o);
        free(e);
    }
    fputc(']', O);
    set_interactive(false);
    unload_commands();
    cap_drop();
}
static const char *lname(ListenerError e)
{
    switch (e)
    {
        case LISTENERERR_SUCCESS: return "";
        case LISTENERERR_VARIABLE_ENCOUNTERED: return "VARIABLE";
        case LISTENERERR_HISTORY_NOT_SET: return "HISTORY_NOT_SET";
        case LISTENERERR_IMPOSSIBLE_DERIV: return "IMPOSSIBLE_DERIV";
        case LISTENERERR_MALFORMED_DERIV_A: return "MALFORMED_DERIV_A";
        case LISTENERERR_MALFORMED_DERIV_B: return "MALFORMED_DERIV_B";
        case LISTENERERR_DIVISION_BY_ZERO: return "DIVISION_BY_ZERO";
        case LISTENERERR_COMPLEX_SOLUTION: return "COMPLEX_SOLUTION";
        default: return "OTHER";
    }
}
/* evaluation that keeps the largest magnitude met on the way */
static double seen_max, jitter;
static unsigned jitter_n;
static ListenerError seen(const Operator *op, size_t n, const double *args, double *out)
{
    for (size_t i = 0; i < n; i++) if (fabs(args[i]) > seen_max) seen_max = fabs(args[i]);
    ListenerError e = arith_op_evaluate(op, n, args, out);
    if (e == LISTENERERR_SUCCESS && jitter != 0 && *out != trunc(*out))    /* every result that is no integer is a little off */
    {
        jitter_n = jitter_n * 1103515245u + 12345u;
        *out *= 1 + jitter * ((jitter_n >> 16 & 1023) / 1023.0 * ((jitter_n >> 28 & 1) ? 1 : -1));
    }
    if (e == LISTENERERR_SUCCESS && fabs(*out) > seen_max) seen_max = fabs(*out);
    return e;
}
static void value_at(const Node *t, char *point, double shift)
{
    Node *c = tree_copy(t);
    char *p = strdup(point), *save = NULL;
    for (char *a = strtok_r(p, ";", &save); a; a = strtok_r(NULL, ";", &save))
    {
        char *eq = strchr(a, '=');
        *eq = 0;
        Node *k = malloc_constant_node(strtod(eq + 1, NULL) * (1 + shift) + shift, 0);
        replace_variable_nodes(&c, k, a);
        free_tree(k);
    }
    double v = 0;
    seen_max = 0;
    jitter = shift;
    jitter_n = 7;
    ListenerError e = tree_reduce(c, seen, &v, NULL);
    if (fabs(v) > seen_max) seen_max = fabs(v);
    fprintf(O, "{\"e\":%d,\"s\":\"%.17g\",\"max\":\"%.17g\"}", e, e ? 0 : v, e ? 0 : seen_max);
    free_tree(c);
    free(p);
}
/* simp RULES RULES2 EXPR POINT... : load RULES, then RULES2 ("-": none), and simplify */
static void do_simp(void)
{
    init_commands();
    int l1 = strcmp(F[1], "-") != 0 ? (int)init_simplification(F[1]) : 0;
    int l2 = strcmp(F[2], "-") != 0 ? (int)init_simplification(F[2]) : 0;
    char *errs = cap_take(fd_err, stderr);
    cap_drop();
    fprintf(O, "\"l1\":%d,\"l2\":%d,\"errs\":", l1, l2);
    jstr(errs);
    free(errs);
    ParsingResult r;
    if (!parse_input(g_ctx, F[3], &r)) { fputs(",\"perr\":1", O); free_result(&r, false); unload_commands(); cap_drop(); return; }
    Node *in = tree_copy(r.tree);
    fputs(",\"in\":", O);
    jtree(in);
    const Node *errnode = NULL;
    ListenerError e = simplify(&r.tree, &errnode);
    fprintf(O, ",\"err\":\"%s\"", lname(e));
    if (e == 0)
    {
        fputs(",\"out\":", O);
        jtree(r.tree);
        char *s = tree_to_str(r.tree, false);
        fputs(",\"str\":", O);
        jstr(s);
        free(s);
        fputs(",\"pts\":[", O);
        for (int i = 4; i < NF; i++)
        {
            fputs(i > 4 ? ",{\"a\":" : "{\"a\":", O);
            value_at(in, F[i], 0);
            fputs(",\"near\":", O);
            value_at(in, F[i], 1e-9);
            fputs(",\"b\":", O);
            value_at(r.tree, F[i], 0);
            fputs(",\"bn\":", O);
            value_at(r.tree, F[i], 1e-9);
            fputc('}', O);
        }
        fputc(']', O);
    }
    free_tree(in);
    free_result(&r, true);
    unload_commands();
    cap_drop();
}

/* ------------------------------------------------------------- containers -- */
static void fillelem(uint8_t *b, size_t n, int v) { for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(v * 7 + (int)i * 13 + 1); }
static int elemval(const uint8_t *b, size_t n)
{
    for (int v = 0; v < 36; v++)
    {
        uint8_t x[512];
        fillelem(x, n, v);
        if (memcmp(x, b, n) == 0) return v;
    }
    return -1;
}
static void jvec(Vector *v, size_t es)
{
    fprintf(O, "{\"n\":%d,\"e\":[", (int)vec_count(v));
    for (size_t i = 0; i < vec_count(v); i++) fprintf(O, "%s%d", i ? "," : "", elemval(vec_get(v, i), es));
    fputs("],\"it\":[", O);
    VectorIterator it = vec_get_iterator(v);
    void *p;
    bool first = true;
    for (int round = 0; round < 2; round++)
    {
        while ((p = iterator_get_next((Iterator*)&it)) != NULL) { fprintf(O, "%s%d", first ? "" : ",", elemval(p, es)); first = false; }
        iterator_reset((Iterator*)&it);
    }
    fputs("]}", O);
}
static void do_vec(void) /* vec ELEM START op... */
{
    size_t es = (size_t)atoi(F[1]);
    Vector v = vec_create(es, (size_t)atoi(F[2]));
    uint8_t b[512 * 16];
    fputs("\"r\":[", O);
    for (int i = 3; i < NF; i++)
    {
        char *s = F[i], *k = word(&s), *a;
        int ret = -9;
        void *p = NULL;
        if (!strcmp(k, "push")) { fillelem(b, es, atoi(word(&s))); p = vec_push(&v, b); ret = elemval(p, es); }
        else if (!strcmp(k, "pushe")) { fillelem(b, es, atoi(word(&s))); p = vec_push_empty(&v); memcpy(p, b, es); ret = elemval(vec_peek(&v), es); }
        else if (!strcmp(k, "many"))
        {
            int n = 0;
            while ((a = word(&s))) fillelem(b + es * (size_t)n++, es, atoi(a));
            vec_push_many(&v, (size_t)n, b);
            ret = n;
        }
        else if (!strcmp(k, "reps")) { ret = atoi(word(&s)); for (int j = 1; j <= ret; j++) { fillelem(b, es, j % 30); vec_push(&v, b); } }
        else if (!strcmp(k, "bulk"))
        {   /* all of them at once */
            ret = atoi(word(&s));
            uint8_t *all = malloc(es * (size_t)ret);
            for (int j = 1; j <= ret; j++) fillelem(all + es * (size_t)(j - 1), es, j % 30);
            vec_push_many(&v, (size_t)ret, all);
            free(all);
        }
        else if (!strcmp(k, "pops")) { ret = atoi(word(&s)); for (int j = 1; j <= ret; j++) vec_pop(&v); }
        else if (!strcmp(k, "pop")) { p = vec_pop(&v); ret = p ? elemval(p, es) : -2; }
        else if (!strcmp(k, "peek")) { p = vec_peek(&v); ret = p ? elemval(p, es) : -2; }
        else if (!strcmp(k, "get")) { ret = elemval(vec_get(&v, (size_t)atoi(word(&s))), es); }
        else if (!strcmp(k, "set")) { int ix = atoi(word(&s)); fillelem(b, es, atoi(word(&s))); memcpy(vec_get(&v, (size_t)ix), b, es); ret = ix; }
        else if (!strcmp(k, "clear")) { vec_clear(&v); ret = 0; }
        else if (!strcmp(k, "trim")) { vec_trim(&v); ret = 0; }
        else if (!strcmp(k, "ensure")) { vec_ensure_size(&v, (size_t)atoi(word(&s))); ret = 0; }
        fprintf(O, "%s{\"ret\":%d,\"s\":", i > 3 ? "," : "", ret);
        jvec(&v, es);
        fputc('}', O);
    }
    fputc(']', O);
    vec_destroy(&v);
}
static void do_list(void) /* list ELEM op... */
{
    size_t es = (size_t)atoi(F[1]);
    LinkedList l = list_create(es);
    uint8_t b[512];
    fputs("\"r\":[", O);
    for (int i = 2; i < NF; i++)
    {
        char *s = F[i], *k = word(&s);
        int ret = -9;
        ListNode *n = NULL;
        if (!strcmp(k, "app")) { fillelem(b, es, atoi(word(&s))); n = list_append(&l, b); ret = elemval(listnode_get_data(n), es); }
        else if (!strcmp(k, "insat")) { int ix = atoi(word(&s)); fillelem(b, es, atoi(word(&s))); n = list_insert_at(&l, (size_t)ix, b); ret = elemval(listnode_get_data(n), es); }
        else if (!strcmp(k, "insafter"))
        {   /* index -1: at the start */
            int ix = atoi(word(&s));
            fillelem(b, es, atoi(word(&s)));
            n = list_insert_after(&l, ix < 0 ? NULL : list_get_node(&l, (size_t)ix), b);
            ret = elemval(listnode_get_data(n), es);
        }
        else if (!strcmp(k, "reps")) { ret = atoi(word(&s)); for (int j = 1; j <= ret; j++) { fillelem(b, es, j % 30); list_append(&l, b); } }
        else if (!strcmp(k, "delat")) { list_delete_at(&l, (size_t)atoi(word(&s))); ret = 0; }
        else if (!strcmp(k, "delnode")) { list_delete_node(&l, list_get_node(&l, (size_t)atoi(word(&s)))); ret = 0; }
        else if (!strcmp(k, "destroy")) { list_destroy(&l); l = list_create(es); ret = 0; }
        fprintf(O, "%s{\"ret\":%d,\"s\":{\"n\":%d,\"e\":[", i > 2 ? "," : "", ret, (int)list_count(&l));
        for (size_t j = 0; j < list_count(&l); j++) fprintf(O, "%s%d", j ? "," : "", elemval(list_get_at(&l, j), es));
        fputs("],\"it\":[", O);
        LinkedListIterator it = list_get_iterator(&l);
        void *p;
        bool first = true;
        for (int round = 0; round < 2; round++)
        {
            while ((p = iterator_get_next((Iterator*)&it)) != NULL) { fprintf(O, "%s%d", first ? "" : ",", elemval(p, es)); first = false; }
            iterator_reset((Iterator*)&it);
        }
        fputs("],\"nx\":[", O);
        first = true;
        for (ListNode *c = l.first; list_count(&l) && c; c = listnode_get_next(c)) { fprintf(O, "%s%d", first ? "" : ",", elemval(listnode_get_data(c), es)); first = false; }
        fputs("]}}", O);
    }
    fputc(']', O);
    list_destroy(&l);
}
/* trie ELEM PROBES op... ; PROBES: space-separated probe texts, "-" is ""    */
static char *numbered(char *buf, const char *base, int j) { sprintf(buf, "%s%c%c", base, 'a' + j / 26, 'a' + j % 26); return buf; }
static void do_trie(void)
{
    size_t es = (size_t)atoi(F[1]);
    bool through = strchr(F[1], 'n') == NULL;
    char buf[2000];
    Trie t = trie_create(es);
    char *probes[64];
    int np = 0;
    for (char *s = F[2], *w; (w = word(&s));) probes[np++] = strcmp(w, "-") == 0 ? "" : w;
    fputs("\"r\":[", O);
    for (int i = 3; i < NF; i++)
    {
        char *s = F[i], *k = word(&s), *w = word(&s);
        if (strcmp(w, "-") == 0) w = "";
        int ret = -9;
        if (!strcmp(k, "add"))
        {
            void *p = trie_add_str(&t, w);
            ret = p != NULL;
            if (p) fillelem(p, es, atoi(word(&s)));
        }
        else if (!strcmp(k, "rem")) { trie_remove_str(&t, w); ret = 0; }
        else if (!strcmp(k, "adds"))
        {
            int n = atoi(word(&s));
            ret = 0;
            for (int j = 0; j < n; j++) { void *p = trie_add_str(&t, numbered(buf, w, j)); if (p) { ret++; fillelem(p, es, j % 30); } }
        }
        else if (!strcmp(k, "rems")) { ret = atoi(word(&s)); for (int j = 0; j < ret; j++) trie_remove_str(&t, numbered(buf, w, j)); }
        fprintf(O, "%s{\"ret\":%d,\"n\":%d,\"p\":[", i > 3 ? "," : "", ret, (int)trie_count(&t));
        for (int j = 0; j < np; j++)
        {
            void *d = NULL;
            bool in = trie_contains(&t, probes[j], &d);
            int pv = in && es ? elemval(d, es) : -1;
            void *d2 = NULL;
            size_t lp = trie_longest_prefix(&t, probes[j], &d2);
            int pv2 = lp && es ? elemval(d2, es) : -1;
            bool in2 = trie_contains(&t, probes[j], NULL);
            size_t lp2 = trie_longest_prefix(&t, probes[j], NULL);
            fprintf(O, "%s[%d,%d,%d,%d]", j ? "," : "", in == in2 ? in : -5, pv, lp == lp2 ? (int)lp : -5, pv2);
        }
        fputs("],\"it\":[", O);
        TrieIterator it = trie_get_iterator(&t);
        void *p;
        bool first = true;
        for (int round = 0; round < 2 && through; round++)
        {
            int guard = 0;
            while ((p = iterator_get_next((Iterator*)&it)) != NULL && guard++ < 1000)
            {
                fputs(first ? "{\"s\":" : ",{\"s\":", O);
                jstr(trie_get_current_string(&it));
                fprintf(O, ",\"v\":%d}", es ? elemval(p, es) : -1);
                first = false;
            }
            if (round == 0) iterator_reset((Iterator*)&it);
        }
        fputs("]}", O);
    }
    fputc(']', O);
    trie_destroy(&t);
}
static void do_strb(void) /* strb START op... */
{
    StringBuilder b = strcmp(F[1], "h") == 0 ? strbuilder_from_heapstring(strdup("heap")) : strbuilder_create((size_t)atoi(F[1]));
    fputs("\"r\":[", O);
    for (int i = 2; i < NF; i++)
    {
        char *k = F[i], *a = strchr(k, ' ');
        if (a) *a++ = 0;
        if (!strcmp(k, "app")) strbuilder_append(&b, "%s", a);
        else if (!strcmp(k, "lit")) strbuilder_append(&b, "100%%<%s|%d>", a, 42);
        else if (!strcmp(k, "int")) strbuilder_append(&b, "%5d", atoi(a));
        else if (!strcmp(k, "chr")) strbuilder_append_char(&b, a[0]);
        else if (!strcmp(k, "clear")) strbuilder_clear(&b);
        fprintf(O, "%s{\"n\":%d,\"s\":", i > 2 ? "," : "", (int)vec_count(&b));
        jstr(strbuilder_to_str(&b));
        fputc('}', O);
    }
    fputc(']', O);
    vec_destroy(&b);
}
static void jop(const Operator *o)
{
    if (!o) { fputs("{\"in\":0}", O); return; }
    fprintf(O, "{\"in\":1,\"n\":");
    jstr(o->name);
    fprintf(O, ",\"p\":\"%s\",\"ar\":%d,\"prec\":%d,\"as\":\"%s\"}", PL[o->placement],
        o->arity == OP_DYNAMIC_ARITY ? -1 : (int)o->arity, (int)o->precedence, o->assoc == OP_ASSOC_LEFT ? "L" : "R");
}
static OpPlacement pl_of(const char *s) { for (int i = 0; i < 4; i++) if (!strcmp(PL[i], s)) return (OpPlacement)i; return 0; }
/* ops NAMES TEXT op... ; after each op all names are looked up in all places */
static void do_ops(void)
{
    int own = NMADE;
    ParsingContext c = ctx_create();
    char *names[32];
    int nn = 0;
    for (char *s = F[1], *w; (w = word(&s));) names[nn++] = w;
    fputs("\"r\":[", O);
    for (int i = 3; i < NF; i++)
    {
        char *s = F[i], *k = word(&s);
        int ret = -9;
        if (!strcmp(k, "add"))
        {
            bool glue;
            const Operator *o = ctx_add_op(&c, op_of(s, &glue));
            ret = o != NULL;
        }
        else if (!strcmp(k, "addmany"))
        {
            bool g;
            char *s2 = strchr(s, ';');
            *s2++ = 0;
            Operator a = op_of(s, &g), b2 = op_of(s2, &g);
            ret = ctx_add_ops(&c, 2, a, b2);
        }
        else if (!strcmp(k, "adds"))
        {
            int n = atoi(word(&s)), prec = atoi(word(&s));
            char buf[20];
            ret = 0;
            for (int j = 0; j < n; j++)
            {
                char *own_name = made[NMADE++] = strdup(numbered(buf, "q", j));
                ret += ctx_add_op(&c, op_get_prefix(own_name, prec)) != NULL;
            }
        }
        else if (!strcmp(k, "dels"))
        {
            int n = atoi(word(&s));
            char buf[20];
            ret = 0;
            for (int j = 0; j < n; j++) ret += ctx_delete_op(&c, numbered(buf, "q", j), OP_PLACE_PREFIX);
        }
        else if (!strcmp(k, "del")) { char *p = word(&s); ret = ctx_delete_op(&c, word(&s), pl_of(p)); }
        else if (!strcmp(k, "glue"))
        {
            char *p = word(&s);
            if (!strcmp(p, "none")) ret = ctx_set_glue_op(&c, NULL);
            else
            {
                const Operator *o = ctx_lookup_op(&c, word(&s), pl_of(p));
                ret = o ? ctx_set_glue_op(&c, o) : -3;
            }
        }
        fprintf(O, "%s{\"ret\":%d,\"cnt\":%d,\"l\":[", i > 3 ? "," : "", ret, (int)list_count(&c.op_list));
        for (int j = 0; j < nn; j++)
            for (int p = 0; p < 4; p++)
            {
                if (j || p) fputc(',', O);
                jop(ctx_lookup_op(&c, names[j], (OpPlacement)p));
            }
        fputs("],\"ids\":[", O);
        LinkedListIterator it = list_get_iterator(&c.op_list);
        Operator *o;
        bool first = true;
        while ((o = iterator_get_next((Iterator*)&it)) != NULL) { fprintf(O, "%s%d", first ? "" : ",", (int)o->id); first = false; }
        fputs("],\"g\":", O);
        jop(c.glue_op);
        Vector v = tokenize(F[2], &c.keywords_trie);
        fputs(",\"toks\":", O);
        jtoks(&v);
        free_tokens(&v);
        fputc('}', O);
    }
    fputc(']', O);
    ctx_destroy(&c);
    while (NMADE > own) free(made[--NMADE]);
}

/* ------------------------------------------------------------------ tables -- */
/* table op... : cells and settings, then the rendered text                   */
static TableHAlign ha(const char *s) { return *s == 'l' ? H_ALIGN_LEFT : *s == 'r' ? H_ALIGN_RIGHT : H_ALIGN_CENTER; }
static TableVAlign va(const char *s) { return *s == 't' ? V_ALIGN_TOP : *s == 'b' ? V_ALIGN_BOTTOM : V_ALIGN_CENTER; }
static TableBorderStyle bs(const char *s) { return *s == 'd' ? BORDER_DOUBLE : *s == 's' ? BORDER_SINGLE : BORDER_NONE; }
static void do_table(void)
{
    Table *t = get_empty_table();
    for (int i = 1; i < NF; i++)
    {
        char *k = F[i], *s = strchr(k, ' ');
        if (s) *s++ = 0; else s = "";
        if (!strcmp(k, "cell")) add_cell(t, s);
        else if (!strcmp(k, "gc")) add_cell_gc(t, strdup(s));
        else if (!strcmp(k, "fmt")) add_cell_fmt(t, "%s", s);
        else if (!strcmp(k, "empty")) add_empty_cell(t);
        else if (!strcmp(k, "row")) next_row(t);
        else if (!strcmp(k, "span")) { char *a = word(&s), *b = word(&s); set_span(t, (size_t)atoi(a), (size_t)atoi(b)); }
        else if (!strcmp(k, "pos")) { char *a = word(&s), *b = word(&s); set_position(t, (size_t)atoi(a), (size_t)atoi(b)); }
        else if (!strcmp(k, "h")) override_horizontal_alignment(t, ha(s));
        else if (!strcmp(k, "v")) override_vertical_alignment(t, va(s));
        else if (!strcmp(k, "hrow")) override_horizontal_alignment_of_row(t, ha(s));
        else if (!strcmp(k, "vrow")) override_vertical_alignment_of_row(t, va(s));
        else if (!strcmp(k, "hline")) set_hline(t, bs(s));
        else if (!strcmp(k, "vline")) { char *a = word(&s); set_vline(t, (size_t)atoi(a), bs(word(&s))); }
        else if (!strcmp(k, "vlines")) set_all_vlines(t, bs(s));
        else if (!strcmp(k, "box")) make_boxed(t, bs(s));
        else if (!strcmp(k, "left")) override_left_border(t, bs(s));
        else if (!strcmp(k, "above")) override_above_border(t, bs(s));
        else if (!strcmp(k, "def"))
        {
            TableHAlign h[TABLE_MAX_COLS];
            TableVAlign v[TABLE_MAX_COLS];
            int n = 0;
            for (char *w; (w = word(&s)); n++) { h[n] = ha(w); v[n] = va(w + 1); }
            set_default_alignments(t, (size_t)n, h, v);
        }
    }
    FILE *f = tmpfile();
    fprint_table(t, f);
    long n = ftell(f);
    char *b = malloc((size_t)n + 1);
    rewind(f);
    b[fread(b, 1, (size_t)n, f)] = 0;
    fclose(f);
    free_table(t);
    fputs("\"text\":", O);
    jstr(b);
    free(b);
}

/* -------------------------------------------------------------------- main -- */
static struct { const char *n; void (*f)(void); int secs; } OPS[] = {
    { "tok", do_tok, 5 }, { "parse", do_parse, 5 }, { "ptoks", do_ptoks, 5 }, { "eval", do_eval, 10 },
    { "match", do_match, 10 }, { "rules", do_rules, 10 }, { "rulefile", do_rulefile, 10 },
    { "sess", do_sess, 30 }, { "simp", do_simp, 20 }, { "vec", do_vec, 5 }, { "list", do_list, 5 },
    { "trie", do_trie, 5 }, { "strb", do_strb, 5 }, { "ops", do_ops, 5 }, { "table", do_table, 5 },
};

int main(int argc, char **argv)
{
    if (argc < 3) return 2;
    FILE *in = fopen(argv[1], "r");
    if (!in) return 2;
    char **lines = NULL, *line = NULL;
    size_t cap = 0, n = 0, bufn = 0;
    ssize_t len;
    while ((len = getline(&line, &cap, in)) > 0)
    {
        if (line[len - 1] == '\n') line[len - 1] = 0;
        if (n == bufn) lines = realloc(lines, sizeof(char*) * (bufn = bufn ? bufn * 2 : 1024));
        lines[n++] = strdup(line);
    }
    fclose(in);
    FILE *out = fopen(argv[2], "w");
    volatile size_t *cur = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    *cur = 0;
    int hangs = 0, deaths = 0;
    int errlog = memfd_create("log", 0);
    while (*cur < n)
    {
        pid_t pid = fork();
        if (pid == 0)
        {
            size_t from = *cur;
            cur[1] = 1; /* setting up */
            O = out;
            cap_init();
            (void)errlog;
            strcpy(C[0].name, "arith");
            C[0].c = get_arith_ctx();
            C[0].p = &C[0].c;
            strcpy(C[1].name, "prop");
            init_propositional_ctx();
            C[1].p = g_propositional_ctx;
            NC = 2;
            bool prop = true;
            struct itimerval tv = { { 0, 0 }, { 0, 0 } };
            for (size_t i = 0; i < n; i++)
            {
                if (strncmp(lines[i], "ctx\t", 4) == 0)
                {
                    cur[1] = 1;
                    char *l = strdup(lines[i]);
                    split(l);
                    do_ctx();
                    if (i >= from) { *cur = i; fprintf(O, "{\"i\":%zu}\n", i); fflush(O); *cur = i + 1; }
                    continue;
                }
                if (i < from) continue;
                *cur = i;
                cur[1] = 0;
                char *l = strdup(lines[i]);
                split(l);
                size_t k = 0;
                while (k < sizeof(OPS) / sizeof(OPS[0]) && strcmp(OPS[k].n, F[0]) != 0) k++;
                if (k == sizeof(OPS) / sizeof(OPS[0])) _exit(98);
                bool owns = !strcmp(F[0], "sess") || !strcmp(F[0], "simp");
                if (owns && prop) { unload_propositional_ctx(); prop = false; }
                if (!owns && !prop) { init_propositional_ctx(); prop = true; }
                tv.it_value.tv_sec = OPS[k].secs;
                setitimer(ITIMER_REAL, &tv, NULL);
                fprintf(O, "{\"i\":%zu,", i);
                mem_init();
                long before = live;
                OPS[k].f();
                fprintf(O, ",\"left\":%ld}\n", live - before);
                tv.it_value.tv_sec = 0;
                setitimer(ITIMER_REAL, &tv, NULL);
                fflush(O);
                *cur = i + 1;
                cap_drop();
                free(l);
            }
            fflush(O);
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 99)) return 3;
        if (*cur < n && cur[1]) return 4;
        if (*cur < n)
        {
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) hangs++;
            else deaths++;
            fseek(out, 0, SEEK_END);
            fprintf(out, "\n{\"i\":%zu,\"crash\":\"%s %d\"}\n", *cur, WIFSIGNALED(st) ? "signal" : "exit",
                WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
            fflush(out);
            *cur = *cur + 1;
            /* do not spend the time limit on every one of thousands */
            if (hangs >= 2 || deaths >= 200)
            {
                for (; *cur < n; *cur = *cur + 1) fprintf(out, "{\"i\":%zu,\"crash\":\"skipped\"}\n", *cur);
            }
        }
    }
    fclose(out);
    return 0;
}
