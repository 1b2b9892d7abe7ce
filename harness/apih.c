/*
 * Interpreter over the library interfaces: reads requests, performs them with the real code, writes what was observed.
 * Usage: apih REQUESTS RESPONSES      Request: u8 op, u32 length, payload; response: u32 length, payload.
 * The responses file grows as requests are completed, so a crash identifies the request.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/time.h>
size_t __sanitizer_get_current_allocated_bytes(void);

#include "src/util/vector.h"
#include "src/util/linked_list.h"
#include "src/util/trie.h"
#include "src/util/string_builder.h"
#include "src/util/iterator.h"
#include "src/util/console_util.h"
#include "src/table/table.h"
#include "src/engine/tree/node.h"
#include "src/engine/tree/operator.h"
#include "src/engine/tree/tree_util.h"
#include "src/engine/tree/tree_to_string.h"
#include "src/engine/parsing/context.h"
#include "src/engine/parsing/parser.h"
#include "src/engine/parsing/tokenizer.h"
#include "src/engine/transformation/matching.h"
#include "src/engine/transformation/rewrite_rule.h"
#include "src/engine/transformation/rule_parsing.h"
#include "src/client/core/arith_context.h"
#include "src/client/core/arith_evaluation.h"
#include "src/client/core/history.h"
#include "src/client/simplification/propositional_context.h"
#include "src/client/simplification/propositional_evaluation.h"

static ParsingContext arith;

/* ~~~ buffers ~~~ */
typedef struct { uint8_t *p; size_t n, cap; } Buf;
static Buf out;
static const uint8_t *in, *in_end;

static void put(const void *p, size_t n)
{
    if (out.n + n > out.cap)
    {
        out.cap = (out.n + n) * 2 + 64;
        out.p = realloc(out.p, out.cap);
    }
    if (n > 0) memcpy(out.p + out.n, p, n);
    out.n += n;
}
static void put8(uint8_t v) { put(&v, 1); }
static void put32(uint32_t v) { put(&v, 4); }
static void putf(double v) { put(&v, 8); }
static void putstr(const char *s) { uint32_t n = strlen(s); put32(n); put(s, n); }

static void need(size_t n) { if ((size_t)(in_end - in) < n) { fprintf(stderr, "HARNESS: short request\n"); _exit(98); } }
static uint8_t g8(void) { need(1); return *in++; }
static uint32_t g32(void) { uint32_t v; need(4); memcpy(&v, in, 4); in += 4; return v; }
static double gf(void) { double v; need(8); memcpy(&v, in, 8); in += 8; return v; }
static char *gstr(void) // malloced
{
    uint32_t n = g32();
    need(n);
    char *s = malloc(n + 1);
    memcpy(s, in, n);
    s[n] = '\0';
    in += n;
    return s;
}

/* ~~~ trees ~~~ */
static const ParsingContext *ctx_by(int i) { return i == 0 ? &arith : g_propositional_ctx; }
static const OpPlacement PLACE[] = { ['p'] = OP_PLACE_PREFIX, ['i'] = OP_PLACE_INFIX, ['q'] = OP_PLACE_POSTFIX, ['f'] = OP_PLACE_FUNCTION };

static Node *gtree(const ParsingContext *ctx)
{
    char k = g8();
    uint32_t tok = g32();
    if (k == 'n') return malloc_constant_node(gf(), tok);
    if (k == 'v')
    {
        uint32_t id = g32();
        char *name = gstr();
        Node *res = malloc_variable_node(name, id, tok);
        free(name);
        return res;
    }
    char place = g8();
    char *name = gstr();
    uint32_t n = g32();
    const Operator *op = ctx_lookup_op(ctx, name, PLACE[(int)place]);
    if (op == NULL) { fprintf(stderr, "HARNESS: no operator %s\n", name); _exit(98); }
    free(name);
    Node *res = malloc_operator_node(op, n, tok);
    for (uint32_t i = 0; i < n; i++) set_child(res, i, gtree(ctx));
    return res;
}

static void dump(const Node *t)
{
    switch (get_type(t))
    {
        case NTYPE_CONSTANT:
            put8('n'); put32(get_token_index(t)); putf(get_const_value(t));
            break;
        case NTYPE_VARIABLE:
            put8('v'); put32(get_token_index(t)); put32(get_id(t)); putstr(get_var_name(t));
            break;
        case NTYPE_OPERATOR:
            put8('o'); put32(get_token_index(t));
            switch (get_op(t)->placement)
            {
                case OP_PLACE_PREFIX: put8('p'); break;
                case OP_PLACE_INFIX: put8('i'); break;
                case OP_PLACE_POSTFIX: put8('q'); break;
                case OP_PLACE_FUNCTION: put8('f'); break;
            }
            putstr(get_op(t)->name);
            put32(get_num_children(t));
            for (size_t i = 0; i < get_num_children(t); i++) dump(get_child(t, i));
    }
}

static int preorder_index(Node *root, Node *needle, uint32_t *counter)
{
    if (root == needle) return 1;
    (*counter)++;
    if (get_type(root) == NTYPE_OPERATOR)
    {
        for (size_t i = 0; i < get_num_children(root); i++)
        {
            if (preorder_index(get_child(root, i), needle, counter)) return 1;
        }
    }
    return 0;
}

/* ~~~ requests ~~~ */
static void do_parse(void)
{
    const ParsingContext *ctx = ctx_by(g8());
    char *text = gstr();
    Vector toks = tokenize(text, &ctx->keywords_trie);
    put32(vec_count(&toks));
    for (size_t i = 0; i < vec_count(&toks); i++) putstr(*(char**)vec_get(&toks, i));
    free_tokens(&toks);
    ParsingResult r;
    if (parse_input(ctx, text, &r))
    {
        put8('K');
        dump(r.tree);
        free_result(&r, true);
    }
    else
    {
        put8('E');
        put32(r.error);
        put32(r.error_token);
        free_result(&r, false);
    }
    free(text);
}

static void do_to_str(void)
{
    const ParsingContext *ctx = ctx_by(g8());
    bool color = g8();
    Node *t = gtree(ctx);
    char *s = tree_to_str(t, color);
    putstr(s);
    free(s);
    free_tree(t);
}

static void do_copy(void)
{
    Node *t = gtree(&arith);
    Node *c = tree_copy(t);
    put8(tree_equals(t, c));
    put8(tree_equals(c, t));
    put8(c != t);
    // damage original, copy must not notice
    if (get_type(t) == NTYPE_OPERATOR && get_num_children(t) > 0)
    {
        tree_replace(get_child_addr(t, 0), malloc_constant_node(4711, 0));
    }
    set_token_index(t, 77777);
    free_tree(t);
    dump(c);
    free_tree(c);
}

static void do_equals(void)
{
    Node *a = gtree(&arith), *b = gtree(&arith);
    put8(tree_equals(a, b));
    put8(tree_equals(b, a));
    put8(tree_equals(a, a));
    free_tree(a);
    free_tree(b);
}

static void do_replace_vars(void)
{
    Node *t = gtree(&arith), *by = gtree(&arith);
    char *name = gstr();
    put32(replace_variable_nodes(&t, by, name));
    dump(t);
    put8(1);
    dump(by);
    free(name);
    free_tree(t);
    free_tree(by);
}

static void do_vars(void)
{
    Node *t = gtree(&arith);
    uint32_t cap = g32();
    const char *vars[64];
    bool suff = false;
    put32(count_all_variable_nodes(t));
    size_t n = list_variables(t, cap, vars, &suff);
    put8(suff);
    put32(n);
    for (size_t i = 0; i < n && suff; i++) putstr(vars[i]);
    uint32_t num = g32();
    for (uint32_t i = 0; i < num; i++)
    {
        char *name = gstr();
        Node **inst[256];
        size_t k = get_variable_nodes((const Node**)&t, name, 256, inst);
        put32(k);
        put32(get_variable_nodes((const Node**)&t, name, 0, NULL));
        for (size_t j = 0; j < k; j++)
        {
            uint32_t c = 0;
            put8(preorder_index(t, *inst[j], &c));
            put32(c);
        }
        free(name);
    }
    dump(t);
    free_tree(t);
}

static void do_reduce(void)
{
    Node *t = gtree(&arith);
    double v = 0;
    const Node *err = NULL;
    int e = tree_reduce(t, arith_op_evaluate, &v, &err);
    put32(e);
    putf(v);
    if (e != LISTENERERR_SUCCESS)
    {
        uint32_t c = 0;
        put8(preorder_index(t, (Node*)err, &c));
        put32(c);
    }
    err = NULL;
    e = tree_reduce_constant_subtrees(&t, arith_op_evaluate, &err);
    put32(e);
    dump(t);
    free_tree(t);
}

static void do_find_op(void)
{
    Node *t = gtree(&arith);
    char place = g8();
    char *name = gstr();
    Node **r = find_op((const Node**)&t, ctx_lookup_op(&arith, name, PLACE[(int)place]));
    put8(r != NULL);
    if (r != NULL)
    {
        uint32_t c = 0;
        put8(preorder_index(t, *r, &c));
        put32(c);
    }
    free(name);
    free_tree(t);
}

static void do_replace_list(void)
{
    Node *t = gtree(&arith);
    uint32_t child = g32(), n = g32();
    Node *list[32];
    for (uint32_t i = 0; i < n; i++) list[i] = gtree(&arith);
    tree_replace_by_list(&t, child, (NodeList){ .size = n, .nodes = (const Node**)list });
    dump(t);
    put8(1);
    for (uint32_t i = 0; i < n; i++) { dump(list[i]); free_tree(list[i]); }
    free_tree(t);
}

static void put_matching(const Pattern *p, const Matching *m)
{
    const char *vars[MAX_MAPPED_VARS];
    bool suff;
    size_t n = list_variables(p->pattern, MAX_MAPPED_VARS, vars, &suff);
    put32(n);
    for (size_t i = 0; i < n; i++)
    {
        putstr(vars[i]);
        put32(m->mapped_nodes[i].size);
        for (size_t j = 0; j < m->mapped_nodes[i].size; j++) dump(m->mapped_nodes[i].nodes[j]);
    }
}

static bool quiet_pattern(const char *text, Pattern *p)
{
    return parse_pattern(text, g_propositional_ctx, p);
}

static void do_match(void)
{
    char *text = gstr();
    Node *t = gtree(g_propositional_ctx);
    Pattern p;
    if (!quiet_pattern(text, &p))
    {
        put8('E');
    }
    else
    {
        put8('K');
        Matching *ms = NULL;
        size_t n = get_all_matchings((const Node**)&t, &p, propositional_checker, &ms);
        put32(n);
        for (size_t i = 0; i < n; i++) put_matching(&p, &ms[i]);
        free(ms);
        put32(get_all_matchings((const Node**)&t, &p, propositional_checker, NULL));
        Matching m;
        bool found = get_matching((const Node**)&t, &p, propositional_checker, &m);
        put8(found);
        if (found) put_matching(&p, &m);
        Node **at = find_matching((const Node**)&t, &p, propositional_checker, &m);
        put8(at != NULL);
        if (at != NULL)
        {
            uint32_t c = 0;
            put8(preorder_index(t, *at, &c));
            put32(c);
            put_matching(&p, &m);
        }
        dump(t);
        free_pattern(&p);
    }
    free_tree(t);
    free(text);
}

static void do_rules(void)
{
    uint32_t n = g32(), cap = g32();
    bool single = g8();
    RewriteRule rule;
    Vector set = get_empty_ruleset();
    uint32_t good = 0;
    for (uint32_t i = 0; i < n; i++)
    {
        char *text = gstr();
        if (parse_rule(text, g_propositional_ctx, &rule))
        {
            add_to_ruleset(&set, rule);
            good++;
        }
        free(text);
    }
    put32(good);
    Node *t = gtree(g_propositional_ctx);
    if (single)
    {
        put32(apply_rule(&t, (RewriteRule*)vec_get(&set, 0), propositional_checker));
    }
    else
    {
        put32(apply_ruleset(&t, &set, propositional_checker, cap));
    }
    dump(t);
    free_tree(t);
    free_ruleset(&set);
}

/* ~~~ containers ~~~ */
static void fill(uint8_t *buf, size_t n, uint32_t seed)
{
    for (size_t i = 0; i < n; i++) buf[i] = (uint8_t)(seed * 2654435761u >> (8 * (i % 4))) ^ (uint8_t)(i * 31);
}

static void do_vector(void)
{
    uint32_t es = g32(), start = g32(), n = g32();
    uint8_t *e = malloc(es * 9000 + 1);
    Vector v = vec_create(es, start);
    for (uint32_t i = 0; i < n; i++)
    {
        switch (g8())
        {
            case 'p': fill(e, es, g32()); vec_push(&v, e); break;
            case 'e': { uint32_t s = g32(); void *p = vec_push_empty(&v); fill(p, es, s); break; }
            case 'm':
            {
                uint32_t k = g32(), s = g32();
                for (uint32_t j = 0; j < k; j++) fill(e + j * es, es, s + j);
                vec_push_many(&v, k, e);
                break;
            }
            case 'o': { void *p = vec_pop(&v); put8(p != NULL); if (p) put(p, es); break; }
            case 'k': { void *p = vec_peek(&v); put8(p != NULL); if (p) put(p, es); break; }
            case 'g': put(vec_get(&v, g32()), es); break;
            case 's': { uint32_t ix = g32(); fill(vec_get(&v, ix), es, g32()); break; }
            case 'c': vec_clear(&v); break;
            case 't': vec_trim(&v); break;
            case 'r': vec_ensure_size(&v, g32()); break;
            case 'n': put32(vec_count(&v)); break;
            case 'i': // iterate given number of elements, reset, iterate over all
            {
                uint32_t k = g32();
                VectorIterator it = vec_get_iterator(&v);
                void *p;
                while (k-- > 0 && (p = iterator_get_next((Iterator*)&it)) != NULL) put(p, es);
                iterator_reset((Iterator*)&it);
                uint32_t c = 0;
                while ((p = iterator_get_next((Iterator*)&it)) != NULL) { put(p, es); c++; }
                put32(c);
            }
        }
    }
    vec_destroy(&v);
    free(e);
}

static void do_list(void)
{
    uint32_t es = g32(), n = g32();
    uint8_t *e = malloc(es + 1);
    LinkedList l = list_create(es);
    ListNode *marked[64] = { NULL };
    for (uint32_t i = 0; i < n; i++)
    {
        switch (g8())
        {
            case 'a': { uint32_t m = g8(); fill(e, es, g32()); marked[m] = list_append(&l, e); break; }
            case 'i': { uint32_t m = g8(), ix = g32(); fill(e, es, g32()); marked[m] = list_insert_at(&l, ix, e); break; }
            case 'f': { uint32_t m = g8(), b = g8(); fill(e, es, g32()); marked[m] = list_insert_after(&l, b == 255 ? NULL : marked[b], e); break; }
            case 'd': list_delete_at(&l, g32()); break;
            case 'x': list_delete_node(&l, marked[g8()]); break;
            case 'g': put(list_get_at(&l, g32()), es); break;
            case 'm': put(listnode_get_data(marked[g8()]), es); break;
            case 'N': { uint32_t ix = g32(); put(listnode_get_data(list_get_node(&l, ix)), es); break; }
            case 's': { uint32_t m = g8(); fill(listnode_get_data(marked[m]), es, g32()); break; }
            case 'n': put32(list_count(&l)); break;
            case 'w': // walk from first via next
            {
                uint32_t c = 0;
                for (ListNode *x = l.first; x != NULL; x = listnode_get_next(x)) { put(listnode_get_data(x), es); c++; }
                put32(c);
                put8(l.first == NULL);
                put8(l.last == NULL);
                if (l.last != NULL) put(listnode_get_data(l.last), es);
                break;
            }
            case 't':
            {
                uint32_t k = g32();
                LinkedListIterator it = list_get_iterator(&l);
                void *p;
                while (k-- > 0 && (p = iterator_get_next((Iterator*)&it)) != NULL) put(p, es);
                iterator_reset((Iterator*)&it);
                uint32_t c = 0;
                while ((p = iterator_get_next((Iterator*)&it)) != NULL) { put(p, es); c++; }
                put32(c);
            }
        }
    }
    list_destroy(&l);
    free(e);
}

static void do_trie(void)
{
    uint32_t es = g32(), n = g32();
    Trie t = trie_create(es);
    for (uint32_t i = 0; i < n; i++)
    {
        switch (g8())
        {
            case 'a':
            {
                char *s = gstr();
                uint32_t seed = g32();
                uint8_t *p = trie_add_str(&t, s);
                put8(p != NULL);
                if (p != NULL) fill(p, es, seed);
                free(s);
                break;
            }
            case 'r': { char *s = gstr(); trie_remove_str(&t, s); free(s); break; }
            case 'c':
            {
                char *s = gstr();
                void *p = NULL;
                bool r = trie_contains(&t, s, &p);
                put8(r);
                if (r) put(p, es);
                put8(trie_contains(&t, s, NULL));
                free(s);
                break;
            }
            case 'l':
            {
                char *s = gstr();
                void *p = NULL;
                size_t r = trie_longest_prefix(&t, s, &p);
                put32(r);
                if (r > 0) put(p, es);
                put32(trie_longest_prefix(&t, s, NULL));
                free(s);
                break;
            }
            case 'n': put32(trie_count(&t)); break;
            case 'i':
            {
                uint32_t k = g32();
                TrieIterator it = trie_get_iterator(&t);
                void *p;
                while (k-- > 0 && (p = iterator_get_next((Iterator*)&it)) != NULL)
                {
                    putstr(trie_get_current_string(&it));
                    put(p, es);
                }
                iterator_reset((Iterator*)&it);
                uint32_t c = 0;
                while ((p = iterator_get_next((Iterator*)&it)) != NULL)
                {
                    putstr(trie_get_current_string(&it));
                    put(p, es);
                    c++;
                }
                put32(c);
            }
        }
    }
    trie_destroy(&t);
}

static void do_strbuilder(void)
{
    uint32_t kind = g8();
    StringBuilder b;
    if (kind == 0)
    {
        b = strbuilder_create(g32());
    }
    else
    {
        char *s = gstr();
        b = strbuilder_from_heapstring(s); // takes ownership
    }
    uint32_t n = g32();
    for (uint32_t i = 0; i < n; i++)
    {
        switch (g8())
        {
            case 's': { char *s = gstr(); strbuilder_append(&b, "%s", s); free(s); break; }
            case 'm': { char *s = gstr(); int d = (int)g32(); double f = gf(); strbuilder_append(&b, "%d<%s>%.3f", d, s, f); free(s); break; }
            case 'c': strbuilder_append_char(&b, g8()); break;
            case 'x': strbuilder_clear(&b); break;
            case 'g': putstr(strbuilder_to_str(&b)); break;
        }
    }
    putstr(strbuilder_to_str(&b));
    vec_destroy(&b);
}

/* ~~~ tables ~~~ */
static void do_table(void)
{
    uint32_t n = g32();
    Table *t = get_empty_table();
    char *keep[512];
    size_t num_keep = 0;
    for (uint32_t i = 0; i < n; i++)
    {
        switch (g8())
        {
            case 'a': keep[num_keep] = gstr(); add_cell(t, keep[num_keep++]); break;
            case 'g': add_cell_gc(t, gstr()); break;
            case 'f': { char *s = gstr(); add_cell_fmt(t, "%s", s); free(s); break; }
            case 'e': add_empty_cell(t); break;
            case 'Z':
            {
                uint32_t w = g32(), h = g32();
                const char **a = malloc(w * h * sizeof(char*) + 1);
                for (uint32_t j = 0; j < w * h; j++) a[j] = keep[num_keep++] = gstr();
                add_cells_from_array(t, w, h, a);
                free(a);
                break;
            }
            case 'r': next_row(t); break;
            case 'p': { uint32_t x = g32(), y = g32(); set_position(t, x, y); break; }
            case 's': { uint32_t x = g32(), y = g32(); set_span(t, x, y); break; }
            case 'h': override_horizontal_alignment(t, g8()); break;
            case 'v': override_vertical_alignment(t, g8()); break;
            case 'H': override_horizontal_alignment_of_row(t, g8()); break;
            case 'V': override_vertical_alignment_of_row(t, g8()); break;
            case 'd':
            {
                uint32_t k = g32();
                TableHAlign ha[TABLE_MAX_COLS];
                TableVAlign va[TABLE_MAX_COLS];
                for (uint32_t j = 0; j < k; j++) { ha[j] = g8(); va[j] = g8(); }
                set_default_alignments(t, k, ha, va);
                break;
            }
            case 'l': set_hline(t, g8()); break;
            case '|': { uint32_t x = g32(); set_vline(t, x, g8()); break; }
            case 'A': set_all_vlines(t, g8()); break;
            case 'L': override_left_border(t, g8()); break;
            case 'U': override_above_border(t, g8()); break;
            case 'B': make_boxed(t, g8()); break;
        }
    }
    for (int round = 0; round < 2; round++) // printing must not change the table
    {
        char *text = NULL;
        size_t size = 0;
        FILE *f = open_memstream(&text, &size);
        fprint_table(t, f);
        fclose(f);
        put32(size);
        put(text, size);
        free(text);
    }
    free_table(t);
    for (size_t i = 0; i < num_keep; i++) free(keep[i]);
}

int main(int argc, char **argv)
{
    if (argc != 3) return 98;
    FILE *f = fopen(argv[1], "r");
    FILE *o = fopen(argv[2], "w");
    if (f == NULL || o == NULL) return 98;
    fseek(f, 0, SEEK_END);
    size_t size = ftell(f);
    rewind(f);
    uint8_t *req = malloc(size + 1);
    if (fread(req, 1, size, f) != size) return 98;
    fclose(f);

    init_arith_ctx();
    init_propositional_ctx();
    init_history();
    arith = get_arith_ctx();

    bool leaks = getenv("LEAKS") != NULL;
    size_t pos = 0;
    while (pos + 5 <= size)
    {
        uint8_t op = req[pos];
        uint32_t len;
        memcpy(&len, req + pos + 1, 4);
        size_t start = pos;
        bool again = false;
repeat:;
        size_t held = __sanitizer_get_current_allocated_bytes() - out.cap;
        struct itimerval limit = { .it_value = { .tv_sec = 40 } };
        setitimer(ITIMER_PROF, &limit, NULL); // a request that does not end dies from SIGPROF
        // exact copy, so that reading past the request is detected
        uint8_t *copy = malloc(len + 1);
        memcpy(copy, req + pos + 5, len);
        in = copy;
        in_end = copy + len;
        pos += 5 + len;
        out.n = 0;
        switch (op)
        {
            case 'P': do_parse(); break;
            case 'S': do_to_str(); break;
            case 'C': do_copy(); break;
            case 'Q': do_equals(); break;
            case 'R': do_replace_vars(); break;
            case 'L': do_vars(); break;
            case 'D': do_reduce(); break;
            case 'F': do_find_op(); break;
            case 'B': do_replace_list(); break;
            case 'M': do_match(); break;
            case 'Y': do_rules(); break;
            case 'v': do_vector(); break;
            case 'l': do_list(); break;
            case 't': do_trie(); break;
            case 'b': do_strbuilder(); break;
            case 'X': do_table(); break;
            case 'U': // user function for parsing
            {
                char *name = gstr();
                uint32_t arity = g32();
                ctx_add_op(&arith, op_get_function(name, arity == 0xffffffffu ? OP_DYNAMIC_ARITY : arity));
                break;
            }
            default: fprintf(stderr, "HARNESS: bad request\n"); _exit(98);
        }
        free(copy);
        long leaked = (long)(__sanitizer_get_current_allocated_bytes() - out.cap) - (long)held;
        if (leaks && op != 'U' && leaked > 0)
        {
            if (again)
            {
                fprintf(stderr, "LEAK of %ld bytes by request %c\n", leaked, op);
                _exit(97);
            }
            // only memory lost by every repetition counts
            again = true;
            pos = start;
            goto repeat;
        }
        uint32_t n = out.n;
        fwrite(&n, 4, 1, o);
        if (n > 0) fwrite(out.p, 1, n, o);
        fflush(o);
    }
    fclose(o);
    free(req);
    free(out.p);
    unload_history();
    unload_propositional_ctx();
    unload_arith_ctx();
    return 0;
}
