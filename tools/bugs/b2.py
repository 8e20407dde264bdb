from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("b1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "b1.py")); _m = module_from_spec(_s); _s.loader.exec_module(_m)
chk = _m.chk
L = ["data/list.h"]
V = ["malloc.h", "data/value.h"]
VS = ["data/value.c"]
def pre(decl, body, inc):
    t = chk(body, inc)
    return t.replace("int main(void)\n", decl + "int main(void)\n")
RBT = "typedef struct { RBTREE_NODE n; int k; } N; static N a[5000];\nstatic int cmpf(const RBTREE_NODE* x, const RBTREE_NODE* y) { int p = RBTREE_DATA(x, N, n)->k, q = RBTREE_DATA(y, N, n)->k; return p < q ? -1 : p > q; }\n" \
  "static RBTREE_NODE* lf(RBTREE_NODE* x) { return (RBTREE_NODE*) ((uintptr_t) x->lc & ~(uintptr_t) 1); }\nstatic int red(RBTREE_NODE* x) { return x != NULL && ((uintptr_t) x->lc & 1); }\n" \
  "static int bh(RBTREE_NODE* x) { if(!x) return 1; int l = bh(lf(x)), r = bh(x->r); if(l < 0 || l != r) return -1; if(red(x) && (red(lf(x)) || red(x->r))) return -1; return l + !red(x); }\n"
HT = "typedef struct { HTABLE_NODE n; uint32_t k; int seen; } N; static N a[20000];\nstatic int cmpf(const HTABLE_NODE* x, const HTABLE_NODE* y) { return HTABLE_DATA(x, N, n)->k != HTABLE_DATA(y, N, n)->k; }\nstatic uint32_t hashf(const HTABLE_NODE* x) { return HTABLE_DATA(x, N, n)->k; }\nstatic int visited; static void dt(HTABLE_NODE* x) { visited++; }\n"
BUGS = [
 # ---- lists
 dict(id="list-remove-only", prop="C11", edits=[("data/list.h", "        { node->p->n = node->n; node->n->p = node->p; }", "        { node->p->n = node->n; if(node->p != node->n) node->n->p = node->p; }")], srcs=[],
   needs="removing the only node of a list and then using the tail", what="list_remove leaves the tail pointing at the removed node when it was the only one",
   demo=chk("    LIST l; LIST_NODE x, y; list_init(&l);\n    list_append(&l, &x); list_remove(&l, &x);\n    CHECK(list_is_empty(&l) && list_tail(&l) == list_end(&l));\n    list_append(&l, &y); CHECK(list_head(&l) == &y && list_tail(&l) == &y);\n", L)),
 dict(id="qlist-remove-last", prop="C12", edits=[("data/list.h", "          if(list->tail == node) list->tail = node_prev; }", "          if(list->tail == node  &&  node_prev != &list->main) list->tail = node_prev; }")], srcs=[],
   needs="removing the only node of a queue, then appending", what="qlist_remove keeps the removed node as the tail of an emptied queue",
   demo=chk("    QLIST l; QLIST_NODE x, y; qlist_init(&l);\n    qlist_append(&l, &x); qlist_remove_head(&l); qlist_append(&l, &y);\n    CHECK(!qlist_is_empty(&l) && qlist_head(&l) == &y && qlist_tail(&l) == &y);\n", L)),
 dict(id="qlist-prepend-empty", prop="C12", edits=[("data/list.h", "          if(list->tail == node_where) list->tail = node; }", "          if(list->tail == node_where  &&  node_where != &list->main) list->tail = node; }")], srcs=[],
   needs="prepending to an empty queue and then appending", what="qlist_prepend on an empty queue does not set the tail, so the next append loses the node",
   demo=chk("    QLIST l; QLIST_NODE x, y; qlist_init(&l);\n    qlist_prepend(&l, &x); CHECK(qlist_tail(&l) == &x); qlist_append(&l, &y);\n    CHECK(qlist_head(&l) == &x && qlist_next(&x) == &y);\n", L)),
 # ---- hash table
 dict(id="htable-shrink-last-slot", prop="C14", edits=[("data/htable.c", "    for(i = 0; i < plane_size; i++) {\n        if(plane[i] != NULL) {", "    for(i = 0; i < plane_size - (plane_size > 4000); i++) {\n        if(plane[i] != NULL) {")], srcs=["data/htable.c"],
   needs="a table of at least eight planes that shrinks while the last slot of the largest plane is in use", what="shrinking loses the nodes of the last slot of the plane",
   demo=pre(HT, "    HTABLE h = HTABLE_INITIALIZER; int i; N key;\n    for(i = 0; i < 15200; i++) { a[i].k = i; CHECK(htable_insert(&h, &a[i].n, cmpf, hashf) == 0); }\n    for(i = 0; i < 14500; i++) { key.k = i; CHECK(htable_remove(&h, &key.n, cmpf, hashf) == &a[i].n); }\n    for(i = 14500; i < 15200; i++) { key.k = i; CHECK(htable_lookup(&h, &key.n, cmpf, hashf) == &a[i].n); }\n", ["data/htable.h"])),
 dict(id="htable-grow-clear", prop="C14", edits=[("data/htable.c", "    memset(new_planes[htable->n_planes], 0, HTABLE_PLANE_SIZE(htable->n_planes) * sizeof(HTABLE_NODE*));", "    memset(new_planes[htable->n_planes], 0, HTABLE_PLANE_SIZE(htable->n_planes) * (htable->n_planes < 4 ? sizeof(HTABLE_NODE*) : sizeof(uint32_t)));")], srcs=["data/htable.c"],
   needs="growing to a fifth plane on a heap holding old data", what="half of the slots of a large new plane stay uninitialised",
   demo=pre(HT, "    HTABLE h = HTABLE_INITIALIZER; int i; mallopt(M_PERTURB, 0x5a);\n    for(i = 0; i < 885; i++) { a[i].k = i; CHECK(htable_insert(&h, &a[i].n, cmpf, hashf) == 0); }\n    a[885].k = 3; htable_remove(&h, &a[885].n, cmpf, hashf); a[885].k = 943; htable_insert_unsafe(&h, &a[885].n, cmpf, hashf); a[886].k = 942; htable_insert_unsafe(&h, &a[886].n, cmpf, hashf);\n    CHECK(h.n_planes == 5 && a[886].n.next == NULL); \n", ["malloc.h", "data/htable.h"])),
 dict(id="htable-remove-chain", prop="C13", edits=[("data/htable.c", "                    *p_ref = ref;", "                    *p_ref = (i + 3 < htable->n_planes) ? &plane[index] : ref;")], srcs=["data/htable.c"],
   needs="removing a node that is not the first of its chain in an older (smaller) plane", what="removing it drops the nodes in front of it too",
   demo=pre(HT, "    HTABLE h = HTABLE_INITIALIZER; int i; N key;\n    for(i = 0; i < 1000; i++) { a[i].k = i * 59; CHECK(htable_insert(&h, &a[i].n, cmpf, hashf) == 0); }\n    key.k = 59 * 20; CHECK(htable_remove(&h, &key.n, cmpf, hashf) == &a[20].n);\n    for(i = 0; i < 1000; i++) { key.k = 59 * i; CHECK((htable_lookup(&h, &key.n, cmpf, hashf) != NULL) == (i != 20)); }\n", ["data/htable.h"])),
 dict(id="htable-hash-topbit", prop="C13", edits=[("data/htable.c", "        index = hash % HTABLE_PLANE_SIZE(i);", "        index = (i > 0) ? hash % HTABLE_PLANE_SIZE(i) : (hash < 0xfffffff0U ? hash : 0xfffffff0U) % HTABLE_PLANE_SIZE(0);")], srcs=["data/htable.c"],
   needs="a hash above 0xfffffff0 of a node in the first plane", what="such a node is not found", 
   demo=pre(HT, "    HTABLE h = HTABLE_INITIALIZER; N key;\n    a[0].k = 0xfffffff5u; CHECK(htable_insert(&h, &a[0].n, cmpf, hashf) == 0);\n    key.k = 0xfffffff5u; CHECK(htable_lookup(&h, &key.n, cmpf, hashf) == &a[0].n);\n", ["data/htable.h"])),
 dict(id="htable-fini-deep", prop="C14", edits=[("data/htable.c", "            for(index = 0; index < HTABLE_PLANE_SIZE(i); index++) {", "            for(index = 0; index < HTABLE_PLANE_SIZE(i < 3 ? i : 3); index++) {")], srcs=["data/htable.c"],
   needs="tearing down a table of five or more planes", what="htable_fini does not hand the nodes in the upper part of large planes to the destructor",
   demo=pre(HT, "    HTABLE h = HTABLE_INITIALIZER; int i;\n    for(i = 0; i < 1500; i++) { a[i].k = i; CHECK(htable_insert(&h, &a[i].n, cmpf, hashf) == 0); }\n    htable_fini(&h, dt); CHECK(visited == 1500);\n", ["data/htable.h"])),
 # ---- red-black tree
 dict(id="rb-next-climb", prop="C17", edits=[("data/rbtree.c", "            while(n > 1  &&  cur->stack[n - 1] == RIGHT(cur->stack[n - 2]))", "            while(n > 1  &&  cur->stack[n - 1] == RIGHT(cur->stack[n - 2])  &&  cur->n - n < 7)")], srcs=["data/rbtree.c"],
   needs="a tree in which the step to the next node climbs more than seven levels", what="rbtree_next returns a wrong node after a long climb",
   demo=pre(RBT, "    RBTREE t = RBTREE_INITIALIZER; RBTREE_CURSOR c; int i, m = 3000; RBTREE_NODE* x;\n    for(i = 0; i < m; i++) { a[i].k = i; CHECK(rbtree_insert(&t, &a[i].n, cmpf) == 0); }\n    for(i = 0, x = rbtree_head(&t, &c); i < m; i++, x = rbtree_next(&c)) CHECK(x == &a[i].n);\n    CHECK(x == NULL);\n", ["data/rbtree.h"])),
 dict(id="rb-prev-end", prop="C17", edits=[("data/rbtree.c", "            while(n > 1  &&  cur->stack[n - 1] == LEFT(cur->stack[n - 2]))\n                n--;\n            n--;\n\n            if(n == 0)\n                return NULL;\n            cur->n = n;", "            while(n > 1  &&  cur->stack[n - 1] == LEFT(cur->stack[n - 2]))\n                n--;\n            n--;\n\n            if(n > 0  ||  cur->n > 14)\n                cur->n = n;\n            if(n == 0)\n                return NULL;")], srcs=["data/rbtree.c"],
   needs="stepping back from the first node and then using the cursor again", what="rbtree_prev forgets the position at the first node",
   demo=pre(RBT, "    RBTREE t = RBTREE_INITIALIZER; RBTREE_CURSOR c; int i;\n    for(i = 0; i < 2000; i++) { a[i].k = 2000 - i; rbtree_insert(&t, &a[i].n, cmpf); }\n    CHECK(rbtree_head(&t, &c) == &a[1999].n && rbtree_prev(&c) == NULL);\n    CHECK(rbtree_current(&c) == &a[1999].n && rbtree_next(&c) == &a[1998].n);\n", ["data/rbtree.h"])),
 dict(id="rb-remove-deep-successor", prop="C16", edits=[("data/rbtree.c", "            if(COLOR(successor) != COLOR(node)) {", "            if(COLOR(successor) != COLOR(node)  &&  path.n - node_index < 9) {")], srcs=["data/rbtree.c"],
   needs="removing a node whose successor lies five or more levels below it and has another colour", what="the colours are not exchanged and the tree loses its balance",
   demo=pre(RBT, "    RBTREE t = RBTREE_INITIALIZER; int i, m = 3000;\n    for(i = 0; i < m; i++) { a[i].k = i; CHECK(rbtree_insert(&t, &a[i].n, cmpf) == 0); }\n    while(t.root != NULL) { RBTREE_NODE* x = t.root; CHECK(rbtree_remove(&t, x, cmpf) == x); CHECK(bh(t.root) > 0 && !red(t.root)); }\n", ["data/rbtree.h"])),
 dict(id="rb-remove-path", prop="C15", edits=[("data/rbtree.c", "            path.stack[node_index] = successor;\n            path.stack[path.n - 1] = node;", "            path.stack[path.n - 1] = node;\n            if(path.n - node_index < 10)\n                path.stack[node_index] = successor;")], srcs=["data/rbtree.c"],
   needs="removing a node whose successor lies six or more levels below it, with rebalancing up to its place", what="the rebalancing path still holds the removed node and links it back into the tree",
   demo=pre(RBT, "    RBTREE t = RBTREE_INITIALIZER; int i, m = 3000;\n    for(i = 0; i < m; i++) { a[i].k = i; CHECK(rbtree_insert(&t, &a[i].n, cmpf) == 0); }\n    while(t.root != NULL) { RBTREE_NODE* x = t.root; CHECK(rbtree_remove(&t, x, cmpf) == x); CHECK(rbtree_lookup(&t, x, cmpf) == NULL); CHECK(bh(t.root) > 0 && !red(t.root)); }\n", ["data/rbtree.h"])),
 dict(id="rb-insert-uncle", prop="C16", edits=[("data/rbtree.c", "        MAKE_BLACK(parent);\n        MAKE_BLACK(uncle);\n        MAKE_RED(grandparent);\n\n        /* But", "        MAKE_BLACK(parent);\n        if(path->n < 17)\n            MAKE_BLACK(uncle);\n        MAKE_RED(grandparent);\n\n        /* But")], srcs=["data/rbtree.c"],
   needs="a red uncle at depth sixteen or more", what="the uncle keeps its colour and black heights differ",
   demo=pre(RBT, "    RBTREE t = RBTREE_INITIALIZER; int i, m = 3000;\n    for(i = 0; i < m; i++) { a[i].k = i; CHECK(rbtree_insert(&t, &a[i].n, cmpf) == 0); CHECK(bh(t.root) > 0 && !red(t.root)); }\n", ["data/rbtree.h"])),
 dict(id="rb-fini-depth", prop="C18", edits=[("data/rbtree.c", "        *pointer_down_to_node = RIGHT(node);\n    }", "        *pointer_down_to_node = (pointer_down_to_node != &tree->root  ||  RIGHT(node) == NULL  ||  IS_BLACK(RIGHT(node))  ||  LEFT(RIGHT(node)) == NULL  ||  IS_RED(node)  ||  LEFT(LEFT(RIGHT(node))) == NULL) ? RIGHT(node) : RIGHT(RIGHT(node));\n    }")], srcs=["data/rbtree.c"],
   needs="a red right child directly under the root when the root is handed out", what="rbtree_fini_step skips that child",
   demo=pre(RBT, "    RBTREE t = RBTREE_INITIALIZER; int i, m, n; RBTREE_NODE* x;\n    for(m = 1; m < 100; m++) { for(i = 0; i < m; i++) { a[i].k = i; rbtree_insert(&t, &a[i].n, cmpf); }\n    n = 0; while((x = rbtree_fini_step(&t)) != NULL) n++;\n    CHECK(n == m); }\n", ["data/rbtree.h"])),
 dict(id="rb-lookup-ex-stale", prop="C15", edits=[("data/rbtree.c", "    if(cur->n == 0  ||  cmp != 0) {\n        cur->n = 0; /* No node", "    if(cur->n == 0  ||  cmp != 0) {\n        if(cmp < 0 || cur->n < 3) cur->n = 0; /* No node")], srcs=["data/rbtree.c"],
   needs="an unsuccessful rbtree_lookup_ex for a key larger than the last node compared", what="the cursor is left pointing at a node although nothing was found",
   demo=pre(RBT, "    RBTREE t = RBTREE_INITIALIZER; RBTREE_CURSOR c; N key; int i;\n    for(i = 0; i < 5; i++) { a[i].k = 2 * i; rbtree_insert(&t, &a[i].n, cmpf); }\n    key.k = 99; CHECK(rbtree_lookup_ex(&t, &key.n, cmpf, &c) == NULL && rbtree_current(&c) == NULL);\n", ["data/rbtree.h"])),
 # ---- values
 dict(id="value-u64-of-negative", prop="C19", edits=[("data/value.c", "return (uint64_t) ret.i32;", "return (uint32_t) ret.i32;")], srcs=VS,
   needs="a negative int32 read as uint64", what="value_uint64 zero-extends a negative int32",
   demo=chk("    VALUE v; value_init_int32(&v, -5); CHECK(value_uint64(&v) == (uint64_t) -5);\n    value_fini(&v);\n", V)),
 dict(id="value-float-u64", prop="C19", edits=[("data/value.c", "case VALUE_UINT64:    memcpy(&ret.u64, payload, sizeof(uint64_t)); return (double) ret.u64;", "case VALUE_UINT64:    memcpy(&ret.u64, payload, sizeof(uint64_t)); return (double) ret.u64 - (ret.u64 >> 53 == 1025 ? 2048.0 : 0.0);")], srcs=VS,
   needs="a uint64 of at least 2^63 read as double", what="value_double of a huge unsigned number is negative",
   demo=chk("    VALUE v; value_init_uint64(&v, 0x8000000000000000ull); CHECK(value_double(&v) == 9223372036854775808.0);\n    value_fini(&v);\n", V)),
 dict(id="value-compat-min", prop="C20", edits=[("data/value.c", "value_int64(v) >= INT32_MIN && value_int64(v) <= INT32_MAX", "value_int64(v) > INT32_MIN && value_int64(v) <= INT32_MAX")], srcs=VS,
   needs="an int64 holding exactly INT32_MIN", what="value_is_compatible denies a conversion that keeps the value",
   demo=chk("    VALUE v; value_init_int64(&v, INT32_MIN); CHECK(value_is_compatible(&v, VALUE_INT32));\n", V)),
 dict(id="value-compat-u64", prop="C20", edits=[("data/value.c", "(type == VALUE_UINT32 && value_uint64(v) <= UINT32_MAX)", "(type == VALUE_UINT32 && value_uint64(v) - 1 < UINT32_MAX + (uint64_t) (value_uint64(v) == 0x100000000u))")], srcs=VS,
   needs="a uint64 of 0 or of exactly 2^32", what="value_is_compatible is wrong at the borders",
   demo=chk("    VALUE v; value_init_uint64(&v, 0x100000000ull); CHECK(!value_is_compatible(&v, VALUE_UINT32));\n    value_init_uint64(&v, 0xffffffffull); CHECK(value_is_compatible(&v, VALUE_UINT32));\n", V)),
 dict(id="value-string-128", prop="C21", edits=[("data/value.c", "    while(tmplen >= 128) {\n        off++;\n        tmplen = tmplen >> 7;\n    }\n    off++;\n\n    payload", "    while(tmplen > 128) {\n        off++;\n        tmplen = tmplen >> 7;\n    }\n    off++;\n\n    payload")], srcs=VS,
   needs="a string of exactly 128 (or 128 shifted by seven bits) bytes", what="value_init_string_ allocates one byte too little and writes behind the block", cflags="-fsanitize=address",
   demo=chk("    VALUE v; static char s[200]; memset(s, 'x', 200);\n    CHECK(value_init_string_(&v, s, 128) == 0 && value_string_length(&v) == 128 && value_string(&v)[128] == 0);\n    value_fini(&v);\n", V)),
 dict(id="value-string-len3", prop="C21", edits=[("data/value.c", "        len |= (size_t)(payload[off] & 0x7f) << shift;", "        len |= (size_t)((payload[off] & 0x7f) << (shift & 15));")], srcs=VS,
   needs="a string of at least 2 MiB", what="value_string_length is wrong for strings of 2 MiB and more",
   demo=chk("    VALUE v; size_t n = 5000000; char* s = malloc(n); memset(s, 'x', n);\n    CHECK(value_init_string_(&v, s, n) == 0 && value_string_length(&v) == n);\n    value_fini(&v);\n", V)),
 dict(id="array-good-size", prop="C22", edits=[("data/value.c", "        good_alloc = 16;\n        while(good_alloc-2 < alloc)", "        good_alloc = 16;\n        while(good_alloc-(good_alloc < 64 ? 2 : 1) < alloc)")], srcs=VS,
   needs="an array that grows to 63 elements", what="the array buffer does not grow when it holds 62 elements and the next element is written behind it", cflags="-fsanitize=address",
   demo=chk("    VALUE v; value_init_array(&v);\n    for(int i = 0; i < 200; i++) { VALUE* e = value_array_append(&v); CHECK(e != NULL && value_init_int32(e, i) == 0); }\n    for(int i = 0; i < 200; i++) CHECK(value_int32(value_array_get(&v, i)) == i);\n    value_fini(&v);\n", V)),
 dict(id="array-shrink", prop="C22", edits=[("data/value.c", "        value_array_realloc(a, value_array_good_alloc_size(a->size * 2));", "        value_array_realloc(a, value_array_good_alloc_size(a->alloc > 500 ? a->size / 2 : a->size * 2));")], srcs=VS,
   needs="an array with a capacity of more than 500 elements shrinking below a quarter", what="value_array_remove_range gives up memory still in use",
   demo=chk("    VALUE v; value_init_array(&v);\n    for(int i = 0; i < 900; i++) value_init_int32(value_array_append(&v), i);\n    CHECK(value_array_remove_range(&v, 100, 800) == 0);\n    for(int i = 0; i < 100; i++) CHECK(value_int32(value_array_get(&v, i)) == i);\n    value_fini(&v);\n", V), cflags="-fsanitize=address"),
 dict(id="array-clean-empty", prop="C27", edits=[("data/value.c", "    free(a->value_buf);\n    memset(a, 0, sizeof(ARRAY));", "    if(a->size > 0)\n        free(a->value_buf);\n    memset(a, 0, sizeof(ARRAY));")], srcs=VS,
   needs="finalising an array from which all elements were removed", what="the element buffer of an emptied array leaks",
   demo=chk("    size_t u0 = 0;\n    for(int r = 0; r < 100000; r++) { VALUE v; value_init_array(&v); for(int i = 0; i < 40; i++) value_array_append(&v); value_array_remove_range(&v, 0, 40); value_fini(&v); if(r == 100) u0 = mallinfo2().uordblks; }\n    CHECK(mallinfo2().uordblks <= u0 + 1000000);\n", V)),
 dict(id="dict-remove-key-leak", prop="C27", edits=[("data/value.c", "            d->order_tail = node->order_prev;\n    }\n    value_fini(&node->key);\n    value_fini(&node->value);", "            d->order_tail = node->order_prev;\n    } else {\n        value_fini(&node->key);\n    }\n    value_fini(&node->value);")], srcs=VS,
   needs="removing a long key from a dictionary which maintains order", what="the key's memory leaks",
   demo=chk("    size_t u0 = 0; const char* k = \"a key that is much longer than fits into a value itself\";\n    for(int r = 0; r < 200; r++) { VALUE v; value_init_dict_ex(&v, NULL, VALUE_DICT_MAINTAINORDER); value_dict_add(&v, k); value_dict_remove(&v, k); value_fini(&v); if(r == 100) u0 = mallinfo2().uordblks; }\n    CHECK(mallinfo2().uordblks <= u0);\n", V)),
 dict(id="dict-clean-tail", prop="C27", edits=[("data/value.c", "        memset(d, 0, OFFSETOF(DICT, cmp_func));", "        memset(d, 0, OFFSETOF(DICT, order_tail));")], srcs=VS,
   needs="cleaning an ordered dictionary and adding to it again", what="value_dict_clean leaves a dangling tail pointer which the next insertion writes through", cflags="-fsanitize=address",
   demo=chk("    VALUE v; const VALUE* b[4]; value_init_dict_ex(&v, NULL, VALUE_DICT_MAINTAINORDER);\n    value_dict_add(&v, \"a\"); value_dict_add(&v, \"b\"); value_dict_clean(&v); value_dict_add(&v, \"c\");\n    CHECK(value_dict_keys_ordered(&v, b, 4) == 1 && strcmp(value_string(b[0]), \"c\") == 0);\n    value_fini(&v);\n", V)),
 dict(id="dict-cmp-len8", prop="C23", edits=[("data/value.c", "        cmp = (len1 < len2) ? -1 : +1;", "        cmp = (int16_t) (len1 - len2);")], srcs=VS,
   needs="two keys, one a prefix of the other and 65536 bytes shorter", what="the two keys are treated as one",
   demo=chk("    VALUE v; static char k[70000]; memset(k, 'k', 70000); value_init_dict(&v);\n    CHECK(value_dict_add_(&v, k, 10) != NULL); CHECK(value_dict_get_(&v, k, 65546) == NULL);\n    CHECK(value_dict_add_(&v, k, 65546) != NULL && value_dict_size(&v) == 2);\n    value_fini(&v);\n", V)),
 dict(id="dict-cmp-signed", prop="C24", edits=[("data/value.c", "    cmp = memcmp(key1, key2, min_len);", "    cmp = (min_len > 0) ? strncmp(key1, key2, min_len) : 0;")], srcs=VS,
   needs="keys with an embedded zero byte", what="keys that differ only behind a zero byte are the same for the dictionary",
   demo=chk("    VALUE v; value_init_dict(&v);\n    CHECK(value_dict_add_(&v, \"a\\0b\", 3) != NULL && value_dict_add_(&v, \"a\\0c\", 3) != NULL && value_dict_size(&v) == 2);\n    value_fini(&v);\n", V)),
 dict(id="dict-order-tail", prop="C24", edits=[("data/value.c", "            node->order_next->order_prev = node->order_prev;\n        else\n            d->order_tail = node->order_prev;", "            node->order_next->order_prev = node->order_prev;\n        else if(node->order_prev != NULL)\n            d->order_tail = node->order_prev;")], srcs=VS,
   needs="removing the only item of an ordered dictionary and adding another", what="the tail pointer dangles and the next item does not become the head", cflags="-fsanitize=address",
   demo=chk("    VALUE v; const VALUE* b[4]; value_init_dict_ex(&v, NULL, VALUE_DICT_MAINTAINORDER);\n    value_dict_add(&v, \"a\"); value_dict_remove(&v, \"a\"); value_dict_add(&v, \"c\");\n    CHECK(value_dict_keys_ordered(&v, b, 4) == 1 && strcmp(value_string(b[0]), \"c\") == 0);\n    value_fini(&v);\n", V)),
 dict(id="dict-keys-over", prop="C24", edits=[("data/value.c", "    node = d->order_head;\n    while(node != NULL  &&  n < buffer_size) {\n        buffer[n++]", "    node = d->order_head;\n    while(node != NULL  &&  (n < buffer_size || (n > 0 && n == buffer_size && d->size > buffer_size + 3))) {\n        buffer[n++]")], srcs=VS,
   needs="a buffer at least four items too small", what="value_dict_keys_ordered writes one item beyond the buffer",
   demo=chk("    VALUE v; const VALUE* b[4] = { 0 }; char k[2] = \"a\"; value_init_dict_ex(&v, NULL, VALUE_DICT_MAINTAINORDER);\n    for(int i = 0; i < 20; i++) { k[0] = 'a' + i; value_dict_add(&v, k); }\n    CHECK(value_dict_keys_ordered(&v, b, 3) == 3 && b[3] == NULL && b[2] != NULL);\n    value_fini(&v);\n", V)),
 dict(id="dict-remove-fix", prop="C25", edits=[("data/value.c", "        if(IS_RED(parent)) {\n            MAKE_RED(sibling);\n            MAKE_BLACK(parent);\n            break;", "        if(IS_RED(parent)) {\n            MAKE_RED(sibling);\n            if(path_len < 8)\n                MAKE_BLACK(parent);\n            break;")], srcs=VS,
   needs="a removal at depth eight or more below a red parent", what="two red nodes in a row stay in the tree",
   demo=chk("    VALUE v; char k[16]; int m = 2000; value_init_dict(&v);\n    for(int i = 0; i < m; i++) { sprintf(k, \"%d\", (i * 7) % m); CHECK(value_dict_add(&v, k) != NULL); }\n    for(int i = 0; i < m; i++) { sprintf(k, \"%d\", (i * 13) % m); CHECK(value_dict_remove(&v, k) == 0); CHECK(value_dict_verify(&v) == 0); }\n    value_fini(&v);\n", V).replace('#include "malloc.h"', "#define CRE_TEST\n#include <malloc.h>").replace('#include "data/value.h"', '#include "data/value.c"'), nosrc=True),
 dict(id="dict-remove-color", prop="C25", edits=[("data/value.c", "            if(IS_RED(successor) != IS_RED(node)) {", "            if(IS_RED(successor) != IS_RED(node)  &&  path_len - node_index < 9) {")], srcs=VS,
   needs="removing a node whose successor lies five or more levels below it and has another colour", what="the colours are not exchanged and the tree loses its balance",
   demo=chk("    VALUE v; char k[16]; int m = 3000; value_init_dict(&v);\n    for(int i = 0; i < m; i++) { sprintf(k, \"%d\", (i * 7) % m); CHECK(value_dict_add(&v, k) != NULL); }\n    while(value_dict_size(&v) > 0) { DICT* d = value_dict_payload(&v); char kk[16]; strcpy(kk, value_string(&d->root->key)); CHECK(value_dict_remove(&v, kk) == 0); CHECK(value_dict_verify(&v) == 0); }\n    value_fini(&v);\n", V).replace('#include "malloc.h"', "#define CRE_TEST\n#include <malloc.h>").replace('#include "data/value.h"', '#include "data/value.c"'), nosrc=True),
 dict(id="dict-get-longkey", prop="C23", edits=[("data/value.c", "    size_t min_len = (len1 < len2) ? len1 : len2;", "    size_t min_len = (len1 < len2) ? len1 : (len2 & 0xffff);")], srcs=VS,
   needs="keys of 64 KiB and more", what="keys that differ only at the end compare equal",
   demo=chk("    VALUE v; static char k[70000]; memset(k, 'k', 70000); value_init_dict(&v);\n    CHECK(value_dict_add_(&v, k, 70000) != NULL); k[69999] = 'z'; CHECK(value_dict_get_(&v, k, 70000) == NULL);\n    value_fini(&v);\n", V)),
 # ---- path
 dict(id="path-neg-size", prop="C26", edits=[("data/value.c", "                if(0 < index  &&  index <= size)", "                if(0 < index  &&  (index < size  ||  size < 10  ||  index == size - size % 10))")], srcs=VS,
   needs="[-N] with N the size of an array of more than ten elements", what="the first element cannot be reached counting from the end",
   demo=chk("    VALUE v; value_init_array(&v); for(int i = 0; i < 12; i++) value_init_int32(value_array_append(&v), i);\n    CHECK(value_path(&v, \"[-12]\") == value_array_get(&v, 0));\n", V)),
 dict(id="path-empty-brackets", prop="C26", edits=[("data/value.c", "            if(sign == 0  &&  !allow_build)\n                return NULL;", "            if(sign == 0  &&  !allow_build  &&  value_array_size(v) != 1)\n                return NULL;")], srcs=VS,
   needs="\"[]\" used for lookup on an array with one element", what="value_path resolves [] to the first element",
   demo=chk("    VALUE v; value_init_array(&v); value_array_append(&v);\n    CHECK(value_path(&v, \"[]\") == NULL);\n", V)),
 dict(id="path-plus", prop="C26", edits=[("data/value.c", "                sign = (token_beg[0] == '+') ? +1 : -1;", "                sign = (token_beg[0] == '+'  &&  token_beg[1] != '0') ? +1 : -1;")], srcs=VS,
   needs="an explicitly positive index with a leading zero", what="[+0] counts from the end",
   demo=chk("    VALUE v; value_init_array(&v); for(int i = 0; i < 3; i++) value_array_append(&v);\n    CHECK(value_path(&v, \"[+0]\") == value_array_get(&v, 0));\n    CHECK(value_path(&v, \"[+01]\") == value_array_get(&v, 1));\n", V)),
 dict(id="path-slash", prop="C26", edits=[("data/value.c", "        while(*token_end != '\\0'  &&  *token_end != '/'  &&  *token_end != '[')", "        while(*token_end != '\\0'  &&  *token_end != '/'  &&  (*token_end != '['  ||  token_end[1] == '+'))")], srcs=VS,
   needs="a key directly followed by an index with a plus sign", what="key[+1] is taken as one key",
   demo=chk("    VALUE v; VALUE* a; value_init_dict(&v); a = value_dict_add(&v, \"k\"); value_init_array(a); value_array_append(a); value_array_append(a);\n    CHECK(value_path(&v, \"k[+1]\") == value_array_get(a, 1));\n", V)),
 # ---- command line
 dict(id="cmdline-name-cut", prop="C30", edits=[("misc/cmdline.c", "                            strncpy(auxbuf, badoptname, len);", "                            strncpy(auxbuf, badoptname, len - (len == CMDLINE_AUXBUF_SIZE));")], srcs=["misc/cmdline.c"], cflags="-O0",
   needs="an unknown long option with a name of at least 32 characters, and a stack that is not zero", what="the last character reported is uninitialised memory",
   demo=pre("static char got[64]; static int ng; static int cb(int id, const char* arg, void* u) { strncpy(got, arg ? arg : \"\", 63); ng++; return 0; }\nstatic void dirty(void) { volatile char b[4000]; for(int i = 0; i < 4000; i++) b[i] = 'Q'; }\n", "    CMDLINE_OPTION o[] = { { 'a', \"all\", 1, 0 }, { 0 } }; char* av[] = { \"p\", \"--yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyZZZZZZZZ=1\", NULL };\n    dirty(); cmdline_read(o, 2, av, cb, NULL);\n    CHECK(ng == 1 && strlen(got) >= 31 && memcmp(got, av[1], strlen(got)) == 0);\n", ["misc/cmdline.h"])),
 dict(id="cmdline-group-stop", prop="C30", edits=[("misc/cmdline.c", "        if(ret != 0)\n            break;\n    }\n\n    return ret;\n}\n\nint\ncmdline_read", "        if(ret < 0)\n            break;\n    }\n\n    return ret;\n}\n\nint\ncmdline_read")], srcs=["misc/cmdline.c"],
   needs="a callback returning a positive value in the middle of a group of short options", what="the rest of the group is still reported and the value may be lost",
   demo=pre("static int ng; static int cb(int id, const char* arg, void* u) { ng++; return id == 2 ? 7 : 0; }\n", "    CMDLINE_OPTION o[] = { { 'a', \"all\", 1, 0 }, { 'b', \"b\", 2, 0 }, { 0 } }; char* av[] = { \"p\", \"-abaa\", NULL };\n    CHECK(cmdline_read(o, 2, av, cb, NULL) == 7 && ng == 2);\n", ["misc/cmdline.h"])),
 dict(id="cmdline-prefix", prop="C30", edits=[("misc/cmdline.c", "                        } else {\n                            continue;\n                        }", "                        } else if(opt[1].id != 0) {\n                            continue;\n                        } else {\n                            break;\n                        }")], srcs=["misc/cmdline.c"],
   needs="an unknown long option which the name of the last option in the table is a prefix of", what="the argument is silently ignored",
   demo=pre("static int ng, gid; static int cb(int id, const char* arg, void* u) { ng++; gid = id; return 0; }\n", "    CMDLINE_OPTION o[] = { { 'a', \"all\", 1, 0 }, { 'b', \"beta\", 2, 0 }, { 0 } }; char* av[] = { \"p\", \"--betamax\", NULL };\n    CHECK(cmdline_read(o, 2, av, cb, NULL) == 0 && ng == 1 && gid == CMDLINE_OPTID_UNKNOWN);\n", ["misc/cmdline.h"])),
 dict(id="cmdline-dash-group", prop="C30", edits=[("misc/cmdline.c", "            if(!(opt->flags & CMDLINE_OPTFLAG_COMPILERLIKE)  &&  arggroup[i] == opt->shortname)", "            if(!(opt->flags & CMDLINE_OPTFLAG_COMPILERLIKE)  &&  ((unsigned char) arggroup[i] & 0x7f) == opt->shortname)")], srcs=["misc/cmdline.c"],
   needs="a byte >= 0x80 in a group of short options", what="a non-ASCII character in a group is taken for another option",
   demo=pre("static int ids[9], ng; static int cb(int id, const char* arg, void* u) { ids[ng++] = id; return 0; }\n", "    CMDLINE_OPTION o[] = { { 'a', \"all\", 1, 0 }, { 'b', \"b\", 2, 0 }, { 0 } }; char* av[] = { \"p\", \"-a\\xe2\", NULL };\n    CHECK(cmdline_read(o, 2, av, cb, NULL) == 0 && ng == 2 && ids[0] == 1 && ids[1] == CMDLINE_OPTID_UNKNOWN);\n", ["misc/cmdline.h"])),
 # ---- memory
 dict(id="memchunk-fini-big", prop="C28", edits=[("mem/memchunk.c", "                block->next = NULL;\n                chunk->head = block;\n                chunk->free_off = chunk->block_size;", "                block->next = NULL;\n                chunk->head = block;\n                chunk->free_off = size;")], srcs=["mem/memchunk.c"],
   needs="a first allocation between a quarter and the whole of the block size, followed by others", what="later allocations are served from behind the end of the first, smaller block", cflags="-fsanitize=address",
   demo=chk("    MEMCHUNK c; memchunk_init(&c, 1000);\n    char* p = memchunk_alloc(&c, 400); memset(p, 1, 400);\n    char* q = memchunk_alloc(&c, 500); memset(q, 2, 500);\n    CHECK(p[399] == 1);\n    memchunk_fini(&c);\n", ["mem/memchunk.h"])),
]
for b in BUGS:
    if b.get("nosrc"): b["srcs"] = []
    if "mallinfo" in b["demo"] or "mallopt" in b["demo"]: b["cflags"] = ""
