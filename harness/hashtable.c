/* Contracts of the hash table: a map from keys (up to the table's own equality) to values; chains and free slots
 * always partition the storage. M slots, B buckets. Slots are interchangeable for the code (it never compares their
 * addresses), so every well-formed state is, up to renaming slots, one with chains and free list in ascending order. */
#include "vf.h"
#include "c_assert.h"
#include "HashTable.h"
#ifndef M
#define M 4
#endif
#define B 4
#define K (M + 2)
typedef struct { unsigned char used[M], cls[M]; int value[M]; unsigned char hash[K]; } State;
INPUT(State, in_s);
INPUT(int, in_k);
INPUT(int, in_other);
INPUT(int, in_value);
static HashTable h;
static VMItem store[M];
static VMItem *ptrs[M];
static VMItem *buckets[B];
static unsigned char keys[M + 2][K]; /* key object j of class c: its first byte is the class */
static unsigned char stored[M];
static unsigned char kk, ko, kc;
static bool eq(void *a, void *b) { return *(unsigned char *) a == *(unsigned char *) b; }
static HASH_TYPE hs(void *a)
{
    HASH_TYPE r = 0;
    for(int c = 0; c < K; c++) if(*(unsigned char *) a == c) r = in_s.hash[c] & 7;
    return r;
}
static int model(int cls, int *value) /* is there an element of the class in the initial state, and its value */
{
    for(int i = 0; i < M; i++) if(in_s.used[i] && in_s.cls[i] == cls) { *value = in_s.value[i]; return 1; }
    return 0;
}
static void setup(void)
{
    HAVOC(State, in_s); HAVOC(int, in_k); HAVOC(int, in_other); HAVOC(int, in_value);
    REQUIRES(in_k >= 0 && in_k < K && in_other >= 0 && in_other < K && in_other != in_k && in_value > 0);
    HashTable_INIT(&h, store, ptrs, buckets, B, M, eq, hs);
    /* te_mix: hashes are never negative; only their residues matter */
    VMItem *tail[B] = {0};
    int sp = 0;
    for(int i = 0; i < M; i++)
    {
        REQUIRES(in_s.used[i] <= 1 && in_s.cls[i] < K && in_s.value[i] > 0);
        for(int j = 0; j < i; j++) REQUIRES(!(in_s.used[i] && in_s.used[j] && in_s.cls[i] == in_s.cls[j]));
        stored[i] = in_s.cls[i];
        store[i].key = &stored[i]; store[i].value = (void *) (long) in_s.value[i]; store[i].next = NULL;
        if(in_s.used[i])
        {
            for(HASH_TYPE b = 0; b < B; b++)
                if(hs(&stored[i]) % B == b)
                {
                    if(tail[b] == NULL) buckets[b] = &store[i]; else tail[b]->next = &store[i];
                    tail[b] = &store[i];
                }
        }
        else
        {
            ptrs[sp] = &store[i]; sp++;
        }
    }
    h.VMStack.stackpointer = sp;
    kk = in_k; ko = in_other; kc = in_k;
}
/* every slot is free or in exactly one chain, the one of its key */
static bool wf(int elements)
{
    int seen[M] = {0}, total = 0;
    bool ok = h.VMStack.stackpointer == M - elements;
    for(int p = 0; p < M; p++)
        if(p < h.VMStack.stackpointer)
            for(int i = 0; i < M; i++) if(ptrs[p] == &store[i]) seen[i]++;
    for(HASH_TYPE b = 0; b < B; b++)
    {
        VMItem *it = buckets[b];
        for(int n = 0; n < M + 1 && it != NULL; n++)
        {
            bool in = false;
            for(int i = 0; i < M; i++) if(it == &store[i]) { seen[i]++; in = true; }
            ok = ok && in && n < M && hs(it->key) % B == b;
            total++;
            it = it->next;
        }
    }
    for(int i = 0; i < M; i++) ok = ok && seen[i] == 1;
    return ok && total == elements;
}
static int size(void) { int n = 0; for(int i = 0; i < M; i++) n += in_s.used[i]; return n; }
void h_get(void)
{
    setup();
    int v = 0, there = model(in_k, &v);
    void *r = HashTable_Get(&h, &kk);
    ENSURES(there ? r == (void *) (long) v : r == NULL, "looking up finds the value stored for an equal key, and nothing else");
    ENSURES(wf(size()), "looking up changes nothing");
    if(there) REACHED("found");
    if(!there) REACHED("not found");
}
void h_set(void)
{
    setup();
    int v = 0, there = model(in_k, &v), vo = 0, other = model(in_other, &vo), n = size();
#ifdef THERE
    REQUIRES(there == THERE);
#endif
    REQUIRES(there || n < M);
    HashTable_Set(&h, &kk, (void *) (long) in_value);
    ENSURES(HashTable_Get(&h, &kc) == (void *) (long) in_value, "a stored value is found under an equal key");
    ENSURES(HashTable_Get(&h, &ko) == (other ? (void *) (long) vo : NULL), "storing changes no other key");
    ENSURES(wf(there ? n : n + 1), "storing takes one free slot, or none if the key was there already");
    REACHED("set");
}
void h_delete(void)
{
    setup();
    int v = 0, there = model(in_k, &v), vo = 0, other = model(in_other, &vo), n = size();
    REQUIRES(there); /* callers delete what is there */
    HashTable_Delete(&h, &kk);
    ENSURES(HashTable_Get(&h, &kc) == NULL, "a deleted key is not found any more");
    ENSURES(HashTable_Get(&h, &ko) == (other ? (void *) (long) vo : NULL), "deleting changes no other key");
    ENSURES(wf(n - 1), "deleting gives one slot back");
    if(n == M) REACHED("deleted");
}
void h_init(void)
{
    setup();
    HashTable_INIT(&h, store, ptrs, buckets, B, M, eq, hs);
    ENSURES(HashTable_Get(&h, &kk) == NULL && wf(0), "a reset table is empty and all its slots are free");
    REACHED("init");
}
void h_stack(void)
{
    setup();
    Stack s; void *mem[M]; int a, b;
    Stack_INIT(&s, mem, M);
    ENSURES(s.stackpointer == 0, "a new stack is empty");
    REQUIRES(in_k < M - 1);
    for(int i = 0; i < M; i++) if(i < in_k) Stack_Push(&s, &b);
    Stack_Push(&s, &a); Stack_Push(&s, &b);
    ENSURES(Stack_Pop(&s) == &b && Stack_Pop(&s) == &a && s.stackpointer == in_k, "a stack gives back the latest first");
    REACHED("stack");
}
