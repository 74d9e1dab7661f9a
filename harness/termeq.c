/* Contracts of term identity: equality, hash, size, atom containment. */
#include "vf.h"
#include "term.h"
#include "c_assert.h"
typedef struct { Atom a[N]; } Atoms;
INPUT(Atoms, in_a);
INPUT(Atoms, in_b);
INPUT(bool, in_ha);
INPUT(bool, in_hb);
INPUT(Atom, in_x);
static Term a, b;
#ifndef NATIVE
/* the mixing function is proved to be a function of its data in its own goal; here any such function will do */
HASH_TYPE __CPROVER_uninterpreted_mix(HASH_TYPE, HASH_TYPE, HASH_TYPE, HASH_TYPE, HASH_TYPE, HASH_TYPE, HASH_TYPE, HASH_TYPE, HASH_TYPE, HASH_TYPE, HASH_TYPE, HASH_TYPE, HASH_TYPE, HASH_TYPE, HASH_TYPE, HASH_TYPE);
HASH_TYPE Globals_Hash(HASH_TYPE *d, int pieces)
{
    __CPROVER_assert(pieces == 16, "the hash covers the whole term");
    return __CPROVER_uninterpreted_mix(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9], d[10], d[11], d[12], d[13], d[14], d[15]);
}
#endif
static HASH_TYPE spec_hash(Term *t) { return Globals_Hash((HASH_TYPE*) t->atoms, sizeof(t->atoms) / sizeof(HASH_TYPE)); }
static void setup(void)
{
    HAVOC(Atoms, in_a); HAVOC(Atoms, in_b); HAVOC(bool, in_ha); HAVOC(bool, in_hb); HAVOC(Atom, in_x);
    memset(&a, 0, sizeof(Term)); memset(&b, 0, sizeof(Term));
    for(int i = 0; i < N; i++) { a.atoms[i] = in_a.a[i]; b.atoms[i] = in_b.a[i]; }
    /* cache invariant: a stored hash is the hash of the atoms */
    if(in_ha) { a.hashed = true; a.hash = spec_hash(&a); }
    if(in_hb) { b.hashed = true; b.hash = spec_hash(&b); }
}
static bool frame(void)
{
    bool ok = true;
    for(int i = 0; i < N; i++) ok = ok && a.atoms[i] == in_a.a[i] && b.atoms[i] == in_b.a[i];
    return ok;
}
void te_equal(void)
{
    setup();
    bool same = true;
    for(int i = 0; i < N; i++) same = same && in_a.a[i] == in_b.a[i];
    bool r = Term_Equal(&a, &b);
    ENSURES(r == same, "terms are equal exactly when they agree in all positions");
    ENSURES(frame() && IMPLIES(a.hashed, a.hash == spec_hash(&a)) && IMPLIES(b.hashed, b.hash == spec_hash(&b)), "comparing changes no term and leaves a correct hash behind");
    ENSURES(Term_Equal(&b, &a) == same, "the comparison is symmetric and repeatable");
    if(r) REACHED("equal"); else REACHED("different");
}
void te_hash(void)
{
    setup();
    HASH_TYPE h = Term_Hash(&a);
    ENSURES(h == spec_hash(&a), "the hash is the hash of all the atoms, cached or not");
    ENSURES(frame() && IMPLIES(a.hashed, a.hash == h), "hashing changes no term and leaves a correct hash behind");
    ENSURES(Term_Hash(&a) == h, "the hash of a term stays");
    REACHED("hash");
}
void te_size(void)
{
    setup();
    int n = 0; bool has = false;
    for(int i = 0; i < N; i++) { n += in_a.a[i] != 0; has = has || in_a.a[i] == in_x; }
    ENSURES(Term_Complexity(&a) == n, "the complexity of a term is the number of its atoms");
    ENSURES(Term_HasAtom(&a, in_x) == has, "a term has exactly the atoms that occur in it");
    ENSURES(frame(), "measuring changes no term");
    if(has) REACHED("has"); else REACHED("has not");
}
