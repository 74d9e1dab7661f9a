/* Contracts of the functions that tell operations from other statements and take procedural statements apart.
 * Atoms are known through the predicates of c_atoms.h only; subterms through the contract of Term_ExtractSubterm. */
#include "c_assert.h"
#include "c_atoms.h"
#include "c_term.h"
#include "Narsese.h"
#ifndef OPSIZE
# define OPSIZE N
#endif
INPUT(Term, in_t);
INPUT(Term, in_s);
static Term t, s;
static bool term_ok(const Term *x)
{
    bool ok = !x->hashed && x->hash == 0 && spec_wf(x);
    for(int i = 0; i < N; i++) ok = ok && x->atoms[i] <= VF_ATOM_LIMIT;
    return ok;
}
static void setup(void)
{
    HAVOC(Term, in_t); HAVOC(Term, in_s);
    env_setup();
    REQUIRES(term_ok(&in_t) && term_ok(&in_s));
    t = in_t; s = in_s;
}
#define L(j) (2 * (j) + 1)
#define RR(j) (2 * (j) + 2)
static Atom at(const Term *x, int p) { return p < N ? x->atoms[p < N ? p : 0] : 0; }
static bool isa(const Term *x, int p, char c) { return at(x, p) != 0 && at(x, p) == vf_single(c); }
static bool oper(const Term *x, int p) { return at(x, p) != 0 && sp_isop(at(x, p)); }
/* <({..} * args) --> ^op> or just ^op */
static bool operation(const Term *x, int j) { return oper(x, j) || (isa(x, j, INHERITANCE) && isa(x, L(j), PRODUCT) && oper(x, RR(j)) && isa(x, L(L(j)), EXT_SET)); }
static bool unchanged(void) { return term_same(&t, &in_t); }

void o_isoperation(void)
{
    setup();
    bool r = Narsese_isOperation(&t);
    ENSURES(r == operation(&in_t, 0), "an operation is an operator, or an inheritance of an operator from a product that starts with a set");
    if(r && !oper(&in_t, 0)) REACHED("with arguments");
    bool e = Narsese_isExecutableOperation(&t);
    ENSURES(e == (operation(&in_t, 0) && (oper(&in_t, 0) || at(&in_t, 7) == VF_SELF || (at(&in_t, 7) != 0 && sp_var(at(&in_t, 7))))), "executable are operators without arguments and operations of the system itself or of a variable agent");
    if(r && !e) REACHED("operation of another agent");
    if(e && !oper(&in_t, 0)) REACHED("own operation");
    ENSURES(unchanged(), "classifying a term does not change it");
}
static Atom opatom(const Term *x, int j) { return oper(x, j) ? at(x, j) : operation(x, j) ? at(x, RR(j)) : 0; }
void o_atom(void)
{
    setup();
    Atom r = Narsese_getOperationAtom(&t);
    bool seq = isa(&in_t, 0, SEQUENCE);
    ENSURES(IMPLIES(!seq, r == opatom(&in_t, 0)), "the operator of an operation is found, other statements have none");
    ENSURES(IMPLIES(seq, r == (isa(&in_t, 2, SEQUENCE) ? 0 : opatom(&in_t, 2))), "the operator of a sequence is the one of its last element");
    ENSURES(unchanged(), "looking up the operator does not change the term");
    if(seq && r != 0) REACHED("sequence");
    if(!seq && r != 0) REACHED("operation");
}
void o_precondition(void)
{
    setup();
    Term r = Narsese_GetPreconditionWithoutOp(&t);
    Term e = in_t;
    int j = 0;
    for(int k = 0; k < 6; k++)
        if(j < N && isa(&in_t, j, SEQUENCE) && operation(&in_t, RR(j))) j = L(j);
    for(int p = 0, k = 0; k < 7; k++, p = L(p))
        if(p == j && p < N) spec_extract(&e, &in_t, p);
    if(j > 0 && j < N) REACHED("operation cut off");
    if(j > 2 && j < N) REACHED("two operations cut off");
    for(int k = 0; k < N; k++) if(j >= N) e.atoms[k] = 0;
    ENSURES(term_same(&r, &e), "the precondition is what remains of the sequence without its trailing operations");
    ENSURES(unchanged(), "taking the precondition does not change the term");
}
void o_length(void)
{
    setup();
    int n = 1;
    bool reach[N];
    for(int j = 0; j < N; j++)
    {
        reach[j] = isa(&in_t, j, SEQUENCE) && (j == 0 || reach[j > 0 ? (j - 1) / 2 : 0]);
        n += reach[j];
    }
    int r = Narsese_SequenceLength(&t);
    ENSURES(r == n, "the length of a sequence is the number of its elements");
    if(n > 3) REACHED("nested sequence");
    ENSURES(unchanged(), "measuring a sequence does not change it");
}
/* the operations of a sequence, in order, as a left-nested sequence */
void o_append(void)
{
    setup();
    Term r = {0}, e = {0};
    bool ok = Narsese_OperationSequenceAppendLeftNested(&r, &t);
    bool reach[N];
    for(int j = 0; j < N; j++) reach[j] = j == 0 || (reach[j > 0 ? (j - 1) / 2 : 0] && isa(&in_t, (j - 1) / 2, SEQUENCE));
    bool fits = true;
    /* in-order walk over the heap positions: left to right */
    int last = 0, cnt = 0;
    for(int x = 1; x < 2 * N; x++)
    {
        /* x in 1..2N-1 odd/even enumerates the complete tree in order; node of depth d at index i has in-order number (2i+1) * N / 2^d / 1 - .. */
        int low = x & -x, h = 0;
        while((1 << h) < low) h++;
        int depth = 0;
        while((1 << depth) < N) depth++;
        int d = depth - h, i = x >> (h + 1), p = (1 << d) - 1 + i;
        if(d >= 0 && p < N && reach[p] && !isa(&in_t, p, SEQUENCE) && operation(&in_t, p) && fits)
        {
            Term sub = {0}, nw = {0};
            spec_extract(&sub, &in_t, p);
            cnt++;
            if(cnt == 1) e = sub;
            else
            {
                nw.atoms[0] = vf_single(SEQUENCE);
                Term old = nw;
                fits = fits && spec_fits(&e, 1) && spec_fits(&sub, 2);
                spec_override(&nw, &old, &e, 1);
                old = nw;
                spec_override(&nw, &old, &sub, 2);
                e = nw;
            }
        }
    }
    (void) last;
    ENSURES(ok == fits, "the operations of a sequence are collected unless they do not fit");
    ENSURES(IMPLIES(ok, term_same(&r, &e)), "the operations of a sequence are collected completely and in order");
    ENSURES(IMPLIES(ok, (cnt == 0) == (r.atoms[0] == 0)), "there is an operation sequence exactly if there is an operation");
    ENSURES(unchanged(), "collecting operations does not change the sequence");
    if(cnt == 1) REACHED("one");
    if(cnt == 2 && ok) REACHED("two");
    if(!ok) REACHED("does not fit");
}
