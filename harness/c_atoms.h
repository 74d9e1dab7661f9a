/* The atom environment. Atoms 1..VF_ATOMS_FIXED are the ones Narsese_INIT creates (numbering generated from the real
 * code); the others are named by the user. No code under contract looks at the number of an atom except through the
 * predicates below and by equality, and a term holds at most 64 atoms; so any fixed assignment of kinds to numbers with
 * more than 64 atoms of each kind is as general as all of them: atom % 4 = 0,1 ordinary, 2 operator, 3 neither.
 * Goals using this file replace the predicates by these contracts (they are proved in atoms.c). */
#ifndef VF_C_ATOMS_H
#define VF_C_ATOMS_H
#include "vf.h"
#include "Narsese.h"
#include "Variable.h"
#include "vf_atoms.h"
#define VF_ATOM_LIMIT (VF_ATOMS_FIXED + 4 * 70)
#define ATOM_PREDS "Narsese_copulaEquals", "Narsese_CopulaIndex", "Narsese_isOperator", "Narsese_IsSimpleAtom", "Variable_isIndependentVariable", "Variable_isDependentVariable", "Variable_isQueryVariable", "Variable_isVariable", "Narsese_AtomicTermIndex"
#define SP_COP(a, c) ((a) == vf_single(c))
static inline bool sp_isop(Atom a) { return a > VF_ATOMS_FIXED ? a % 4 == 2 : vf_fix_opr(a); }
static inline bool sp_simple(Atom a) { return a > VF_ATOMS_FIXED ? a % 4 != 3 : vf_fix_sim(a); }
#ifdef VF_NAMED_VARS /* before normalization the user's variables have names of their own: some of the atoms that are neither ordinary nor operators */
static inline bool sp_ind(Atom a) { return a > VF_ATOMS_FIXED ? a % 16 == 3 : vf_fix_ind(a); }
static inline bool sp_dep(Atom a) { return a > VF_ATOMS_FIXED ? a % 16 == 7 : vf_fix_dep(a); }
static inline bool sp_qry(Atom a) { return a > VF_ATOMS_FIXED ? a % 16 == 11 : vf_fix_qry(a); }
static inline bool sp_var(Atom a) { return sp_ind(a) || sp_dep(a) || sp_qry(a); }
#else
static inline bool sp_ind(Atom a) { return a <= VF_ATOMS_FIXED && vf_fix_ind(a); }
static inline bool sp_dep(Atom a) { return a <= VF_ATOMS_FIXED && vf_fix_dep(a); }
static inline bool sp_qry(Atom a) { return a <= VF_ATOMS_FIXED && vf_fix_qry(a); }
static inline bool sp_var(Atom a) { return a <= 27 && (vf_fix_ind(a) || vf_fix_dep(a) || vf_fix_qry(a)); }
#endif
#ifdef NATIVE
static void env_setup(void)
{
    Narsese_INIT();
    for(int i = VF_ATOMS_FIXED + 1; i <= VF_ATOM_LIMIT; i++)
    {
        char name[20];
        snprintf(name, sizeof(name), "%c%d", i % 4 == 2 ? '^' : sp_ind(i) ? '$' : sp_dep(i) ? '#' : sp_qry(i) ? '?' : i % 4 == 3 ? '_' : 'a' + i % 26, i);
        Narsese_AtomicTermIndex(name);
    }
}
#else
static void env_setup(void) { SELF = VF_SELF; }
bool Narsese_copulaEquals(Atom atom, char name) { return atom > 0 && atom == vf_single(name); }
int Narsese_CopulaIndex(char name) { __CPROVER_assert(vf_single(name) != 0, "only existing copulas are looked up"); return vf_single(name); }
bool Narsese_isOperator(Atom atom) { return atom > 0 && sp_isop(atom); }
bool Narsese_IsSimpleAtom(Atom atom) { return atom > 0 && sp_simple(atom); }
bool Variable_isIndependentVariable(Atom atom) { return atom > 0 && sp_ind(atom); }
bool Variable_isDependentVariable(Atom atom) { return atom > 0 && sp_dep(atom); }
bool Variable_isQueryVariable(Atom atom) { return atom > 0 && sp_qry(atom); }
bool Variable_isVariable(Atom atom) { return atom > 0 && sp_var(atom); }
int Narsese_AtomicTermIndex(char *name)
{
    if(name[0] != 0 && name[1] == 0 && vf_single(name[0]) != 0) return vf_single(name[0]);
    if(name[0] != 0 && name[1] >= '1' && name[1] <= '9' && name[2] == 0 && vf_digitvar(name[0], name[1] - '0') != 0) return vf_digitvar(name[0], name[1] - '0');
    if(name[0] == 'S' && name[1] == 'E' && name[2] == 'L' && name[3] == 'F' && name[4] == 0) return VF_SELF;
    int id; ASSUMED(id > VF_ATOMS_FIXED && id <= 65535); /* some user atom */
    return id;
}
#endif
#endif
