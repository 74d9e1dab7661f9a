/* The contracts of c_atoms.h on the real functions: kinds of atoms are decided by their names, for every content of the
 * name table. An atom number outside the table cannot be formed by the type (config: ATOMS_MAX reduced, see the goal). */
#include "vf.h"
#include "Narsese.h"
#include "Variable.h"
typedef struct { char n[ATOMIC_TERM_LEN_MAX]; } Name;
INPUT(Name, in_n);
INPUT(int, in_a);
INPUT(char, in_c);
static void name_setup(void)
{
    HAVOC(Name, in_n); HAVOC(int, in_a); HAVOC(char, in_c);
    REQUIRES(in_a >= 0 && in_a <= ATOMS_MAX - 1 && in_n.n[ATOMIC_TERM_LEN_MAX - 1] == 0 && in_c != 0);
    if(in_a > 0)
        for(int i = 0; i < ATOMIC_TERM_LEN_MAX; i++) Narsese_atomNames[in_a - 1][i] = in_n.n[i];
}
#define FIRST in_n.n[0]
#define MORE (in_n.n[1] != 0)
#define VAR(c) (in_a > 0 && FIRST == c && MORE)
void a_kinds(void)
{
    name_setup();
    Atom a = (Atom) in_a;
    bool letter = (FIRST >= 'a' && FIRST <= 'z') || (FIRST >= 'A' && FIRST <= 'Z') || (FIRST >= '0' && FIRST <= '9');
    ENSURES(Narsese_copulaEquals(a, in_c) == (in_a > 0 && FIRST == in_c && !MORE), "a copula is an atom whose name is exactly that character");
    ENSURES(Narsese_isOperator(a) == VAR('^'), "operators are the atoms whose name starts with ^ and goes on");
    ENSURES(Narsese_IsSimpleAtom(a) == (in_a > 0 && (letter || VAR('^'))), "simple atoms are words, numbers and operators");
    ENSURES(Variable_isIndependentVariable(a) == VAR('$') && Variable_isDependentVariable(a) == VAR('#') && Variable_isQueryVariable(a) == VAR('?'), "the kind of a variable is the first character of its name");
    ENSURES(Variable_isVariable(a) == (VAR('$') || VAR('#') || VAR('?')), "variables are of one of the three kinds");
    if(in_a > 0 && letter) REACHED("word");
    if(VAR('^')) REACHED("operator");
    if(VAR('?')) REACHED("variable");
}
