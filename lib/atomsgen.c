/* prints the atom numbering that the real Narsese_INIT establishes (it takes no input, so running it is exhaustive) */
#include <stdio.h>
#include <string.h>
#include "Narsese.h"
extern int term_index;
int main(void)
{
    Narsese_INIT();
    puts("/* generated from /repo by lib/atomsgen.c */\n#ifndef VF_ATOMS_H\n#define VF_ATOMS_H");
    printf("#define VF_ATOMS_FIXED %d\n#define VF_SELF %d\n", term_index, (int) SELF);
    puts("static const char *const vf_atom_names[] = { 0,");
    for(int i = 0; i < term_index; i++)
    {
        putchar('"');
        for(char *c = Narsese_atomNames[i]; *c; c++) { if(*c == '"' || *c == '\\' || *c == '?') putchar('\\'); putchar(*c); }
        puts("\",");
    }
    puts("};");
    puts("static inline int vf_single(char c) { switch(c) {");
    for(int i = 0; i < term_index; i++)
        if(Narsese_atomNames[i][0] && !Narsese_atomNames[i][1]) printf("case %d: return %d;\n", Narsese_atomNames[i][0], i + 1);
    puts("default: return 0; } }");
    puts("static inline int vf_digitvar(char kind, int n) { switch(kind) {");
    for(int k = 0; k < 3; k++)
    {
        printf("case '%c': switch(n) {", "$#?"[k]);
        for(int i = 0; i < term_index; i++)
            if(Narsese_atomNames[i][0] == "$#?"[k] && Narsese_atomNames[i][1] && !Narsese_atomNames[i][2]) printf("case %d: return %d;", Narsese_atomNames[i][1] - '0', i + 1);
        puts("default: return 0; }");
    }
    puts("default: return 0; } }");
    const char *pn[] = { "ind", "dep", "qry", "sim", "opr" };
    for(int p = 0; p < 5; p++)
    {
        printf("/* %s */\nstatic inline bool vf_fix_%s(int a) { switch(a) {", pn[p], pn[p]);
        for(int i = 0; i < term_index; i++)
        {
            char *n = Narsese_atomNames[i];
            bool b = p < 3 ? (n[0] == "$#?"[p] && n[1]) : p == 3 ? (n[0] == '^' || (n[0] >= 'a' && n[0] <= 'z') || (n[0] >= 'A' && n[0] <= 'Z') || (n[0] >= '0' && n[0] <= '9')) : (n[0] == '^' && n[1]);
            if(b) printf("case %d:", i + 1);
        }
        puts("return true; default: return false; } }");
    }
    puts("#endif");
    return 0;
}
