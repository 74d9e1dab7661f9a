/* Contract of the mixing function of all hash tables: reads exactly its data, is a function of it. */
#include "vf.h"
#include "Globals.h"
typedef struct { HASH_TYPE d[16]; } Data;
INPUT(Data, in_d);
void te_mix(void)
{
    HAVOC(Data, in_d);
    HASH_TYPE m[16];
    for(int i = 0; i < 16; i++) m[i] = in_d.d[i];
    HASH_TYPE h1 = Globals_Hash(m, 2);
    ENSURES(h1 == Globals_Hash(in_d.d, 2), "equal data has equal hashes");
    ENSURES(h1 >= 0 && Globals_Hash(m, 1) >= 0, "hashes are never negative, so that bucket numbers are not");
    Globals_Hash(m, 16); /* generated obligations: reads nothing but the data */
    bool ok = true;
    for(int i = 0; i < 16; i++) ok = ok && m[i] == in_d.d[i];
    ENSURES(ok, "hashing writes no data");
    REACHED("mix");
}
INPUT(unsigned int, in_seed);
INPUT(int, in_k);
void te_rand(void)
{
    HAVOC(unsigned int, in_seed); HAVOC(int, in_k);
    REQUIRES(in_k >= 0 && in_k <= 3);
    mysrand(in_seed);
    int r1 = 0, r2 = 0;
    for(int i = 0; i < 3; i++) if(i < in_k) myrand();
    r1 = myrand();
    ENSURES(r1 >= 0 && r1 <= MY_RAND_MAX, "random numbers stay within their range");
    mysrand(in_seed);
    for(int i = 0; i < 3; i++) if(i < in_k) myrand();
    r2 = myrand();
    ENSURES(r1 == r2, "the same seed gives the same random numbers");
    REACHED("rand");
}
