prop="C19"; file="u_list.c"
subs=[("    if (l->cur_entry != NULL)\n        l->cur_entry = (u_list_entry_t *) ((char *)l->entries_array + offset);\n","    if (offset > 0)\n        l->cur_entry = (u_list_entry_t *) ((char *)l->entries_array + offset);\n")]
needs="an addition which makes the list grow while a walk is at its first entry"
breaks="the walk goes on in freed memory"
demo=r'''
#include "fcron.h"
#include "u_list.h"
int main(void)
{
    u_list_t *l = u_list_init(sizeof(int), 2, 100000); int i, n = 0, *e;
    for (i = 1; i <= 2; i++) u_list_add(l, (u_list_entry_t *)&i);
    e = (int *)u_list_first(l);
    malloc(64);                          /* the array cannot grow in place */
    i = 3; u_list_add(l, (u_list_entry_t *)&i);
    if (l->cur_entry != l->entries_array) { puts("walk outside of the list"); return 1; }
    for (; e && n < 10; e = (int *)u_list_next(l)) n++;
    if (n != 3) { printf("%d entries visited\n", n); return 1; }
    return 0;
}
'''
