prop="C14"; file="env_list.c"
subs=[('''            env_list_end_iteration(list);
            return (c->e_envvar + strlen(name) + 1);    /* +1 for '=' */''','''            env_list_end_iteration(list);
            return (c->e_envvar + len + 1);     /* +1 for '=' */'''),
('''env_list_getenv(env_list_t *list, char *name)
{
    env_t *c = NULL;

    /* sanity check */
    if (name == NULL || name[0] == '\\0')
        return NULL;

    for (c = env_list_first(list); c != NULL; c = env_list_next(list)) {
        if (strcmp_until(name, c->e_envvar, '=') == 0) {''','''env_list_getenv(env_list_t *list, char *name)
{
    env_t *c = NULL;
    size_t len = 0;

    /* sanity check */
    if (name == NULL || name[0] == '\\0')
        return NULL;

    len = strlen(name);
    for (c = env_list_first(list); c != NULL; c = env_list_next(list)) {
        if (strncmp(name, c->e_envvar, len) == 0) {''')]
needs="two settings, the name of the first of which begins by the name of the second"
breaks="the value of the wrong setting is used, from its second character"
demo=r'''
#include "fcron.h"
#include "env_list.h"
int main(void)
{
    env_list_t *l = env_list_init(); char *v;
    env_list_setenv(l, "HOMES", "/many", 1);
    env_list_setenv(l, "HOME", "/one", 1);
    v = env_list_getenv(l, "HOME");
    if (!v || strcmp(v, "/one")) { printf("HOME is %s\n", v ? v : "none"); return 1; }
    return 0;
}
'''
