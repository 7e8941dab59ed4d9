prop="C13"; file="allow.c"; prog="fcrontab"
subs=[("        if (allow == -1 && deny == 0)\n            return 1;\n\n        if (deny == -1 && allow == 1)\n            return 1;\n\n        if (allow == 1 && deny != 1)\n","        if (allow == -1 && deny == 0)\n            return 1;\n\n        if (allow > 0 && deny == -1)\n            return 1;\n\n        if (allow > 0 && deny != 1)\n")]
needs="\"all\" in both the allow and the deny files"
breaks="users denied by \"all\" in fcron.deny are allowed"
wrap=["audit_open","audit_log_user_message"]
demo=r'''
#include "fcrontab.h"
#include "allow.h"
int __wrap_audit_open(void) { return open("/dev/null", O_RDONLY); }
int __wrap_audit_log_user_message(int a, int b, const char *c, const char *d, const char *e, const char *f, int g) { return 0; }
static void put(const char *n, const char *t) { FILE *f = fopen(n, "w"); fputs(t, f); fclose(f); }
int main(void)
{
    fcronallow = "allow"; fcrondeny = "deny";
    put("allow", "all\n"); put("deny", "all\n");
    if (is_allowed("root")) { puts("allowed although denied"); return 1; }
    put("deny", "# nobody\n");
    if (!is_allowed("root")) { puts("denied although allowed"); return 1; }
    return 0;
}
'''
