/* stands in for the git executable; SIM_GIT selects what happens */
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int main(void)
{
    const char *m = getenv("SIM_GIT");
    if (!m) m = "ok";
    if (!strcmp(m, "ok")) { printf("0123456789abcdef0123456789abcdef01234567|Sim Ulator|2020-01-02 03:04:05 +0000|HEAD -> main, tag: v1"); return 0; }
    if (!strcmp(m, "detached")) { printf("0123456789abcdef0123456789abcdef01234567|Sim Ulator|2020-01-02 03:04:05 +0000|"); return 0; }
    if (!strcmp(m, "exit128")) { fprintf(stderr, "fatal: not a git repository (or any of the parent directories): .git\n"); return 128; }
    if (!strcmp(m, "dubious")) { fprintf(stderr, "fatal: detected dubious ownership in repository at '/x'\n"); return 128; }
    if (!strcmp(m, "exit1silent")) return 1;
    if (!strcmp(m, "empty")) return 0;
    if (!strcmp(m, "newline")) { printf("\n\n"); return 0; }
    if (!strcmp(m, "nofields")) { printf("warning: something"); return 0; }
    if (!strcmp(m, "twofields")) { printf("abc|def"); return 0; }
    if (!strcmp(m, "pipes")) { printf("|||||||"); return 0; }
    if (!strcmp(m, "nonutf8")) { printf("\xff\xfe\x80|\xe9\xe8|2020|HEAD -> \xfc"); return 0; }
    if (!strcmp(m, "nonutf8err")) { fprintf(stderr, "fatal: \xff\xfe\x80"); return 128; }
    if (!strcmp(m, "control")) { printf("a\x01\x02\"\\|b\x7f|c\t|d"); return 0; }
    if (!strcmp(m, "unicode")) { printf("abc|J\xc3\xbcrgen \xe2\x98\x83 \xf0\x9f\x98\x80|2020|HEAD -> m\xc3\xa4in"); return 0; }
    if (!strcmp(m, "huge")) { for (int i = 0; i < 20000; i++) printf("0123456789abcdef|"); return 0; }
    if (!strcmp(m, "hugeerr")) { for (int i = 0; i < 20000; i++) fprintf(stderr, "0123456789abcdef|"); return 3; }
    if (!strcmp(m, "outanderr")) { printf("abc|def|ghi|jkl"); fprintf(stderr, "warning"); return 2; }
    fflush(stdout);
    if (!strcmp(m, "sigkill")) { kill(getpid(), SIGKILL); }
    if (!strcmp(m, "sigsegv")) { kill(getpid(), SIGSEGV); }
    if (!strcmp(m, "partialkill")) { printf("0123456|Sim"); fflush(stdout); kill(getpid(), SIGKILL); }
    return 0;
}
