/* A DLB application driven through its standard input (C01) */
#include "apis/dlb.h"
#include "apis/dlb_drom.h"
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static int ncb; static cpu_set_t cbm;
static void cb(const cpu_set_t *m, void *a) { ncb++; cbm = *m; }
static char *txt(const cpu_set_t *m) { static char b[4][5000]; static int k; char *p = b[k = (k + 1) % 4], *q = p; *q++ = '['; for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, m)) q += sprintf(q, "%s%d", q[-1] == '[' ? "" : ",", c); strcpy(q, "]"); return p; }
int main(int argc, char **argv)
{
    setvbuf(stdout, NULL, _IOLBF, 0);
    cpu_set_t aff; CPU_ZERO(&aff); sched_getaffinity(0, sizeof aff, &aff);
    int rc = DLB_Init(0, argc > 1 && strcmp(argv[1], "mask") == 0 ? &aff : NULL, NULL);
    if (rc >= 0) DLB_CallbackSet(dlb_callback_set_process_mask, (dlb_callback_t)cb, NULL);
    const char *o = getenv("OMP_NUM_THREADS");
    printf("READY %d %d %s %s\n", getpid(), rc, txt(&aff), o ? o : "-");
    char l[256];
    while (fgets(l, sizeof l, stdin)) {
        if (!strncmp(l, "poll", 4)) { ncb = 0; int n = -1; int r = DLB_PollDROM_Update(); (void)n; printf("POLL %d %d %s\n", r, ncb, ncb ? txt(&cbm) : "-"); }
        else if (!strncmp(l, "exit", 4)) { if (rc >= 0) { int r = DLB_Finalize(); printf("FINI %d\n", r); } fflush(stdout); exit(atoi(l + 4)); }
        else if (!strncmp(l, "quit", 4)) { fflush(stdout); _exit(atoi(l + 4)); }
        else if (!strncmp(l, "kill", 4)) { raise(SIGKILL); }
    }
    _exit(98);
}
