/* Stand-in for an external diff command: records its arguments, and what they designate, to $HELPER_LOG. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/resource.h>

static void blob(FILE *f, const char *p, size_t n) { fprintf(f, "%zu:", n); fwrite(p, 1, n, f); }

int main(int ac, char **av)
{
    struct rlimit all = {RLIM_INFINITY, RLIM_INFINITY};
    setrlimit(RLIMIT_FSIZE, &all);
    FILE *log = fopen(getenv("HELPER_LOG"), "a");
    int i;
    fprintf(log, "RUN %d ", ac);
    for (i = 0; i < ac; ++i)
    {
        struct stat st;
        static char buf[1 << 20];
        blob(log, av[i], strlen(av[i]));
        if (stat(av[i], &st) == 0 && S_ISREG(st.st_mode) && i > 0)
        {
            FILE *in = fopen(av[i], "r");
            size_t n = in ? fread(buf, 1, sizeof buf, in) : 0;
            fprintf(log, in ? "F" : "U");
            if (in) fclose(in);
            blob(log, buf, n);
        }
        else
            fprintf(log, "N");
    }
    fprintf(log, "\n");
    fclose(log);
    if (getenv("HELPER_SLEEP"))
        usleep(atoi(getenv("HELPER_SLEEP")));
    if (getenv("HELPER_AGAIN")) /* are the files still there at the end? */
    {
        log = fopen(getenv("HELPER_LOG"), "a");
        for (i = 1; i < ac; ++i)
            fputc(access(av[i], R_OK) == 0 ? '1' : '0', log);
        fclose(log);
    }
    if (getenv("HELPER_KILL"))
    {
        signal(atoi(getenv("HELPER_KILL")), SIG_DFL);
        raise(atoi(getenv("HELPER_KILL")));
    }
    return getenv("HELPER_EXIT") ? atoi(getenv("HELPER_EXIT")) : 0;
}
