#include "common.hh"

namespace mc {
Shared *sh;
std::string prop, tier = "quick", outDir;
FILE *vioFile, *sampleFile;
uint64_t nbSamples;
bool replaying;

static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// Returns 0: done, 1: crashed, 2: hang
static int runChild(const std::function<void()> &f, double hangLimit, int &status)
{
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        setpgid(0, 0);
        f();
        fflush(nullptr);
        _exit(0);
    }
    uint64_t last = sh->execs + sh->transitions;
    double lastProgress = now();
    useconds_t nap = 200;
    while (true)
    {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid)
        {
            kill(-pid, SIGKILL); // anything left by the unit
            return WIFEXITED(status) && WEXITSTATUS(status) == 0 ? 0 : 1;
        }
        usleep(nap);
        if (nap < 20000)
            nap *= 2;
        if (sh->execs + sh->transitions != last)
        {
            last = sh->execs + sh->transitions;
            lastProgress = now();
        }
        else if (now() - lastProgress > hangLimit)
        {
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            return 2;
        }
    }
}

int harnessMain(int argc, char **argv, const Harness &h)
{
    unsigned shard = 0, nbShards = 1;
    std::string replayHex;
    double hang = 60;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--prop") prop = argv[++i];
        else if (a == "--tier") tier = argv[++i];
        else if (a == "--shard") sscanf(argv[++i], "%u/%u", &shard, &nbShards);
        else if (a == "--out") outDir = argv[++i];
        else if (a == "--replay") { replayHex = argv[++i]; replaying = true; }
        else if (a == "--hang") hang = atof(argv[++i]);
    }
    // whatever runs the checks may ignore or block some signals (nohup)
    for (int s = 1; s < 32; ++s)
    {
        struct sigaction old;
        if (sigaction(s, nullptr, &old) == 0 && old.sa_handler == SIG_IGN) signal(s, SIG_DFL);
    }
    sigset_t none;
    sigemptyset(&none);
    sigprocmask(SIG_SETMASK, &none, nullptr);
    signal(SIGPIPE, SIG_IGN);
    sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (replaying)
    {
        vioFile = stdout;
        int status = 0;
        int r = runChild([&] { h.replay(unhex(replayHex)); }, hang, status);
        if (r == 1)
            printf("%s\tcrash\tcrash (status %d)\n", replayHex.c_str(), status);
        else if (r == 2)
            printf("%s\thang\tno end after %.0f s\n", replayHex.c_str(), hang);
        return (r || sh->violations) ? 3 : 0;
    }
    char name[64];
    snprintf(name, sizeof name, "/%u.", shard);
    vioFile = fopen((outDir + name + "vio").c_str(), "a");
    sampleFile = fopen((outDir + name + "samples").c_str(), "a");
    std::vector<std::string> units = h.units();
    size_t done = 0, total = 0;
    std::string crash;
    for (size_t i = shard; i < units.size() && sh->violations < 5; i += nbShards, ++total)
    {
        int status = 0;
        int r = runChild([&] { h.run(units[i]); }, hang, status);
        if (r == 0)
        {
            done++;
            continue;
        }
        const std::string c((const char *) sh->current, sh->caselen);
        char msg[128];
        if (r == 1)
            snprintf(msg, sizeof msg, "crash (status %d)", status);
        else
            snprintf(msg, sizeof msg, "no end after %.0f s", hang);
        fprintf(vioFile, "%s\t%s\t%s\n", hex(c).c_str(), r == 1 ? "crash" : "hang", msg);
        fflush(vioFile);
        sh->violations = sh->violations + 1;
        if (r == 2)
            break;
    }
    FILE *st = fopen((outDir + name + "stats").c_str(), "w");
    fprintf(st, "{\"execs\": %llu, \"transitions\": %llu, \"states\": %llu, \"units\": %zu, \"units_done\": %zu}\n",
            (unsigned long long) sh->execs, (unsigned long long) sh->transitions, (unsigned long long) sh->states, total, done);
    fclose(st);
    FILE *o = fopen((outDir + name + "outcomes").c_str(), "wb");
    fwrite(sh->outcomes, 1, sizeof sh->outcomes, o);
    fclose(o);
    return 0;
}
} // namespace mc
