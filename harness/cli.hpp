// Running the command line program.
#pragma once
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ctime>
#include <cstdlib>
#include <vector>

extern char** environ;
namespace cli {
struct Out { int status = -1; /* exit status, 128 + signal */ std::string out, err; bool timedOut = false; };

inline Out run(const std::string& prog, const std::vector<std::string>& args, const char* tz = nullptr, int seconds = 120) {
    Out o;
    int po[2], pe[2];
    if (pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC)) { perror("pipe"); exit(2); }
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_adddup2(&fa, po[1], 1);
    posix_spawn_file_actions_adddup2(&fa, pe[1], 2);
    std::vector<char*> av{const_cast<char*>("time")}, ev;
    for (auto& a : args) av.push_back(const_cast<char*>(a.c_str()));
    av.push_back(nullptr);
    std::string tzs = std::string("TZ=") + (tz ? tz : "UTC");
    for (char** e = environ; *e; e++) if (std::string(*e).compare(0, 3, "TZ=")) ev.push_back(*e);
    ev.push_back(const_cast<char*>(tzs.c_str()));
    ev.push_back(nullptr);
    pid_t pid;
    int rc = posix_spawn(&pid, prog.c_str(), &fa, nullptr, av.data(), ev.data());
    posix_spawn_file_actions_destroy(&fa);
    close(po[1]); close(pe[1]);
    if (rc != 0) { fprintf(stderr, "spawn %s: %s\n", prog.c_str(), strerror(rc)); exit(2); }
    struct pollfd p[2] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}};
    int open = 2;
    time_t end = time(nullptr) + seconds;
    while (open > 0) {
        int n = poll(p, 2, 1000);
        if (n < 0) break;
        for (int i = 0; i < 2; i++) if (p[i].fd >= 0 && p[i].revents) {
            char b[4096];
            ssize_t k = read(p[i].fd, b, sizeof b);
            if (k <= 0) { close(p[i].fd); p[i].fd = -1; open--; }
            else { std::string& s = i ? o.err : o.out; if (s.size() < (1u << 20)) s.append(b, static_cast<size_t>(k)); }
        }
        if (time(nullptr) > end && !o.timedOut) { o.timedOut = true; kill(pid, SIGKILL); }
    }
    for (int i = 0; i < 2; i++) if (p[i].fd >= 0) close(p[i].fd);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    o.status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    return o;
}
}
