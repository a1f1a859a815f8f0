// Runs several driver processes under ptrace and records, in one global order, the file-system operations they
// perform below a scratch directory; optionally decides at every such operation which process proceeds.
// It traces only the processes it starts itself.
//   vtrace LOG BLOB PREFIX MODE SEED MAXRUN -- stdin1 stdout1 cmd... [-- stdin2 stdout2 cmd...]
// MODE: free (record only) | sched (one process at a time between recorded operations, seeded choice)
//       | pct (as sched with few context switches).
// LOG: one JSON object per line; BLOB: the bytes written, referenced by offset.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <map>
#include <random>
#include <string>
#include <vector>

static std::string prefix;
static FILE* logf_;
static FILE* blob;
static long blobpos = 0;

static const int traced[] = {SYS_open, SYS_openat, SYS_creat, SYS_write, SYS_pwrite64, SYS_writev, SYS_pwritev, SYS_fsync,
    SYS_fdatasync, SYS_sync_file_range, SYS_rename, SYS_renameat, SYS_renameat2, SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat, SYS_unlink, SYS_unlinkat,
    SYS_mkdir, SYS_mkdirat, SYS_rmdir, SYS_ftruncate, SYS_truncate, SYS_fallocate, SYS_read, SYS_pread64, SYS_copy_file_range, SYS_sendfile};

static void child(const char* in, const char* out, char** argv) {
    int i = open(in, O_RDONLY);
    int o = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0666);
    int e = open("/dev/null", O_WRONLY);
    if (i < 0 || o < 0) _exit(99);
    dup2(i, 0); dup2(o, 1); dup2(e, 2);
    for (int k = 3; k < 64; ++k) close(k);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    ptrace(PTRACE_TRACEME, 0, 0, 0);
    raise(SIGSTOP);
    std::vector<sock_filter> f;
    f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)));
    const int n = sizeof(traced) / sizeof(traced[0]);
    for (int k = 0; k < n; ++k) f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)traced[k], (unsigned char)(n - k), 0));
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE));
    sock_fprog prog{(unsigned short)f.size(), f.data()};
    prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
    if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog) != 0) _exit(98);
    execv(argv[0], argv);
    _exit(97);
}

static std::string esc(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static std::string fdpath(pid_t t, long fd) {
    char p[64], b[4096];
    snprintf(p, sizeof p, "/proc/%d/fd/%ld", t, fd);
    ssize_t n = readlink(p, b, sizeof b);
    return n > 0 ? std::string(b, n) : "";
}
static long fdpos(pid_t t, long fd) {
    char p[64];
    snprintf(p, sizeof p, "/proc/%d/fdinfo/%ld", t, fd);
    FILE* f = fopen(p, "r");
    long pos = -1;
    if (f) { if (fscanf(f, "pos: %ld", &pos) != 1) pos = -1; fclose(f); }
    return pos;
}
static std::string rd(pid_t t, unsigned long a, size_t n) {
    std::string s(n, '\0');
    iovec l{&s[0], n}, r{(void*)a, n};
    ssize_t k = process_vm_readv(t, &l, 1, &r, 1, 0);
    s.resize(k > 0 ? k : 0);
    return s;
}
static std::string cstr(pid_t t, unsigned long a) {
    std::string o;
    while (o.size() < 4096) {
        size_t n = 256 - (a & 255);
        std::string s = rd(t, a, n);
        if (s.empty()) break;
        size_t z = s.find('\0');
        if (z != std::string::npos) return o + s.substr(0, z);
        o += s;
        a += s.size();
    }
    return o;
}
static std::string at(pid_t t, long dfd, unsigned long a) {
    std::string s = cstr(t, a);
    if (!s.empty() && s[0] == '/') return s;
    std::string d;
    if ((int)dfd == AT_FDCWD) {
        char p[64], b[4096];
        snprintf(p, sizeof p, "/proc/%d/cwd", t);
        ssize_t n = readlink(p, b, sizeof b);
        d = n > 0 ? std::string(b, n) : "";
    } else d = fdpath(t, dfd);
    return d + "/" + s;
}
static bool under(const std::string& s) { return s.compare(0, prefix.size(), prefix) == 0 && (s.size() == prefix.size() || s[prefix.size()] == '/'); }
static std::string rel(const std::string& s) { return under(s) ? (s.size() > prefix.size() ? s.substr(prefix.size() + 1) : ".") : s; }

struct Task {
    pid_t tid = 0;
    int proc = 0;
    enum { RUN, READY, EXIT } st = RUN;      // RUN: running; READY: stopped before a recorded operation; EXIT: waiting for syscall exit
    user_regs_struct r{};
    std::string path, path2;
    std::string kind;
    bool isnew = true;
};
static std::map<pid_t, Task> tasks;
static std::vector<std::string> outs, ins;
static std::vector<int> alive;
static std::vector<pid_t> all;
static int killProc = -1;       // VTRACE_KILL=p:n kills process p instead of letting it perform its n-th change
static long killAt = 0;
static bool changes(const std::string& k) { return k != "open" && k != "read" && k != "resp"; }
// lets a task perform the operation it has stopped before
static void proceed(Task& t) {
    if (t.proc == killProc && changes(t.kind) && --killAt == 0) { kill(all[t.proc], SIGKILL); t.st = Task::RUN; return; }
    t.st = Task::EXIT;
    ptrace(PTRACE_SYSCALL, t.tid, 0, 0);
}

// classify the syscall at its entry; returns the kind or "" when it is of no interest
static std::string classify(Task& t) {
    auto& r = t.r;
    pid_t p = t.tid;
    t.path2.clear();
    switch (r.orig_rax) {
        case SYS_open: case SYS_creat: case SYS_openat: {
            long fl = r.orig_rax == SYS_open ? r.rsi : r.orig_rax == SYS_openat ? r.rdx : (O_CREAT | O_WRONLY | O_TRUNC);
            t.path = r.orig_rax == SYS_openat ? at(p, r.rdi, r.rsi) : at(p, AT_FDCWD, r.rdi);
            if (!under(t.path)) return "";
            if (fl & O_CREAT) return access(t.path.c_str(), F_OK) != 0 ? "creat" : ((fl & O_TRUNC) ? "trunc" : "open");
            if (fl & O_TRUNC) return "trunc";
            return "open";
        }
        case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev:
            t.path = fdpath(p, r.rdi);
            if (t.path == outs[t.proc]) return "resp";
            return under(t.path) ? "write" : "";
        case SYS_read: case SYS_pread64:
            t.path = fdpath(p, r.rdi);
            return under(t.path) ? "read" : "";
        case SYS_fsync: case SYS_fdatasync: case SYS_sync_file_range:
            t.path = fdpath(p, r.rdi);
            return under(t.path) ? (r.orig_rax == SYS_sync_file_range ? "range" : "sync") : "";
        case SYS_ftruncate: case SYS_fallocate: case SYS_copy_file_range: case SYS_sendfile:
            t.path = fdpath(p, r.orig_rax == SYS_copy_file_range ? r.rdx : r.rdi);
            return under(t.path) ? (r.orig_rax == SYS_ftruncate ? "ftruncate" : "unsupported") : "";
        case SYS_truncate:
            t.path = at(p, AT_FDCWD, r.rdi);
            return under(t.path) ? "ftruncate" : "";
        case SYS_rename: case SYS_link: case SYS_symlink:
            t.path = at(p, AT_FDCWD, r.rdi); t.path2 = at(p, AT_FDCWD, r.rsi);
            return under(t.path2) || under(t.path) ? (r.orig_rax == SYS_rename ? "rename" : r.orig_rax == SYS_link ? "link" : "symlink") : "";
        case SYS_renameat: case SYS_renameat2: case SYS_linkat:
            t.path = at(p, r.rdi, r.rsi); t.path2 = at(p, r.rdx, r.r10);
            return under(t.path2) || under(t.path) ? (r.orig_rax == SYS_linkat ? "link" : "rename") : "";
        case SYS_symlinkat:
            t.path = cstr(p, r.rdi); t.path2 = at(p, r.rsi, r.rdx);
            return under(t.path2) ? "symlink" : "";
        case SYS_unlink: case SYS_rmdir: case SYS_mkdir:
            t.path = at(p, AT_FDCWD, r.rdi);
            return under(t.path) ? (r.orig_rax == SYS_unlink ? "unlink" : r.orig_rax == SYS_rmdir ? "rmdir" : "mkdir") : "";
        case SYS_unlinkat:
            t.path = at(p, r.rdi, r.rsi);
            return under(t.path) ? ((r.rdx & AT_REMOVEDIR) ? "rmdir" : "unlink") : "";
        case SYS_mkdirat:
            t.path = at(p, r.rdi, r.rsi);
            return under(t.path) ? "mkdir" : "";
    }
    return "";
}

static void record(Task& t) {
    user_regs_struct x;
    ptrace(PTRACE_GETREGS, t.tid, 0, &x);
    long ret = x.rax;
    if (t.kind == "open" || t.kind == "read") {
        if (t.kind == "read" && ret >= 0) fprintf(logf_, "{\"p\":%d,\"op\":\"read\",\"f\":%s,\"n\":%ld}\n", t.proc, esc(rel(t.path)).c_str(), ret);
        return;
    }
    if (t.kind == "resp") { fprintf(logf_, "{\"p\":%d,\"op\":\"resp\",\"n\":%ld}\n", t.proc, ret); return; }
    if (ret < 0) {
        fprintf(logf_, "{\"p\":%d,\"op\":\"fail\",\"what\":\"%s\",\"f\":%s,\"errno\":%ld}\n", t.proc, t.kind.c_str(), esc(rel(t.path)).c_str(), -ret);
        return;
    }
    if (t.kind == "write") {
        std::string data;
        auto& r = t.r;
        if (r.orig_rax == SYS_write || r.orig_rax == SYS_pwrite64) data = rd(t.tid, r.rsi, ret);
        else {
            std::string v = rd(t.tid, r.rsi, r.rdx * sizeof(iovec));
            for (size_t i = 0; i + sizeof(iovec) <= v.size() && (long)data.size() < ret; i += sizeof(iovec)) {
                iovec io; memcpy(&io, &v[i], sizeof io);
                data += rd(t.tid, (unsigned long)io.iov_base, io.iov_len);
            }
            data.resize(ret);
        }
        long off = (r.orig_rax == SYS_pwrite64 || r.orig_rax == SYS_pwritev) ? (long)r.r10 : fdpos(t.tid, r.rdi) - ret;
        fwrite(data.data(), 1, data.size(), blob);
        fprintf(logf_, "{\"p\":%d,\"op\":\"write\",\"f\":%s,\"off\":%ld,\"len\":%ld,\"blob\":%ld}\n", t.proc, esc(rel(t.path)).c_str(), off, ret, blobpos);
        blobpos += data.size();
        return;
    }
    std::string extra;
    if (t.kind == "ftruncate") extra = ",\"len\":" + std::to_string((long)t.r.rsi);
    if (!t.path2.empty()) extra = ",\"to\":" + esc(t.kind == "symlink" ? rel(t.path2) : rel(t.path2));
    fprintf(logf_, "{\"p\":%d,\"op\":\"%s\",\"f\":%s%s}\n", t.proc, t.kind.c_str(), esc(rel(t.path)).c_str(), extra.c_str());
}

static bool sleeping(pid_t t) {
    char p[64], b[512];
    snprintf(p, sizeof p, "/proc/%d/stat", t);
    int fd = open(p, O_RDONLY);
    if (fd < 0) return true;
    ssize_t n = read(fd, b, sizeof b - 1);
    close(fd);
    if (n <= 0) return true;
    b[n] = 0;
    char* q = strrchr(b, ')');
    return q && (q[2] == 'S' || q[2] == 'D' || q[2] == 'Z' || q[2] == 'X');
}

int main(int argc, char** argv) {
    if (argc < 9) return 2;
    logf_ = fopen(argv[1], "w");
    blob = fopen(argv[2], "w");
    prefix = argv[3];
    std::string mode = argv[4];
    std::mt19937 rng(atol(argv[5]));
    double deadline = atof(argv[6]);
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    auto now = [&] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) / 1e9; };
    int i = 7;
    int np = 0;
    if (const char* k = getenv("VTRACE_KILL")) { if (sscanf(k, "%d:%ld", &killProc, &killAt) != 2) killProc = -1; }
    while (i < argc) {
        if (strcmp(argv[i], "--") != 0) return 2;
        ++i;
        const char *in = argv[i], *out = argv[i + 1];
        std::vector<char*> cmd;
        int j = i + 2;
        while (j < argc && strcmp(argv[j], "--") != 0) cmd.push_back(argv[j++]);
        cmd.push_back(nullptr);
        pid_t pid = fork();
        if (pid == 0) child(in, out, cmd.data());
        int st;
        waitpid(pid, &st, __WALL);
        ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESECCOMP | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACEEXEC | PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
        char* rp = realpath(out, nullptr);
        outs.push_back(rp ? rp : out);
        Task t; t.tid = pid; t.proc = np++; t.isnew = false;
        tasks[pid] = t;
        all.push_back(pid);
        ptrace(PTRACE_CONT, pid, 0, 0);
        i = j;
    }
    const bool sched = mode != "free";
    int current = -1;                 // process allowed to run (sched)
    int quiet = 0;
    int rc = 0;
    auto choose = [&]() {
        // processes with a stopped task; nobody else running un-stopped (unless blocked)
        std::vector<pid_t> ready;
        for (auto& kv : tasks) if (kv.second.st == Task::READY) ready.push_back(kv.first);
        if (ready.empty()) return;
        pid_t pick = 0;
        if (mode == "pct" && current >= 0 && rng() % 12 != 0)
            for (pid_t t : ready) if (tasks[t].proc == current) pick = t;
        if (!pick) pick = ready[rng() % ready.size()];
        Task& t = tasks[pick];
        current = t.proc;
        t.kind = classify(t);          // the file system may have changed since it stopped
        proceed(t);
    };
    auto inflight = [&]() { for (auto& kv : tasks) if (kv.second.st == Task::EXIT) return true; return false; };
    auto release = [&]() {
        while (!sched && !inflight()) {
            std::vector<pid_t> ready;
            for (auto& kv : tasks) if (kv.second.st == Task::READY) ready.push_back(kv.first);
            if (ready.empty()) return;
            Task& t = tasks[ready[rng() % ready.size()]];
            t.kind = classify(t);
            if (t.kind.empty() || t.kind == "open") { t.st = Task::RUN; ptrace(PTRACE_CONT, t.tid, 0, 0); }
            else proceed(t);
        }
    };
    while (!tasks.empty()) {
        release();
        if (now() > deadline) { for (auto p : all) kill(p, SIGKILL); rc = 3; deadline = 1e18; }
        int st = 0;
        pid_t p = waitpid(-1, &st, __WALL | (sched ? WNOHANG : 0));
        if (p == 0) {
            // sched: is somebody still running?
            bool running = false;
            for (auto& kv : tasks) if (kv.second.st != Task::READY && !sleeping(kv.first)) running = true;
            if (running) { quiet = 0; usleep(20); continue; }
            bool moving = false;
            for (auto& kv : tasks) if (kv.second.st != Task::READY) moving = true;
            if (moving && ++quiet < 12) { usleep(50); continue; }
            quiet = 0;
            choose();
            usleep(10);
            continue;
        }
        if (p < 0) { if (errno == EINTR) continue; break; }
        quiet = 0;
        if (WIFEXITED(st) || WIFSIGNALED(st)) {
            auto it = tasks.find(p);
            if (it != tasks.end()) {
                for (size_t k = 0; k < all.size(); ++k)
                    if (all[k] == p) fprintf(logf_, "{\"p\":%d,\"op\":\"exit\",\"rc\":%d}\n", (int)k, WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st));
                tasks.erase(it);
            }
            continue;
        }
        if (!WIFSTOPPED(st)) continue;
        int sig = WSTOPSIG(st), ev = st >> 16;
        if (tasks.find(p) == tasks.end()) {      // new thread or child process
            Task t; t.tid = p;
            // its process: same thread group as a known task, or child of one
            char path[64];
            t.proc = 0;
            for (size_t k = 0; k < all.size(); ++k) { snprintf(path, sizeof path, "/proc/%d/task/%d", all[k], p); if (access(path, F_OK) == 0) t.proc = k; }
            tasks[p] = t;
        }
        Task& t = tasks[p];
        if (ev == PTRACE_EVENT_SECCOMP) {
            ptrace(PTRACE_GETREGS, p, 0, &t.r);
            t.kind = classify(t);
            if (t.kind.empty() || (t.kind == "open" && !sched)) { ptrace(PTRACE_CONT, p, 0, 0); continue; }
            if (!sched && inflight()) { t.st = Task::READY; continue; }    // recorded operations happen one at a time, in the order recorded
            if (sched && !(t.kind == "read" && t.path.size() > 4 && t.path.compare(t.path.size() - 4, 4, "/toc") != 0 && t.path.find("/toc.") == std::string::npos)) { t.st = Task::READY; continue; }
            proceed(t);
            continue;
        }
        if (ev != 0) {
            if (ev == PTRACE_EVENT_CLONE || ev == PTRACE_EVENT_FORK || ev == PTRACE_EVENT_VFORK) {
                unsigned long n = 0;
                ptrace(PTRACE_GETEVENTMSG, p, 0, &n);
                auto& c = tasks[(pid_t)n];
                c.tid = (pid_t)n;
                c.proc = t.proc;
            }
            ptrace(PTRACE_CONT, p, 0, 0);
            continue;
        }
        if (sig == (SIGTRAP | 0x80)) {           // exit of a recorded system call
            if (t.st == Task::EXIT) { record(t); t.st = Task::RUN; }
            ptrace(PTRACE_CONT, p, 0, 0);
            continue;
        }
        if (t.isnew && sig == SIGSTOP) { t.isnew = false; ptrace(PTRACE_CONT, p, 0, 0); continue; }
        ptrace(PTRACE_CONT, p, 0, (sig == SIGTRAP || sig == SIGSTOP) ? 0 : sig);
    }
    fclose(logf_);
    fclose(blob);
    return rc;
}
