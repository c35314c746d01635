// A scripted winpty session for the real Unix adapter.
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <termios.h>
#include <unistd.h>
#include <string>

// What the demo sets before the adapter runs (in the child process).
struct Script {
    bool openFails, spawnFails;
    unsigned spawnCode, exitCode;
    bool exitCodeFails;
    void (*session)(int in, int out, int err);      // runs in a thread of its own: reads what was typed, writes the output
    ssize_t (*onWrite)(int fd, const void *p, size_t n);
    ssize_t (*onRead)(int fd, void *p, size_t n);
    void (*onSetAttr)(int fd, const struct termios *t);
    void (*onSetSize)(int cols, int rows);
    void (*onIoctl)(int fd, unsigned long req);
    int (*onSelect)();
    void (*onJoin)();
    void (*onClose)(void *handle);
};
extern Script script;
extern "C" {
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_read(int, void *, size_t);
int __real_tcsetattr(int, int, const struct termios *);
int __real_pthread_join(pthread_t, void **);
}
int adapter_main(int argc, char *argv[]);

// Runs the adapter in a child process on a terminal of its own.
struct Run {
    int master, slave;
    pid_t pid;
    struct termios before, after;
    int note;                       // a pipe for what the child wants to tell
    int status;
    std::string out, notes;
};
extern int noteFd;
void note(const char *text);                            // in the child
void start(Run &r, int argc, const char **argv, void (*setup)());
bool sameModes(const struct termios &a, const struct termios &b);
bool finish(Run &r, int seconds);                       // false: it did not end in time (and was killed)
void say(Run &r, const char *text);                     // type
bool collect(Run &r, size_t n, int seconds);            // until that much output has arrived
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
