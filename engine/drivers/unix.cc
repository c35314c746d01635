// A signal arriving at any time after its handler has been installed.  Never executed.
#include <signal.h>
#include <stddef.h>
#include <pthread.h>
#include <sys/select.h>
#include <termios.h>
#include <unistd.h>

typedef void (*vp_handler_t)(int, void *, void *);

extern "C" {
void vp_arm();
void vp_disarm();
void vp_closed(int);
void *vp_pointer();
unsigned vp_number();
}

static vp_handler_t vp_handler;

static void vp_signal() {
    if (vp_handler != NULL) {
        vp_arm();
        vp_handler((int)vp_number(), vp_pointer(), vp_pointer());
        vp_disarm();
    }
}

extern "C" int sigaction(int, const struct sigaction *a, struct sigaction *) {
    if (a != NULL) {
        vp_handler = a->sa_handler == SIG_DFL || a->sa_handler == SIG_IGN ? NULL : (vp_handler_t)a->sa_handler;
        vp_signal();
    }
    return 0;
}

extern "C" sighandler_t signal(int, sighandler_t h) {
    vp_handler = h == SIG_DFL || h == SIG_IGN ? NULL : (vp_handler_t)h;
    vp_signal();
    return SIG_DFL;
}

extern "C" int select(int, fd_set *, fd_set *, fd_set *, struct timeval *) {
    vp_signal();
    return (int)vp_number();
}

extern "C" int tcsetattr(int, int, const struct termios *) {
    vp_signal();
    return (int)vp_number();
}

extern "C" int pthread_join(pthread_t, void **) {
    vp_signal();
    return 0;
}

extern "C" int close(int fd) {
    vp_closed(fd);
    vp_signal();
    return 0;
}
