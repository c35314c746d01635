// Any history of one agent pipe: what the analysis of the pipe's life starts from.  Never executed.
#include "NamedPipe.h"
#include "EventLoop.h"

extern "C" {
int vp_choose();
void *vp_pointer();
unsigned long long vp_number();
void vp_between();
}

static void history(bool server) {
    std::vector<HANDLE> waits;
    NamedPipe *p = new NamedPipe();
    if (server) {
        p->openServerPipe((LPCWSTR)vp_pointer(), (NamedPipe::OpenMode::t)vp_number(), (int)vp_number(), (int)vp_number());
    } else {
        p->connectToServer((LPCWSTR)vp_pointer(), (NamedPipe::OpenMode::t)vp_number());
    }
    while (vp_choose()) {
        vp_between();
        switch (vp_choose()) {
            case 0: p->serviceIo(&waits); break;
            case 1: p->write(vp_pointer(), vp_number()); break;
            case 2: p->setReadBufferSize(vp_number()); break;
            case 3: p->read(vp_pointer(), vp_number()); break;
            case 4: p->readAllToString(); break;
            case 5: p->readToString(vp_number()); break;
            case 6: p->bytesToSend(); break;
            case 7: p->peek(vp_pointer(), vp_number()); break;
            default: p->closePipe(); break;
        }
    }
    vp_between();
    delete p;
}

extern "C" void vp_pipe() { history(vp_choose()); }

// A pipe of the kind most often used: connected from the start.
extern "C" void vp_queue() { history(false); }
