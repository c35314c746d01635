// Any use of a Terminal: what the analysis of the agent's output starts from.  Never executed.
#include <windows.h>
#include "NamedPipe.h"
#include "Terminal.h"

extern "C" {
int vp_choose();
void *vp_pointer();
int vp_number();
long long vp_line();
void vp_mouse(int on);
void vp_cursor(int shown);
}

static void use(bool plain, bool color) {
    Terminal t(*(NamedPipe *)vp_pointer(), plain, color);
    while (vp_choose()) {
        switch (vp_choose()) {
            case 0: t.reset(vp_choose() ? Terminal::SendClear : Terminal::OmitClear, vp_line()); break;
            case 1: t.sendLine(vp_line(), (const CHAR_INFO *)vp_pointer(), vp_number(), vp_number()); break;
            case 2: t.showTerminalCursor(vp_number(), vp_line()); vp_cursor(1); break;
            case 3: t.hideTerminalCursor(); vp_cursor(0); break;
            case 4: t.enableMouseMode(true); vp_mouse(1); break;
            default: t.enableMouseMode(false); vp_mouse(0); break;
        }
    }
}

extern "C" void vp_plain() { use(true, false); }
extern "C" void vp_color() { use(true, true); }
extern "C" void vp_normal() { use(false, true); }
