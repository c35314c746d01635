// Any history of the agent's input side: what the analysis of ConsoleInput starts from.  Never executed.
#include "ConsoleInput.h"
#include "DsrSender.h"
#include "Win32Console.h"

extern "C" {
int vp_choose();
void *vp_pointer();
unsigned vp_number();
unsigned short vp_keys();
void vp_between();
}

extern "C" void vp_input() {
    ConsoleInput ci((HANDLE)vp_pointer(), (int)vp_number(), *(DsrSender *)vp_pointer(), *(Win32Console *)vp_pointer());
    while (vp_choose()) {
        vp_between();
        switch (vp_choose()) {
            case 0: ci.writeInput(*(const std::string *)vp_pointer()); break;
            case 1: ci.flushIncompleteEscapeCode(); break;
            default: ci.updateInputFlags(); break;
        }
    }
    vp_between();
}

// One key press, with each combination of modifiers.
extern "C" void vp_press() {
    std::vector<INPUT_RECORD> records;
    ConsoleInput &ci = *(ConsoleInput *)vp_pointer();
    ci.appendKeyPress(records, (uint16_t)vp_number(), vp_number(), vp_number(), vp_keys(), vp_number(), (uint16_t)vp_number());
    vp_between();
}
