// The whole life of an agent: what the analysis of its event loop starts from.  Never executed.
#include "Agent.h"
#include "DsrSender.h"
#include "../include/winpty_constants.h"

extern "C" {
void *vp_pointer();
int vp_number();
}

static void life(unsigned long long flags) {
    Agent agent((LPCWSTR)vp_pointer(), flags, vp_number(), vp_number(), vp_number());
    agent.run();
}

extern "C" void vp_agent() { life(0); }
extern "C" void vp_agent_conerr() { life(WINPTY_FLAG_CONERR); }

// A plain-output session, without and with colours.
static void plain(unsigned long long flags) {
    Agent agent((LPCWSTR)vp_pointer(), WINPTY_FLAG_PLAIN_OUTPUT | WINPTY_FLAG_CONERR | flags, vp_number(), vp_number(), vp_number());
    static_cast<DsrSender &>(agent).sendDsr();
    agent.run();
}

extern "C" void vp_agent_plain() { plain(0); }
extern "C" void vp_agent_color() { plain(WINPTY_FLAG_COLOR_ESCAPES); }
