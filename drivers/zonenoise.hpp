#pragma once
#include "realzone.hpp"
namespace RZ
{
// what else goes on in a zone: work of other parts, which the part under test must not feel
enum { MODE = 1, SETPOINTS = 2, PASSES = 4, CACHE = 8, PERCENTS = 16, FLAGS = 32 };
inline void noise(DbusPidZone& z, int which)
{
    switch (H::u(9)) {
        case 0: if (which & MODE) { bool m = H::chance(50); H::ctx += m ? " ~manual" : " ~automatic"; if (H::chance(50)) z.setManualMode(m); else z.manual(m); } break;
        case 1: if (which & SETPOINTS) { H::ctx += " ~clear"; z.clearSetPoints(); z.clearRPMCeilings(); } break;
        case 2: if (which & SETPOINTS) { H::ctx += " ~resolve"; z.addRPMCeiling((double)H::u(100)); z.determineMaxSetPointRequest(); } break;
        case 3: if (which & PASSES) { H::ctx += " ~fans"; z.processFans(); } break;
        case 4: if (which & PASSES) { H::ctx += " ~thermals"; z.processThermals(); } break;
        case 5: if (which & CACHE) { H::ctx += " ~telemetry"; z.updateFanTelemetry(); } break;
        case 6: if (which & CACHE) { H::ctx += " ~sensors"; z.updateSensors(); } break;
        case 7: if (which & PERCENTS) { H::ctx += " ~percents"; z.addPidFailSafePercent({"a", "t0", "x"}, (double)H::u(100)); } break;
        default: {
            if (which & FLAGS) tuningEnabled = H::chance(20), debugEnabled = H::chance(10);
            (void)z.getFailSafePercent(), (void)z.getSensorNames(), (void)z.leader(), (void)z.getMaxSetPointRequest();
            z.setOutputCache("other", {1, 2});
        }
    }
}
} // namespace RZ
