#include "conc.hpp"
const unsigned engineMinOps = 4;
const bool engineCheckLeaks = true;
void engineInit() {}
void runCase(vp::Rd& rd)
{
    const std::string& m = vp::S().mode;
    if (m == "simple" || m == "blocking" || m == "priority") conc::queueCase(rd);
    else if (m == "airlock") conc::airCase(rd);
    else if (m == "work") conc::workCase(rd);
    else { fprintf(stderr, "unknown mode %s\n", m.c_str()); exit(3); }
}
