// Runs one of the command line tools (built with sanitizers from the tree under test) in a child
// process with its own working directory and limits, and captures what it prints.
#pragma once
#include "core.hpp"
struct ToolRun {
   int rc = -1;     // exit code, or 1000 + signal
   Str out, err;
};
ToolRun runTool( const Str &tool, const std::vector<Str> &args, const Str &cwd );
// fails when the tool crashed, was stopped by a sanitizer or exceeded its limits
void checkSane( const ToolRun &t, const Str &tool, const std::vector<Str> &args );
Str joinArgs( const std::vector<Str> &args );
// moves some of the arguments into a parameter file ("@name") laid out at random; the meaning is unchanged
std::vector<Str> viaParamFile( Rng &r, const std::vector<Str> &args );
