// Interposed system calls: faults are injected into, and records taken of, the calls that concern one target file.
#pragma once
#include "core.hpp"
#include <sys/types.h>
struct IoPlan {
   Str target;            // file concerned
   long failAt = -1;      // n-th counted call (0 based) fails
   bool persistent = true;// all later calls fail too
   int err = 28;          // errno
   int kind = 0;          // 0 write fails, 1 write is shortened (then succeeds or fails according to persistent), 2 seek fails, 3 open fails, 4 close reports an error
   bool record = false;   // keep (offset, data) of every write and truncation
   // observations
   long writes = 0, seeks = 0, opens = 0, closes = 0, injected = 0;
   struct W { int64_t off; Str data; bool trunc; };
   std::vector<W> log;
};
extern IoPlan *g_io;// active plan, or null
