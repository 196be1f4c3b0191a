// A stream to hand to code that reports errors: natively a string stream; symbolically a stream object in the failed state, which discards everything.
#pragma once
#include <sstream>
#ifdef SYMX
struct NullOs {
    long vt[4] = {0, 0, 0, 0}; alignas(16) struct { void* vptr; alignas(8) unsigned char ios[600]; } o; alignas(16) unsigned char ct[600];
    NullOs() { for (auto& c : o.ios) c = 0; vt[0] = 8; /* offset of the virtual base */ o.vptr = &vt[3]; *(int*)(o.ios + 32) = 1; /* badbit */ for (auto& c : ct) c = 0; ct[56] = 1; /* characters are widened by table */ *(void**)(o.ios + 240) = ct; }
    operator std::ostream&() { return *reinterpret_cast<std::ostream*>(&o); }
};
#else
struct NullOs { std::ostringstream s; operator std::ostream&() { return s; } };
#endif
