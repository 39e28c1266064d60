// Interface between the simulator and the code under test. The only translation unit that
// includes /repo's sources is sut.cpp; everything else sees these plain structures.
#pragma once
#include <cstddef>
#include <cstdint>

enum { MAXRES = 16, DATELEN = 96 };

// Parsers, in the order of the program; the last one is part of the library only.
enum ParserId { P_CT, P_DL, P_DOW, P_CD, P_MME, P_TL, P_MN, P_TA, P_TX, P_ISO, P_HOL, P_WX, P_RD, P_COUNT };
extern const char *const parser_names[P_COUNT];

struct RefTime { int y, mo, d, h, mi, s; };

struct OneResult {
    int64_t index;
    int64_t len;
    int32_t start[8];          // y mo d h mi s wday tz
    int32_t end[8];
    int32_t certain;           // bits: year month mday wday hour sec tz, then those of the end
    int32_t has_end;
    uint32_t tags;
    char date[DATELEN];        // toDate()
};

enum Status { ST_OK = 0, ST_NOMEM = 1, ST_EXC = 2, ST_UNKNOWN_EXC = 3 };

struct CallOut {
    int32_t status;            // of execute()/refine()
    int32_t date_status;       // worst of toDate()
    int32_t count;             // number of results, may exceed MAXRES
    int32_t ref_changed;
    int32_t ref_ok;            // the clock reading was a valid date
    RefTime ref;               // the instant that the request used
    char what[64];
    int32_t text_len;
    char text[640];            // the caller's string after the call
    OneResult r[MAXRES];
};

// Hooks that the simulator provides.
extern "C" void sim_enter_sut();   // allocations count, fail and are filled from here
extern "C" void sim_leave_sut();
extern "C" void sim_disarm();      // no allocation fails from here

int  sut_program(int argc, char **argv);                  // the program's main()
// kind: 0..P_COUNT-1 one parser, 100 the chain of the program, 101 the short chain
// fresh: new parser (and refiner) objects for this call
// slot: which set of long-lived objects to use when not fresh
void sut_call(int kind, bool fresh, int slot, const char *text, size_t len, const RefTime *ref, CallOut *out);
void sut_make_slot(int slot);                             // create a set of long-lived objects
void sut_fill_slot(int slot, int kind);                   // and the objects that requests of this kind use
