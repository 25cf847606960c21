// The allocator seam: every operator new/delete of the engine, inside an EngineScope, is served from a
// fixed-address arena (deterministic node addresses => deterministic pointer hashes) and can be made to fail.
#pragma once
#include <cstddef>
#include <cstdint>
namespace arena {
void init(uint64_t offset);            // called once per run (child process)
extern bool active;                    // inside an engine call
extern long fail_at;                   // >0: the fail_at-th allocation from now throws std::bad_alloc
extern unsigned long nalloc;           // allocations served in engine calls
extern unsigned long nfailed;          // injected failures
extern unsigned long live_bytes;       // bytes the engine holds in the arena
extern bool (*only)(const void *);     // if set: only requests from code at such addresses are served
struct Scope { bool p; Scope() : p(active) { active = true; } ~Scope() { active = p; } };
struct Pause { bool p; Pause() : p(active) { active = false; } ~Pause() { active = p; } };
}
