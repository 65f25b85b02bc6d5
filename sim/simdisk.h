// Simulated file system under the command line tools.
//
// While a DiskScope is alive, every file the code under test opens - through
// stdio, iostreams or file descriptors - lives here, and every operation is a
// decision point at which the disk may misbehave.
#ifndef SIM_SIMDISK_H_
#define SIM_SIMDISK_H_
#include <map>
#include <string>

#include "core.h"
namespace sim {
namespace disk {
struct Config {
  int fault = 0;            // chance (of 256) that an operation fails hard
  int slow = 0;             // chance (of 64) of a legal short transfer
  uint64_t free_bytes = ~uint64_t(0);   // room left on the disk
  bool seekable = true;     // false: input behaves like a pipe
  bool weird_size = false;  // the position is reported as an error
  uint64_t only_op = 0;     // only the k-th operation (1-based) fails
  uint64_t burst = 1;       // ... and the following ones, so many altogether
  uint64_t refused = ~uint64_t(0);   // a full disk has room again after so many refusals
  size_t buffer = 0;        // size of the stdio buffer; 0: the system's choice
};
struct State {
  std::map<std::string, Bytes> files;
  uint64_t ops = 0;
  uint64_t hard_faults = 0;   // failures the tool was told about (or not)
  uint64_t opened = 0, open_now = 0;
};
void Mount(World* w, const Config& cfg);
State& Get();
void Put(const std::string& name, const Bytes& data);
void SetConfig(const Config& cfg);
// Closes what the process left open, as its end would.
void ProcessExit();
void Unmount();
// Runs `body` as the process under test: exit() ends it.
int RunProcess(int (*body)(void*), void* arg);
}  // namespace disk
}  // namespace sim
#endif
