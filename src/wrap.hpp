// Interposes the resources the libraries use (link with wrap.o and $(WRAP)):
// tracks what is live and injects failures.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
namespace wr {
enum Kind { HEAP = 1, FD = 2, STREAM = 4, MAP = 8, IO = 16, LOCK = 32, ALL = 63 };
struct Stats { size_t heap, heap_bytes, fd, stream, map; uint64_t map_bytes; };
// Starts tracking; forgets everything known before.
void start();
void stop();
Stats live();
std::string leaks();
// The n-th (from 1) and, if all, every later call of a kind in mask fails.  0: none.
void fail(unsigned mask, uint64_t n, bool all = false);
bool inject(unsigned kind);	// counts a call; whether it shall fail
uint64_t calls();	// since fail()
uint64_t failed();	// calls failed since fail()
// mmap calls remember the tag.
void tag(int t);
extern void (*hook)(void);	// called at each allocation, mapping and release
uint64_t map_bytes(int t);
size_t nmaps(int t);
size_t biggest_since_mark();	// largest live allocation since mark()
void mark();
struct Guard { Guard() { start(); } ~Guard() { fail(0, 0); stop(); } };
}
